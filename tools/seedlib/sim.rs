// A small simulated camera bus for the demonstrations.
#![allow(dead_code)]
use std::cell::RefCell;
use std::rc::Rc;

use embedded_hal::blocking::i2c;
pub use mlx9064x::common::*;
pub use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
pub use mlx9064x::mlx90641::{hamming, Mlx90641, Mlx90641Calibration};
pub use mlx9064x::*;
pub use mlx9064x_test_data::{
    mlx90640_datasheet_eeprom, mlx90640_example_data, mlx90641_datasheet_eeprom,
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault(pub usize);

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Read { dev: u8, addr: u16, len: usize },
    Write { dev: u8, addr: u16, value: u16 },
}

pub struct State {
    pub dev: u8,
    pub eeprom: Vec<u16>,
    /// From 0x0400
    pub ram: Vec<u16>,
    pub status: u16,
    pub control: u16,
    pub i2c: u16,
    pub log: Vec<Op>,
    pub count: usize,
    pub fail_at: Option<usize>,
    /// Called after each completed transaction.
    pub after: Option<Box<dyn FnMut(&mut State, &Op)>>,
}

impl State {
    pub fn word(&self, addr: u16) -> u16 {
        match addr {
            0x0400..=0x07FF => self.ram[(addr - 0x400) as usize],
            0x2400..=0x273F => self.eeprom[(addr - 0x2400) as usize],
            0x8000 => self.status,
            0x800D => self.control,
            0x800F => self.i2c,
            _ => panic!("read of {:#06X}", addr),
        }
    }
}

#[derive(Clone)]
pub struct Bus(pub Rc<RefCell<State>>);

impl Bus {
    fn begin(&self, dev: u8) -> Result<(), Fault> {
        let mut s = self.0.borrow_mut();
        assert_eq!(dev, s.dev, "wrong device address");
        let n = s.count;
        s.count += 1;
        if s.fail_at == Some(n) {
            return Err(Fault(n));
        }
        Ok(())
    }
    fn end(&self, op: Op) {
        let hook = self.0.borrow_mut().after.take();
        self.0.borrow_mut().log.push(op.clone());
        if let Some(mut h) = hook {
            h(&mut self.0.borrow_mut(), &op);
            let mut s = self.0.borrow_mut();
            if s.after.is_none() {
                s.after = Some(h);
            }
        }
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        f(&mut self.0.borrow_mut())
    }
    pub fn clear(&self) {
        self.with(|s| {
            s.log.clear();
            s.count = 0;
            s.fail_at = None;
        })
    }
    pub fn fail_at(&self, n: usize) {
        self.clear();
        self.with(|s| s.fail_at = Some(n));
    }
    pub fn log(&self) -> Vec<Op> {
        self.with(|s| s.log.clone())
    }
}

impl i2c::Write for Bus {
    type Error = Fault;
    fn write(&mut self, dev: u8, bytes: &[u8]) -> Result<(), Fault> {
        self.begin(dev)?;
        assert_eq!(bytes.len(), 4, "write of a single word");
        let addr = u16::from_be_bytes([bytes[0], bytes[1]]);
        let value = u16::from_be_bytes([bytes[2], bytes[3]]);
        self.with(|s| match addr {
            0x8000 => s.status = value,
            0x800D => s.control = value,
            0x800F => s.i2c = value,
            _ => panic!("write to {:#06X}", addr),
        });
        self.end(Op::Write { dev, addr, value });
        Ok(())
    }
}

impl i2c::WriteRead for Bus {
    type Error = Fault;
    fn write_read(&mut self, dev: u8, bytes: &[u8], buf: &mut [u8]) -> Result<(), Fault> {
        self.begin(dev)?;
        assert_eq!(bytes.len(), 2);
        assert_eq!(buf.len() % 2, 0);
        let addr = u16::from_be_bytes([bytes[0], bytes[1]]);
        self.with(|s| {
            for (i, c) in buf.chunks_exact_mut(2).enumerate() {
                c.copy_from_slice(&s.word(addr + i as u16).to_be_bytes());
            }
        });
        self.end(Op::Read { dev, addr, len: buf.len() / 2 });
        Ok(())
    }
}

pub fn words(bytes: &[u8]) -> Vec<u16> {
    bytes.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect()
}
pub fn bytes(words: &[u16]) -> Vec<u8> {
    words.iter().flat_map(|w| w.to_be_bytes()).collect()
}
pub fn ee640() -> Vec<u16> {
    words(mlx90640_example_data::EEPROM_DATA)
}
pub fn ee640_datasheet() -> Vec<u16> {
    words(&mlx90640_datasheet_eeprom())
}
pub fn ee641() -> Vec<u16> {
    words(&mlx90641_datasheet_eeprom())
}
/// Encode 11 bits
pub fn enc(data: u16) -> u16 {
    hamming::add_checksum(data & 0x7FF).unwrap()
}
pub fn cal640(ee: &[u16]) -> Mlx90640Calibration {
    Mlx90640Calibration::from_data(&bytes(ee)).unwrap()
}
pub fn cal641(ee: &[u16]) -> Mlx90641Calibration {
    Mlx90641Calibration::from_data(&bytes(ee)).unwrap()
}
pub const DEV: u8 = 0x33;
pub fn bus640() -> Bus {
    let mut ram = words(mlx90640_example_data::FRAME_0_DATA);
    ram.resize(0x400, 0);
    Bus(Rc::new(RefCell::new(State {
        dev: DEV,
        eeprom: ee640(),
        ram,
        status: 0x0008,
        control: 0x1901,
        i2c: 0,
        log: vec![],
        count: 0,
        fail_at: None,
        after: None,
    })))
}
pub fn bus641() -> Bus {
    let mut ram: Vec<u16> = (0..0x400u16).map(|i| 900 + (i * 7) % 101).collect();
    let set = |ram: &mut Vec<u16>, a: usize, v: i16| ram[a - 0x400] = v as u16;
    set(&mut ram, 0x580, 0x4BF2); // V_BE
    set(&mut ram, 0x588, -40); // CP 0
    set(&mut ram, 0x58A, 9972); // gain
    set(&mut ram, 0x5A0, 0x06AF); // PTAT
    set(&mut ram, 0x5A8, -47); // CP 1
    set(&mut ram, 0x5AA, 0xCCC5u16 as i16); // VDD
    Bus(Rc::new(RefCell::new(State {
        dev: DEV,
        eeprom: ee641(),
        ram,
        status: 0x0008,
        control: 0x0901,
        i2c: 0,
        log: vec![],
        count: 0,
        fail_at: None,
        after: None,
    })))
}
pub fn cam640(bus: &Bus) -> Mlx90640Driver<Bus> {
    Mlx90640Driver::new(bus.clone(), DEV).map_err(|e| format!("{:?}", e)).unwrap()
}
pub fn cam641(bus: &Bus) -> Mlx90641Driver<Bus> {
    Mlx90641Driver::new(bus.clone(), DEV).map_err(|e| format!("{:?}", e)).unwrap()
}
pub const MARK: f32 = -12345.5;
pub fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|f| f.to_bits()).collect()
}
pub fn close(a: f32, b: f32, rel: f32) -> bool {
    (a - b).abs() <= rel * (1.0 + a.abs().max(b.abs()))
}
