//! The simulated camera(s) and the I²C bus the real driver is run against.
//!
//! The bus is a zero-sized handle to a thread-local `World`, so that a driver can be cloned together
//! with the state of the camera it talks to, which is what makes explicit-state search over the real
//! driver possible.  Every transaction is a numbered point at which the explorer can inject a bus
//! fault or a camera event.
use embedded_hal::blocking::i2c;
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Model {
    M640,
    M641,
}
use Model::*;

pub const EE_BASE: u16 = 0x2400;
pub const EE_WORDS: usize = 832;
pub const RAM_BASE: u16 = 0x0400;
pub const RAM_MAX: usize = 832;
pub const STATUS: u16 = 0x8000;
pub const CONTROL: u16 = 0x800D;
pub const I2CREG: u16 = 0x800F;

pub const ST_SUB: u16 = 0x0001;
pub const ST_NEW: u16 = 0x0008;
pub const ST_OVR: u16 = 0x0010;
pub const ST_START: u16 = 0x0020;

impl Model {
    pub const BOTH: [Model; 2] = [M640, M641];
    pub fn name(self) -> &'static str {
        match self {
            M640 => "MLX90640",
            M641 => "MLX90641",
        }
    }
    pub fn height(self) -> usize {
        match self {
            M640 => 24,
            M641 => 12,
        }
    }
    pub fn width(self) -> usize {
        match self {
            M640 => 32,
            M641 => 16,
        }
    }
    pub fn pixels(self) -> usize {
        self.height() * self.width()
    }
    pub fn ram_words(self) -> usize {
        match self {
            M640 => 832,
            M641 => 448,
        }
    }
    pub fn vbe(self) -> u16 {
        match self {
            M640 => 0x700,
            M641 => 0x580,
        }
    }
    pub fn cp(self, sp: u8) -> u16 {
        match (self, sp) {
            (M640, 0) => 0x708,
            (M640, _) => 0x728,
            (M641, 0) => 0x588,
            (M641, _) => 0x5A8,
        }
    }
    pub fn gain(self) -> u16 {
        match self {
            M640 => 0x70A,
            M641 => 0x58A,
        }
    }
    pub fn ptat(self) -> u16 {
        match self {
            M640 => 0x720,
            M641 => 0x5A0,
        }
    }
    pub fn vdd(self) -> u16 {
        match self {
            M640 => 0x72A,
            M641 => 0x5AA,
        }
    }
    /// The RAM address of a pixel's word for a subpage.
    pub fn pixel_addr(self, sp: u8, px: usize) -> u16 {
        match self {
            M640 => RAM_BASE + px as u16,
            // Blocks of 32 pixels (two image rows), alternating between the subpages.
            M641 => RAM_BASE + ((px / 32) * 64 + sp as usize * 32 + px % 32) as u16,
        }
    }
    /// Whether a pixel belongs to a subpage.  `pat` is 1 for chess, 0 for interleaved.
    pub fn in_subpage(self, pat: u8, sp: u8, px: usize) -> bool {
        match self {
            M641 => true,
            M640 => {
                let (r, c) = (px / 32, px % 32);
                if pat == 1 {
                    (r + c) % 2 == sp as usize
                } else {
                    r % 2 == sp as usize
                }
            }
        }
    }
    pub fn self_heating(self) -> f64 {
        match self {
            M640 => 8.0,
            M641 => 5.0,
        }
    }
    pub fn basic_range(self) -> usize {
        match self {
            M640 => 1,
            M641 => 2,
        }
    }
    pub fn default_control(self) -> u16 {
        match self {
            M640 => 0x1901,
            M641 => 0x0901,
        }
    }
}

/// A complete RAM image, used as the content a measurement produces.
#[derive(Clone)]
pub struct Frame {
    pub ram: [u16; RAM_MAX],
}

#[derive(Clone)]
pub struct Dev {
    pub model: Model,
    pub addr: u8,
    pub eeprom: Arc<Vec<u16>>,
    pub ram: [u16; RAM_MAX],
    pub status: u16,
    pub control: u16,
    pub i2creg: u16,
    pub frames: Arc<Vec<Frame>>,
    /// Reads of the status register left until a requested measurement completes.
    pub measuring: Option<(u32, u8, u8)>,
    /// What a requested measurement does: (polls until done, frame, subpage).
    pub on_start: Option<(u32, u8, u8)>,
    /// When the start bit is cleared after a request: at the end of the measurement, or after this
    /// many reads of the status register.
    pub start_clears: Option<u32>,
    start_reads: u32,
    /// Number of measurements published so far.
    pub published: u32,
    /// Set while a measurement that was requested has been completed.
    pub requested_done: u32,
}

impl Dev {
    pub fn new(model: Model, addr: u8, eeprom: Arc<Vec<u16>>, ram: &[u16]) -> Dev {
        let mut r = [0u16; RAM_MAX];
        r[..ram.len()].copy_from_slice(ram);
        Dev {
            model,
            addr,
            eeprom,
            ram: r,
            status: 0,
            control: model.default_control(),
            i2creg: 0,
            frames: Arc::new(Vec::new()),
            measuring: None,
            on_start: None,
            start_clears: None,
            start_reads: 0,
            published: 0,
            requested_done: 0,
        }
    }
    pub fn word(&self, a: u16) -> u16 {
        self.ram[(a - RAM_BASE) as usize]
    }
    pub fn set_word(&mut self, a: u16, v: u16) {
        self.ram[(a - RAM_BASE) as usize] = v
    }
    pub fn pattern(&self) -> u8 {
        (self.control >> 12 & 1) as u8
    }
    pub fn resolution(&self) -> u8 {
        (self.control >> 10 & 3) as u8
    }
    /// A measurement of a subpage completes: its data appears in RAM and the flag is raised.
    pub fn publish(&mut self, frame: u8, sp: u8) {
        let frames = self.frames.clone();
        let f = &frames[frame as usize].ram;
        let m = self.model;
        let pat = self.pattern();
        for px in 0..m.pixels() {
            if m.in_subpage(pat, sp, px) {
                let a = m.pixel_addr(sp, px);
                self.ram[(a - RAM_BASE) as usize] = f[(a - RAM_BASE) as usize];
            }
        }
        for a in [m.vbe(), m.ptat(), m.gain(), m.vdd(), m.cp(sp)] {
            self.ram[(a - RAM_BASE) as usize] = f[(a - RAM_BASE) as usize];
        }
        self.status = self.status & !(ST_SUB) | sp as u16 | ST_NEW;
        self.published += 1;
    }
    pub fn hash_into<H: Hasher>(&self, h: &mut H) {
        self.ram.hash(h);
        (self.status, self.control, self.i2creg, self.measuring, self.on_start, self.start_clears, self.start_reads).hash(h);
    }
    fn region(&self, a: u16) -> Option<(u16, u16)> {
        let re = RAM_BASE + self.model.ram_words() as u16;
        if (EE_BASE..EE_BASE + EE_WORDS as u16).contains(&a) {
            Some((EE_BASE, EE_BASE + EE_WORDS as u16))
        } else if (RAM_BASE..re).contains(&a) {
            Some((RAM_BASE, re))
        } else if [STATUS, CONTROL, I2CREG].contains(&a) {
            Some((a, a + 1))
        } else {
            None
        }
    }
    fn read_word(&mut self, a: u16) -> u16 {
        match a {
            STATUS => {
                if let Some((n, f, sp)) = self.measuring {
                    if n == 0 {
                        self.measuring = None;
                        self.requested_done += 1;
                        if self.start_clears.is_none() {
                            self.status &= !ST_START;
                        }
                        self.publish(f, sp);
                    } else {
                        self.measuring = Some((n - 1, f, sp));
                    }
                }
                if let Some(k) = self.start_clears {
                    if self.start_reads >= k {
                        self.status &= !ST_START;
                    }
                    self.start_reads += 1;
                }
                self.status
            }
            CONTROL => self.control,
            I2CREG => self.i2creg,
            a if a >= EE_BASE => self.eeprom[(a - EE_BASE) as usize],
            a => self.ram[(a - RAM_BASE) as usize],
        }
    }
    /// What a read (`None`) or write of a register does, without a bus.
    pub fn follow(&mut self, a: u16, write: Option<u16>) -> u16 {
        match write {
            Some(v) => {
                self.write_reg(a, v);
                v
            }
            None => self.read_word(a),
        }
    }
    fn write_reg(&mut self, a: u16, v: u16) {
        match a {
            STATUS => {
                // The subpage bits are read-only and the new-data flag can only be cleared.
                let keep = self.status & 0x0007;
                let new = self.status & v & ST_NEW;
                self.status = v & !0x000F | keep | new;
                if v & ST_START != 0 {
                    if let Some(m) = self.on_start {
                        self.measuring = Some(m);
                        self.start_reads = 0;
                    }
                }
            }
            CONTROL => self.control = v,
            I2CREG => self.i2creg = v,
            _ => {}
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    /// The transaction fails without any effect.
    Fail,
    /// A read fails after having filled half of the buffer; a write fails after taking effect.
    Partial,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Event {
    Publish(u8, u8),
    SetControl(u16),
    SetStatus(u16),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RdErr(pub u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WrErr(pub u32);
impl std::fmt::Display for RdErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "read error {}", self.0)
    }
}
impl std::fmt::Display for WrErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "write error {}", self.0)
    }
}
impl std::error::Error for RdErr {}
impl std::error::Error for WrErr {}

/// One bus transaction as seen on the wire.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tx {
    pub addr: u8,
    pub write: bool,
    /// First register/memory address (or the raw length when malformed).
    pub reg: u16,
    /// Number of bytes.
    pub len: usize,
    /// The last word read, or the written word.
    pub value: u16,
    pub ok: bool,
    /// Set when the transaction breaks the memory map or the transaction format.
    pub bad: Option<&'static str>,
}

#[derive(Clone, Default)]
pub struct World {
    pub devs: Vec<Dev>,
    pub ntx: usize,
    pub log_on: bool,
    pub log: Vec<Tx>,
    /// Words that were actually read (address, value), when `words_on`.
    pub words_on: bool,
    pub words: Vec<(u16, u16)>,
    pub faults: Vec<(usize, Fault)>,
    pub events: Vec<(usize, Event)>,
    /// Highest number of transactions before the run is declared stuck.
    pub horizon: usize,
}

/// Bus transactions of this thread, added to the total when the thread ends.
struct TxCount(std::cell::Cell<u64>);
impl Drop for TxCount {
    fn drop(&mut self) {
        TOTAL_TX.fetch_add(self.0.get(), std::sync::atomic::Ordering::Relaxed);
    }
}
thread_local! {
    static TX: TxCount = const { TxCount(std::cell::Cell::new(0)) };
}
pub static TOTAL_TX: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub const HORIZON_MSG: &str = "horizon: the driver keeps issuing transactions without making progress";

impl World {
    pub fn new(dev: Dev) -> World {
        World {
            devs: vec![dev],
            horizon: 100_000,
            ..Default::default()
        }
    }
    pub fn dev(&mut self) -> &mut Dev {
        &mut self.devs[0]
    }
    fn begin(&mut self) -> Option<(u32, Fault)> {
        let i = self.ntx;
        self.ntx += 1;
        TX.with(|t| t.0.set(t.0.get() + 1));
        if self.ntx > self.horizon {
            panic!("{}", HORIZON_MSG);
        }
        if !self.events.is_empty() {
            let evs: Vec<Event> = self
                .events
                .iter()
                .filter(|(k, _)| *k == i)
                .map(|(_, e)| *e)
                .collect();
            for e in evs {
                self.apply(e);
            }
        }
        self.faults
            .iter()
            .find(|(k, _)| *k == i)
            .map(|(k, f)| (*k as u32, *f))
    }
    pub fn apply(&mut self, e: Event) {
        let d = &mut self.devs[0];
        match e {
            Event::Publish(f, sp) => d.publish(f, sp),
            Event::SetControl(c) => d.control = c,
            Event::SetStatus(s) => d.status = s,
        }
    }
    fn rec(&mut self, tx: Tx) {
        if self.log_on {
            self.log.push(tx)
        }
    }
    pub fn write_read(&mut self, addr: u8, bytes: &[u8], buf: &mut [u8]) -> Result<(), RdErr> {
        let fault = self.begin();
        let reg = if bytes.len() == 2 {
            u16::from_be_bytes([bytes[0], bytes[1]])
        } else {
            0
        };
        let mut tx = Tx {
            addr,
            write: false,
            reg,
            len: buf.len(),
            value: 0,
            ok: false,
            bad: None,
        };
        let di = self.devs.iter().position(|d| d.addr == addr);
        let words = buf.len() / 2;
        if bytes.len() != 2 {
            tx.bad = Some("a read must be preceded by a two-byte memory address");
        } else if buf.is_empty() || buf.len() % 2 != 0 {
            tx.bad = Some("reads must cover whole words");
        } else if di.is_none() {
            tx.bad = Some("no camera at this address");
        } else {
            match self.devs[di.unwrap()].region(reg) {
                None => tx.bad = Some("read outside of the memory map"),
                Some((_, end)) if reg as usize + words > end as usize => {
                    tx.bad = Some("read runs past the end of a memory region")
                }
                _ => {}
            }
        }
        if let Some((n, f)) = fault {
            if f == Fault::Partial {
                let l = buf.len();
                for b in buf[..l.div_ceil(2)].iter_mut() {
                    *b = 0x5A;
                }
            }
            self.rec(tx);
            return Err(RdErr(n));
        }
        if tx.bad.is_some() {
            self.rec(tx);
            return Err(RdErr(u32::MAX));
        }
        let d = &mut self.devs[di.unwrap()];
        let mut a = reg;
        let won = self.words_on;
        for ch in buf.chunks_exact_mut(2) {
            let v = d.read_word(a);
            ch.copy_from_slice(&v.to_be_bytes());
            tx.value = v;
            if won {
                self.words.push((a, v));
            }
            a = a.wrapping_add(1);
        }
        tx.ok = true;
        self.rec(tx);
        Ok(())
    }
    pub fn write(&mut self, addr: u8, bytes: &[u8]) -> Result<(), WrErr> {
        let fault = self.begin();
        let mut tx = Tx {
            addr,
            write: true,
            reg: 0,
            len: bytes.len(),
            value: 0,
            ok: false,
            bad: None,
        };
        if bytes.len() != 4 {
            tx.bad = Some("a write must be a memory address and one word");
        } else {
            tx.reg = u16::from_be_bytes([bytes[0], bytes[1]]);
            tx.value = u16::from_be_bytes([bytes[2], bytes[3]]);
            if ![STATUS, CONTROL, I2CREG].contains(&tx.reg) {
                tx.bad = Some("write to something else than a register");
            }
        }
        let di = self.devs.iter().position(|d| d.addr == addr);
        if di.is_none() {
            tx.bad = Some("no camera at this address");
        }
        if tx.bad.is_some() {
            self.rec(tx);
            return Err(WrErr(u32::MAX));
        }
        let d = &mut self.devs[di.unwrap()];
        match fault {
            Some((n, f)) => {
                if f == Fault::Partial {
                    d.write_reg(tx.reg, tx.value);
                }
                self.rec(tx);
                Err(WrErr(n))
            }
            None => {
                d.write_reg(tx.reg, tx.value);
                tx.ok = true;
                self.rec(tx);
                Ok(())
            }
        }
    }
}

/// A shared world with a cooperative scheduler: exactly one thread runs between two transactions.
pub struct Sched {
    pub m: Mutex<SchedState>,
    pub cv: Condvar,
}
pub struct SchedState {
    pub worlds: Vec<World>,
    /// Which of the worlds each thread lives in.
    pub lives: Vec<usize>,
    pub turn: usize,
    pub alive: Vec<bool>,
    /// Preemptions: before its global transaction number `.0`, switch to the thread `.1`.
    pub switches: Vec<(usize, usize)>,
    pub global: usize,
    /// (thread) at each global transaction, for validating replays.
    pub trace: Vec<u8>,
    /// Threads waiting at a transaction.
    pub arrived: Vec<bool>,
}

enum Cur {
    None,
    Local(Box<World>),
    Shared(Arc<Sched>, usize),
}

thread_local! {
    static CUR: RefCell<Cur> = const { RefCell::new(Cur::None) };
}

pub fn install(w: World) {
    CUR.with(|c| *c.borrow_mut() = Cur::Local(Box::new(w)));
}
pub fn take() -> World {
    CUR.with(|c| match std::mem::replace(&mut *c.borrow_mut(), Cur::None) {
        Cur::Local(w) => *w,
        _ => panic!("no world installed"),
    })
}
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    CUR.with(|c| match &mut *c.borrow_mut() {
        Cur::Local(w) => f(w),
        _ => panic!("no world installed"),
    })
}
pub fn install_shared(s: Arc<Sched>, me: usize) {
    CUR.with(|c| *c.borrow_mut() = Cur::Shared(s, me));
}
pub fn uninstall() {
    CUR.with(|c| *c.borrow_mut() = Cur::None);
}

fn scheduled<R>(s: &Arc<Sched>, me: usize, f: impl FnOnce(&mut World) -> R) -> R {
    let mut st = s.m.lock().unwrap();
    st.arrived[me] = true;
    loop {
        // Everyone who is alive has to have arrived at a transaction before one is chosen, so that
        // a schedule fully determines the execution.
        let ready = st
            .alive
            .iter()
            .zip(st.arrived.iter())
            .all(|(al, ar)| !*al || *ar);
        if ready {
            let g = st.global;
            if let Some(p) = st.switches.iter().position(|(k, _)| *k == g) {
                let (_, t) = st.switches.remove(p);
                if st.alive[t] {
                    st.turn = t;
                }
            }
            if !st.alive[st.turn] {
                st.turn = st.alive.iter().position(|a| *a).unwrap();
            }
            if st.turn == me {
                break;
            }
            s.cv.notify_all();
        }
        st = s.cv.wait(st).unwrap();
    }
    st.global += 1;
    st.trace.push(me as u8);
    st.arrived[me] = false;
    let w = st.lives[me];
    let r = f(&mut st.worlds[w]);
    s.cv.notify_all();
    r
}
/// A scheduled thread has finished.
pub fn finish(s: &Arc<Sched>, me: usize) {
    let mut st = s.m.lock().unwrap();
    st.alive[me] = false;
    st.arrived[me] = false;
    s.cv.notify_all();
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Bus;

impl i2c::WriteRead for Bus {
    type Error = RdErr;
    fn write_read(&mut self, addr: u8, bytes: &[u8], buf: &mut [u8]) -> Result<(), RdErr> {
        let sh = CUR.with(|c| match &mut *c.borrow_mut() {
            Cur::Local(w) => Ok(w.write_read(addr, bytes, buf)),
            Cur::Shared(s, me) => Err((s.clone(), *me)),
            Cur::None => panic!("no world installed"),
        });
        match sh {
            Ok(r) => r,
            Err((s, me)) => scheduled(&s, me, |w| w.write_read(addr, bytes, buf)),
        }
    }
}
impl i2c::Write for Bus {
    type Error = WrErr;
    fn write(&mut self, addr: u8, bytes: &[u8]) -> Result<(), WrErr> {
        let sh = CUR.with(|c| match &mut *c.borrow_mut() {
            Cur::Local(w) => Ok(w.write(addr, bytes)),
            Cur::Shared(s, me) => Err((s.clone(), *me)),
            Cur::None => panic!("no world installed"),
        });
        match sh {
            Ok(r) => r,
            Err((s, me)) => scheduled(&s, me, |w| w.write(addr, bytes)),
        }
    }
}
