#![no_std]
use core::panic::PanicInfo;
use embedded_hal::blocking::i2c;
use mlx9064x::{Mlx90640Driver, Mlx90641Driver};

#[panic_handler]
fn panic(_: &PanicInfo) -> ! {
    loop {}
}

/// An I2C peripheral implemented outside of this library.
pub struct Bus;
extern "C" {
    fn bus_write(addr: u8, p: *const u8, n: usize) -> i32;
    fn bus_write_read(addr: u8, p: *const u8, n: usize, q: *mut u8, m: usize) -> i32;
}
impl i2c::Write for Bus {
    type Error = i32;
    fn write(&mut self, addr: u8, b: &[u8]) -> Result<(), i32> {
        match unsafe { bus_write(addr, b.as_ptr(), b.len()) } {
            0 => Ok(()),
            e => Err(e),
        }
    }
}
impl i2c::WriteRead for Bus {
    type Error = i32;
    fn write_read(&mut self, addr: u8, b: &[u8], r: &mut [u8]) -> Result<(), i32> {
        match unsafe { bus_write_read(addr, b.as_ptr(), b.len(), r.as_mut_ptr(), r.len()) } {
            0 => Ok(()),
            e => Err(e),
        }
    }
}

#[no_mangle]
pub extern "C" fn image640(dest: *mut f32) -> i32 {
    let dest = unsafe { core::slice::from_raw_parts_mut(dest, 768) };
    let Ok(mut d) = Mlx90640Driver::new(Bus, 0x33) else { return -1 };
    let _ = d.synchronize();
    match d.generate_image_if_ready(dest) {
        Ok(b) => b as i32,
        Err(_) => -2,
    }
}
#[no_mangle]
pub extern "C" fn image641(dest: *mut f32) -> i32 {
    let dest = unsafe { core::slice::from_raw_parts_mut(dest, 192) };
    let Ok(mut d) = Mlx90641Driver::new(Bus, 0x33) else { return -1 };
    let _ = d.synchronize();
    match d.generate_image_if_ready(dest) {
        Ok(b) => b as i32,
        Err(_) => -2,
    }
}
