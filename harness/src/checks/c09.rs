//! C09: loading calibration data never panics.
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::util::*;
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::mlx90641::Mlx90641Calibration;
use std::sync::Arc;

const LEN: usize = 1664;

/// Decode; `Ok(true)` if it gave a calibration.
fn decode(m: Model, b: &[u8]) -> Result<bool, String> {
    guard(|| match m {
        Model::M640 => Mlx90640Calibration::from_data(b).is_ok(),
        Model::M641 => Mlx90641Calibration::from_data(b).is_ok(),
    })
}
fn driver(m: Model, w: &[u16]) -> Result<Result<(), Ret>, String> {
    install(World::new(dev(m, &Arc::new(w.to_vec()))));
    let r = guard(|| Drv::new(m, 0x33).map(|_| ()));
    take();
    r
}

fn backgrounds(m: Model) -> Vec<(String, Vec<u16>)> {
    let mut v: Vec<(String, Vec<u16>)> = vec![];
    let enc = |w: u16| if m == Model::M641 { ham(w & 0x7FF) } else { w };
    for w in [0u16, 0xFFFF, 0x8000, 0x7FFF, 0x8421, 0x7BDE, 0x0400, 0x03FF, 0x0FF0, 0xF00F] {
        v.push((format!("all data {w:#06x}"), vec![enc(w); 832]));
    }
    v.push(("rich".into(), base_ee(m).to_vec()));
    // Extreme averages with scales at both ends.
    for (h, p) in [(0x7FFFu16, 0x7FFFu16), (0x8000, 0x8000), (0x7FFF, 0x8001), (0x8000, 0x7FFE)] {
        let mut e: Vec<u16> = base_ee(m).to_vec();
        for (i, w) in e.iter_mut().enumerate() {
            *w = match i {
                0..=0x0F => 0xFFFF,
                0x10..=0x3F => enc(h),
                _ => enc(p),
            };
        }
        v.push((format!("header {h:#06x}, pixels {p:#06x}"), e));
    }
    v
}

pub fn run(ctx: &Ctx) {
    let q = !ctx.thorough;
    let step = if q { 16 } else { 1 };
    ctx.bound(format!("both models: every buffer length 0..=1800 and some up to 1 MiB with 15 contents, each also at another alignment; 15 extreme contents x every header word x {} word values (MLX90641: all 2048 data values of every word and raw values); all pairs of header words x 6x6 extreme values; all pixel words equal, for all 65536 values; from a buffer and (rotating) with a new driver", 65536 / step));
    ctx.assume("the crate is compiled with overflow checks, so that an arithmetic overflow is a panic");
    let done = |n: u64| {
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    };
    for m in Model::BOTH {
        let bg = backgrounds(m);
        // Lengths.
        par(ctx, bg.len() * 8, |j| {
            let (name, e) = &bg[j / 8];
            let b = bytes(e);
            let full = match decode(m, &b) {
                Ok(f) => f,
                Err(x) => return ctx.fail(format!("{} EEPROM, {name}: {x}", m.name())),
            };
            let whole = guard(|| match m {
                Model::M640 => (Mlx90640Calibration::from_data(&b).ok(), None),
                Model::M641 => (None, Mlx90641Calibration::from_data(&b).ok()),
            });
            let mut n = 0;
            let mut lens: Vec<usize> = (j % 8..=1800).step_by(8).collect();
            if j % 8 == 0 {
                lens.extend([1664, 2048, 4096, 32767, 32768, 65535, 65536, 65537, 65536 + 1000, 65536 + 1663, 65536 + 1664, 65536 + 2000, 131072, 131073, 131072 + 1663, 1 << 20]);
            }
            for len in lens {
                for fill in [0xFFu8, 0] {
                    let mut d = b.clone();
                    d.resize(len, fill);
                    let what = || format!("{} EEPROM, {name}, cut or extended to {len} bytes", m.name());
                    let r = guard(|| match m {
                        Model::M640 => (Mlx90640Calibration::from_data(&d).ok(), None),
                        Model::M641 => (None, Mlx90641Calibration::from_data(&d).ok()),
                    });
                    n += 1;
                    // The same bytes, starting at an odd address.
                    let mut moved = vec![0x5A; 1 + len % 7];
                    moved.extend(&d);
                    let there = guard(|| match m {
                        Model::M640 => (Mlx90640Calibration::from_data(&moved[1 + len % 7..]).ok(), None),
                        Model::M641 => (None, Mlx90641Calibration::from_data(&moved[1 + len % 7..]).ok()),
                    });
                    if there != r {
                        return ctx.fail(format!("{}: starting at byte {} of a larger buffer: another result", what(), 1 + len % 7));
                    }
                    match r {
                        Err(x) => return ctx.fail(format!("{}: {x}", what())),
                        Ok((None, None)) if len < LEN || !full => {}
                        Ok((None, None)) => return ctx.fail(format!("{}: rejected", what())),
                        Ok(_) if len < LEN => return ctx.fail(format!("{}: accepted", what())),
                        Ok(c) => {
                            if whole.as_ref() != Ok(&c) {
                                return ctx.fail(format!("{}: the calibration depends on bytes beyond the EEPROM", what()));
                            }
                        }
                    }
                }
            }
            done(n);
        });
        // Header words.
        par(ctx, bg.len() * 48, |j| {
            let (name, e) = &bg[j / 48];
            let i = 0x10 + j % 48;
            let mut w = e.clone();
            let mut b = bytes(e);
            let mut n = 0;
            let mut go = |v: u16| {
                w[i] = v;
                b[2 * i..2 * i + 2].copy_from_slice(&v.to_be_bytes());
                n += 1;
                let what = || format!("{} EEPROM, {name}, word {:#06x} = {v:#06x}", m.name(), 0x2400 + i);
                let ok = match decode(m, &b) {
                    Ok(x) => x,
                    Err(x) => {
                        ctx.fail(format!("{}: {x}", what()));
                        return false;
                    }
                };
                if n % 8 == 0 {
                    match driver(m, &w) {
                        Ok(r) if r.is_ok() == ok => {}
                        Ok(r) => {
                            ctx.fail(format!("{}: from a buffer {ok}, but a driver: {r:?}", what()));
                            return false;
                        }
                        Err(x) => {
                            ctx.fail(format!("{}: new driver: {x}", what()));
                            return false;
                        }
                    }
                }
                true
            };
            for v in ((j / 48 + j) % step..65536).step_by(step) {
                if !go(v as u16) {
                    return;
                }
            }
            if m == Model::M641 {
                for d in 0..2048u16 {
                    if !go(ham(d)) {
                        return;
                    }
                }
            }
            done(n);
        });
        // MLX90641: pixel words one at a time.
        if m == Model::M641 {
            par(ctx, 768, |j| {
                let i = 0x40 + j;
                let mut n = 0;
                for (name, e) in bg.iter().skip(j % 3).step_by(if q { 3 } else { 1 }) {
                    let mut b = bytes(e);
                    for d in (j % 16..2048).step_by(if q { 16 } else { 1 }) {
                        b[2 * i..2 * i + 2].copy_from_slice(&ham(d as u16).to_be_bytes());
                        if let Err(x) = decode(m, &b) {
                            return ctx.fail(format!("{} EEPROM, {name}, data of word {:#06x} = {d:#05x}: {x}", m.name(), 0x2400 + i));
                        }
                        n += 1;
                    }
                }
                done(n);
            });
        }
        // All pixel words equal.
        par(ctx, bg.len() * 4, |j| {
            let (name, e) = &bg[j / 4];
            let mut b = bytes(e);
            let mut n = 0;
            let all: Vec<u16> = if m == Model::M641 {
                (0..2048u16).map(ham).collect()
            } else {
                (0..=65535u16).skip(j % step).step_by(step).collect()
            };
            for v in all.into_iter().skip(j % 4).step_by(4) {
                for i in 0x40..832 {
                    b[2 * i..2 * i + 2].copy_from_slice(&v.to_be_bytes());
                }
                if let Err(x) = decode(m, &b) {
                    return ctx.fail(format!("{} EEPROM, {name}, all pixel words {v:#06x}: {x}", m.name()));
                }
                n += 1;
            }
            done(n);
        });
        // Pairs of header words.
        let vals = [0u16, 0xFFFF, 0x8000, 0x7FFF, 0x0400, 0x03FF].map(|v| if m == Model::M641 { ham(v & 0x7FF) } else { v });
        par(ctx, 48 * 48, |j| {
            let (x, y) = (0x10 + j / 48, 0x10 + j % 48);
            if x >= y {
                return;
            }
            let mut n = 0;
            for (k, (name, e)) in bg.iter().enumerate() {
                if q && k % 3 != j % 3 {
                    continue;
                }
                let mut b = bytes(e);
                for u in vals {
                    for v in vals {
                        b[2 * x..2 * x + 2].copy_from_slice(&u.to_be_bytes());
                        b[2 * y..2 * y + 2].copy_from_slice(&v.to_be_bytes());
                        if let Err(s) = decode(m, &b) {
                            return ctx.fail(format!(
                                "{} EEPROM, {name}, words {:#06x} = {u:#06x}, {:#06x} = {v:#06x}: {s}",
                                m.name(),
                                0x2400 + x,
                                0x2400 + y
                            ));
                        }
                        n += 1;
                    }
                }
            }
            done(n);
        });
    }
    ctx.sample("MLX90640 EEPROM of 1663 bytes: an error; of 1664 to 1800 bytes: the calibration of the first 1664");
    ctx.sample("MLX90641 EEPROM with all data 0x3FF and word 0x2410 = every raw value");
}
