//! C06: MLX90641 calibration data is decoded exactly as the datasheet defines.
use crate::ctx::{guard, par, Ctx};
use crate::refdec::{diff, ref641};
use crate::util::*;
use mlx9064x::mlx90641::Mlx90641Calibration;
use mlx9064x::LibraryError;

/// Compare the decoding of one EEPROM (given as data bits) with the reference.
pub fn one(b: &[u8], e: &[u16], pixels: bool) -> Result<(), String> {
    let got = guard(|| Mlx90641Calibration::from_data(b))?;
    let r = ref641(e, pixels || got.is_err());
    match got {
        Err(x) => {
            if r.representable() {
                Err(format!("rejected with {x:?}"))
            } else if !matches!(x, LibraryError::InvalidData(_)) {
                Err(format!("rejected with {x:?} instead of invalid data"))
            } else {
                Ok(())
            }
        }
        Ok(c) => {
            if !r.representable() {
                return Err("decoded although an offset can not be represented".into());
            }
            diff(&r, &c)
        }
    }
}

/// Data words of the backgrounds.
pub fn backgrounds() -> Vec<(&'static str, Vec<u16>)> {
    let strip = |v: Vec<u16>| v.iter().map(|w| w & 0x7FF).collect::<Vec<u16>>();
    let rich = strip(ee641_rich());
    let mut scaled = rich.clone();
    scaled[0x10] = 3 << 5 | 9;
    scaled[0x11] = 0x7F0;
    scaled[0x12] = 0x1B;
    scaled[0x15] = 0x6AB;
    scaled[0x16] = 21 << 5 | 7;
    scaled[0x17] = 0x155;
    scaled[0x18] = 9 << 5 | 3;
    for i in 0x19..0x1C {
        scaled[i] = (7 * i as u16 & 0x3F) << 5 | (11 * i as u16 & 0x1F);
    }
    let mut neg: Vec<u16> = rich.iter().map(|w| !*w & 0x7FF).collect();
    neg[0x10] = 0;
    neg[0x11] = 0x40;
    for i in [0x12, 0x25, 0x29, 0x30] {
        neg[i] = 0x15;
    }
    let mut wide = rich.clone();
    wide[0x10] = 0;
    wide[0x11] = 0x800 - 0x123;
    wide[0x34] = 19;
    vec![("rich", rich), ("datasheet", strip(ee641_datasheet())), ("scaled", scaled), ("negated", neg), ("wide", wide)]
}
/// The lower halves of combined words have five bits.
pub fn valid(i: usize, v: u16) -> bool {
    ![0x12, 0x25, 0x29, 0x30].contains(&i) || v < 32
}

fn set(b: &mut [u8], e: &mut [u16], i: usize, v: u16) {
    e[i] = v & 0x7FF;
    b[2 * i..2 * i + 2].copy_from_slice(&ham(v & 0x7FF).to_be_bytes());
}
pub fn encode(e: &[u16]) -> Vec<u8> {
    bytes(&e.iter().map(|w| ham(*w)).collect::<Vec<_>>())
}
/// Rotate all pixel words, every one of the four arrays differently.
fn rotate(b: &mut [u8], e: &mut [u16], f: u16) {
    for p in 0..192u16 {
        let i = p as usize;
        set(b, e, 0x40 + i, f.wrapping_add(p.wrapping_mul(1237)));
        set(b, e, 0x100 + i, f.wrapping_mul(3).wrapping_add(p.wrapping_mul(787)));
        set(b, e, 0x1C0 + i, f.wrapping_mul(5).wrapping_add(p.wrapping_mul(331)));
        set(b, e, 0x280 + i, f.wrapping_mul(7).wrapping_add(p.wrapping_mul(1531)));
    }
}

pub fn run(ctx: &Ctx) {
    let q = !ctx.thorough;
    ctx.bound(format!("(A) each of the words 0x2410..0x243F takes all 2048 data values on each of 5 backgrounds; (B) every pixel word of all four arrays takes all 2048 data values on every background and with each of the 64 offset scales and all K_V/K_Ta scale words ({}); (C) all pairs of header words x 9x9 boundary values; (C2) all ordered pairs of header words, one with every value of its upper six and of its lower five bits, the other with 9 boundary values; (D) every single EEPROM word from 0x2440 on takes {} data values alone; (E) the words before 0x2410 take all 65536 values; (F) pixel data in which every three neighbours (in a row, and in a column) out of two sets of 8 pixels occur at every position, {} in which any of the four words of a pixel are zero, and all words of an array (and of the whole EEPROM) the same, for all 2048 values; (G) every per-pixel sequence of {} calibrations stepped through with next, nth, step_by, last, count and internal iteration from {} positions", if q { "every 8th in the quick tier" } else { "all" }, if q { 32 } else { 2048 }, if q { "every pixel, pair, row and about 500 other runs of pixels" } else { "every run of pixels" }, if q { 2 } else { 5 }, if q { "about 30" } else { "all" }));
    ctx.assume("the lower half of a two-word value has five bits, as the datasheet's map shows; other contents are not explored");
    ctx.assume("the reference decoder is written from the datasheet's EEPROM map; values of pixels marked as failed are not compared");
    let bg = backgrounds();
    assert!(bg.iter().all(|(_, e)| ref641(e, true).representable()));
    let done = |n: u64| {
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    };
    // (A) and (E)
    par(ctx, bg.len() * 0x40, |j| {
        let (k, i) = (j / 0x40, j % 0x40);
        let mut e = bg[k].1.clone();
        let mut d = encode(&e);
        let mut n = 0;
        if i < 0x10 {
            for v in (0..=65535u16).step_by(if q { 16 } else { 1 }) {
                d[2 * i..2 * i + 2].copy_from_slice(&v.to_be_bytes());
                if let Err(x) = one(&d, &e, false) {
                    return ctx.fail(format!("{} EEPROM with word {:#06x} = {v:#06x}: {x}", bg[k].0, 0x2400 + i));
                }
                n += 1;
            }
            return done(n);
        }
        for v in 0..2048 {
            if !valid(i, v) {
                continue;
            }
            set(&mut d, &mut e, i, v);
            if let Err(x) = one(&d, &e, true) {
                return ctx.fail(format!("{} EEPROM with the data of word {:#06x} = {v:#05x}: {x}", bg[k].0, 0x2400 + i));
            }
            n += 1;
        }
        done(n);
    });
    // (B)
    par(ctx, bg.len() * 8, |j| {
        let k = j / 8;
        let mut e = bg[k].1.clone();
        let mut d = encode(&e);
        let mut n = 0;
        for f in (j as u16 % 8) * 256..(j as u16 % 8 + 1) * 256 {
            rotate(&mut d, &mut e, f);
            if let Err(x) = one(&d, &e, true) {
                return ctx.fail(format!("{} EEPROM, rotated pixels {f:#05x}: {x}", bg[k].0));
            }
            n += 1;
        }
        done(n);
    });
    par(ctx, 3 * 256, |j| {
        let (i, c) = ([0x10, 0x16, 0x18][j / 256], j % 256);
        let mut e = bg[j % bg.len()].1.clone();
        let mut d = encode(&e);
        let mut n = 0;
        for v in (c * 8..(c + 1) * 8).step_by(if q { 8 } else { 1 }) {
            let v = (v + c % 8 * q as usize) as u16;
            set(&mut d, &mut e, i, v);
            for f in 0..64 {
                // Small offsets for most of the run, as most scales make large ones invalid.
                rotate(&mut d, &mut e, f * 32 + (v & 31));
                if i == 0x10 && f < 60 {
                    let lim = 15u16.saturating_sub(v >> 5).max(1);
                    for p in 0..192u16 {
                        let o = (f + p) % (2 * lim) + 0x800 - lim;
                        set(&mut d, &mut e, 0x40 + p as usize, o);
                        set(&mut d, &mut e, 0x280 + p as usize, o + (p & 1));
                    }
                }
                if let Err(x) = one(&d, &e, true) {
                    return ctx.fail(format!("EEPROM with the data of word {:#06x} = {v:#05x}, pixels {f}: {x}", 0x2400 + i));
                }
                n += 1;
            }
        }
        done(n);
    });
    // (C)
    let vals = [0u16, 1, 0x7FF, 0x3FF, 0x400, 0x01F, 0x7E0, 0x2AA, 0x555];
    par(ctx, 48 * 48, |j| {
        let (a, b) = (0x10 + j / 48, 0x10 + j % 48);
        if a >= b {
            return;
        }
        let mut n = 0;
        for (name, base) in bg.iter().take(if q { 2 } else { 5 }) {
            let mut e = base.clone();
            let mut d = encode(&e);
            for x in 0..81 {
                let (u, v) = (vals[x / 9], vals[x % 9]);
                if !valid(a, u) || !valid(b, v) {
                    continue;
                }
                set(&mut d, &mut e, a, u);
                set(&mut d, &mut e, b, v);
                if let Err(s) = one(&d, &e, true) {
                    return ctx.fail(format!(
                        "{name} EEPROM with the data of words {:#06x} = {u:#05x}, {:#06x} = {v:#05x}: {s}",
                        0x2400 + a,
                        0x2400 + b
                    ));
                }
                n += 1;
            }
        }
        done(n);
    });
    // (C2)
    par(ctx, 48 * 48, |j| {
        let (a, b) = (0x10 + j / 48, 0x10 + j % 48);
        if a == b {
            return;
        }
        let mut n = 0;
        for (name, base) in bg.iter().take(if q { 1 } else { 5 }) {
            let mut e = base.clone();
            let mut d = encode(&e);
            for x in 0..96u16 {
                let u = if x < 32 { base[a] & 0x7E0 | x } else { base[a] & 0x1F | (x - 32) << 5 };
                if !valid(a, u) {
                    continue;
                }
                set(&mut d, &mut e, a, u);
                for (k, v) in vals.iter().enumerate().filter(|v| valid(b, *v.1)) {
                    set(&mut d, &mut e, b, *v);
                    if let Err(s) = one(&d, &e, !q || (x as usize + k + j) % 4 == 0) {
                        return ctx.fail(format!(
                            "{name} EEPROM with the data of words {:#06x} = {u:#05x}, {:#06x} = {v:#05x}: {s}",
                            0x2400 + a,
                            0x2400 + b
                        ));
                    }
                    n += 1;
                }
            }
        }
        done(n);
    });
    // (D)
    par(ctx, 768, |j| {
        let mut e = bg[0].1.clone();
        let mut d = encode(&e);
        let i = 0x40 + j;
        let mut n = 0;
        for v in (0..2048u16).step_by(if q { 64 } else { 1 }) {
            let v = (v + (j as u16 * 7) % 64 * q as u16) & 0x7FF;
            set(&mut d, &mut e, i, v);
            if let Err(x) = one(&d, &e, true) {
                return ctx.fail(format!("rich EEPROM with the data of word {:#06x} = {v:#05x}: {x}", 0x2400 + i));
            }
            n += 1;
        }
        done(n);
    });
    // (F) neighbouring pixels: offset 0, sensitivity, constants, offset 1.
    let letters: [[[u16; 4]; 8]; 2] = [
        [[0; 4], [0, 0, 0x461, 0], [0, 0, 0, 3], [5, 0x400, 0x7FF, 6], [0x7FD, 0x123, 0, 9], [4, 0, 0x3F, 4], [0, 1, 0, 0], [0x7FF; 4]],
        [[0; 4], [1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0x20, 0], [2, 0x7FF, 0x20, 2], [2, 0x7FF, 1, 0], [0, 0x2AA, 0x555, 0x7FE], [1; 4]],
    ];
    let base = [0x40, 0x100, 0x1C0, 0x280];
    let order = de_bruijn3(8);
    par(ctx, bg.len() * 4 * 512, |j| {
        let (k, s, across, shift) = (j / 2048, j / 1024 % 2, j / 512 % 2 == 0, j % 512);
        let mut e = bg[k].1.clone();
        for p in 0..192 {
            let i = if across { p } else { p % 16 * 12 + p / 16 };
            for (b, v) in base.iter().zip(letters[s][order[(i + shift) % 512]]) {
                e[b + p] = v;
            }
        }
        if let Err(x) = one(&encode(&e), &e, true) {
            return ctx.fail(format!("{} EEPROM with every three neighbouring pixels of {:?}, shifted by {shift}: {x}", bg[k].0, letters[s]));
        }
        done(1);
    });
    let areas = runs(16, 192, !q);
    par(ctx, areas.len(), |j| {
        let (a, b) = areas[j];
        let mut n = 0;
        // Which of the four words of a pixel are zero.
        for mask in 1..16 {
            for invert in [false, true] {
                if q && (mask + j) % 3 != 0 && mask != 15 {
                    continue;
                }
                let mut e = bg[(j + mask) % bg.len()].1.clone();
                for p in 0..192 {
                    if (a <= p && p < b) != invert {
                        for (i, b) in base.iter().enumerate() {
                            if mask >> i & 1 == 1 {
                                e[b + p] = 0;
                            }
                        }
                    }
                }
                if let Err(x) = one(&encode(&e), &e, true) {
                    return ctx.fail(format!("{} EEPROM, words (mask {mask:#06b}) of pixels {a}..{b} (the others: {invert}) are zero: {x}", bg[(j + mask) % bg.len()].0));
                }
                n += 1;
            }
        }
        done(n);
    });
    par(ctx, 256, |j| {
        for v in j * 8..(j + 1) * 8 {
            let mut e = bg[v % bg.len()].1.clone();
            for (i, b) in base.iter().enumerate() {
                // Some offsets have to be small to be representable.
                e[*b..b + 192].fill(if v % 2 == 0 && i % 3 == 0 { v as u16 & 7 } else { v as u16 });
            }
            if let Err(x) = one(&encode(&e), &e, true) {
                return ctx.fail(format!("{} EEPROM, all words of each of the per-pixel arrays are the same ({v:#05x}): {x}", bg[v % bg.len()].0));
            }
            for i in 0x10..0x340 {
                e[i] = if valid(i, v as u16) { v as u16 } else { v as u16 & 31 };
            }
            if let Err(x) = one(&encode(&e), &e, true) {
                return ctx.fail(format!("EEPROM with all words {v:#05x}: {x}"));
            }
        }
        done(16);
    });
    // Stepping through the per-pixel sequences in other ways than one by one.
    let used = if q { 2 } else { bg.len() };
    par(ctx, used, |j| {
        let (name, e) = &bg[j];
        match guard(|| Mlx90641Calibration::from_data(&encode(e)).map(|c| crate::cal::sequences(&c, 192, !q))) {
            Ok(Ok(Ok(n))) => {
                ctx.st(10);
                ctx.tr(n);
                ctx.tv(10);
            }
            x => ctx.fail(format!("{name} EEPROM: {x:?}")),
        }
    });
    // The same content over the bus, and with trailing bytes.
    for (name, e) in &bg {
        let b = encode(e);
        let mut long = b.clone();
        long.extend([0xFF; 37]);
        // Wherever the data lies in memory.
        let here = guard(|| {
            let want = Mlx90641Calibration::from_data(&b).map_err(|_| ());
            let off = |o: usize| {
                let mut moved = vec![0xA5; o];
                moved.extend(&b);
                Mlx90641Calibration::from_data(&moved[o..]).map_err(|_| ()) == want
            };
            (0..32).find(|o| !off(*o))
        });
        ctx.check(here == Ok(None), || format!("{name} EEPROM: starting at byte {here:?} of a larger buffer changes the calibration"));
        let words: Vec<u16> = e.iter().map(|w| ham(*w)).collect();
        let w = crate::dev::World::new(dev(crate::dev::Model::M641, &std::sync::Arc::new(words)));
        crate::dev::install(w);
        let x = guard(|| {
            use mlx9064x::common::FromI2C;
            let bus = Mlx90641Calibration::from_i2c(&mut crate::dev::Bus, 0x33).map_err(|_| ());
            let m = |r: Result<_, LibraryError>| r.map_err(|_| ());
            (m(Mlx90641Calibration::from_data(&b)), m(Mlx90641Calibration::from_data(&long)), bus)
        });
        crate::dev::take();
        match x {
            Ok((a, b, c)) => {
                ctx.check(a == b, || format!("{name} EEPROM: trailing bytes change the calibration"));
                ctx.check(a == c, || format!("{name} EEPROM: the calibration read from the bus differs"));
            }
            Err(x) => ctx.fail(format!("{name} EEPROM: {x}")),
        }
    }
    ctx.sample("rich EEPROM with the data of word 0x2410 = 0..2047, compared with ref641 (section 11.1 of the datasheet)");
}
