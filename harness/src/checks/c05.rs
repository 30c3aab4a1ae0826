//! C05: MLX90640 calibration data is decoded exactly as the datasheet defines.
use crate::ctx::{guard, par, Ctx};
use crate::refdec::{diff, ref640};
use crate::util::*;
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::LibraryError;

/// Compare the decoding of one EEPROM with the reference.
pub fn one(b: &[u8], e: &[u16]) -> Result<(), String> {
    part(b, e, true)
}
fn part(b: &[u8], e: &[u16], pixels: bool) -> Result<(), String> {
    let got = guard(|| Mlx90640Calibration::from_data(b))?;
    let r = ref640(e, pixels || got.is_err());
    match got {
        Err(x) => {
            if r.representable_failed() {
                Err(format!("rejected with {x:?}"))
            } else if !matches!(x, LibraryError::InvalidData(_)) {
                Err(format!("rejected with {x:?} instead of invalid data"))
            } else {
                Ok(())
            }
        }
        Ok(c) => {
            if !r.representable() {
                return Err("decoded although an offset can not be represented".into());
            }
            diff(&r, &c)
        }
    }
}

pub fn backgrounds() -> Vec<(&'static str, Vec<u16>)> {
    let rich = ee640_rich();
    let mut scales = rich.clone();
    // Every scale at its upper end, averages small enough for offsets to be representable.
    scales[0x10] = 0xB999;
    scales[0x11] = 0x0123;
    scales[0x20] = 0xFFFF;
    scales[0x38] = 0x3FFF;
    scales[0x3F] = 0x3FFF;
    let mut neg: Vec<u16> = rich.iter().enumerate().map(|(i, w)| if i < 0x10 { *w } else { !*w }).collect();
    neg[0x10] = 0x4765;
    neg[0x11] = 0xFE00;
    let mut low = vec![0u16; 832];
    for (i, w) in low.iter_mut().enumerate() {
        *w = 0x1111u16.wrapping_mul(1 + (i % 14) as u16);
    }
    low[0x10] = 0;
    low[0x11] = 0x8100;
    vec![
        ("rich", rich),
        ("datasheet", ee640_datasheet()),
        ("large scales", scales),
        ("negated", neg),
        ("low scales", low),
        ("example", ee640_example()),
    ]
}

fn set(b: &mut [u8], e: &mut [u16], i: usize, v: u16) {
    e[i] = v;
    b[2 * i..2 * i + 2].copy_from_slice(&v.to_be_bytes());
}

pub fn run(ctx: &Ctx) {
    let q = !ctx.thorough;
    ctx.bound(format!("(A) each of the words 0x2400..0x243F takes all 65536 values on {} of 6 backgrounds (every 64th value on the others in the quick tier, where the pixels are compared for an eighth of the values); (B) every pixel word takes all 65536 values on every background (every 8th on four of them in the quick tier), neighbours different; (C) all pairs of header words x 8x8 boundary values; (C2) all ordered pairs of header words, one with every value of every of its nibbles, the other with 8 boundary values; (C3) every value of every nibble of every header word x {} contents of all pixel words; (D) one pixel word at a time with all 65536 values for 6 pixels; (E) pixel words in which every three neighbours (in a row, and in a column) out of two sets of 8 words occur at every position, {} with one of 5 words in all pixels, every two rows or columns of failed pixels, and all pixel words (and the whole EEPROM) the same, for all 65536 words; (F) every per-pixel sequence of {} calibrations stepped through with next, nth, step_by, last, count and internal iteration from {} positions", if q { "1" } else { "6" }, if q { 16 } else { 64 }, if q { "every pixel, pair, row and about 2000 other runs of pixels" } else { "every run of pixels" }, if q { 2 } else { 6 }, if q { "about 60" } else { "all" }));
    ctx.assume("the reference decoder is written from the datasheet's EEPROM map; values of pixels marked as failed are not compared");
    let bg = backgrounds();
    assert!(bg.iter().all(|(_, e)| ref640(e, true).representable()));
    // (A)
    let jobs: Vec<(usize, usize)> = (0..bg.len()).flat_map(|b| (0..0x40).map(move |i| (b, i))).collect();
    par(ctx, jobs.len(), |j| {
        let (b, i) = jobs[j];
        let mut e = bg[b].1.clone();
        let mut d = bytes(&e);
        let step = if !q || b == 0 && i >= 0x10 { 1 } else { 64 };
        let mut n = 0;
        let mut v = i % step;
        while v < 65536 {
            set(&mut d, &mut e, i, v as u16);
            let pixels = !q || v % 0x1111 == 0 || mix(v as u64) % 8 == 0;
            if let Err(x) = part(&d, &e, pixels) {
                return ctx.fail(format!("{} EEPROM with word {:#06x} = {v:#06x}: {x}", bg[b].0, 0x2400 + i));
            }
            n += 1;
            v += step;
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    });
    // (B)
    par(ctx, bg.len() * 16, |j| {
        let mut e = bg[j / 16].1.clone();
        let mut d = bytes(&e);
        let step = if q && j >= 32 { 8 } else { 1 };
        for f in ((j % 16) * 4096 + j % step..(j % 16 + 1) * 4096).step_by(step) {
            for p in 0..768u16 {
                set(&mut d, &mut e, 0x40 + p as usize, (f as u16).wrapping_add(p.wrapping_mul(40503)));
            }
            if let Err(x) = one(&d, &e) {
                return ctx.fail(format!("{} EEPROM, pixel words {f:#06x} + 40503 * pixel: {x}", bg[j / 16].0));
            }
        }
        let n = (4096 / step) as u64;
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    });
    // (C)
    let vals = [0u16, 1, 0xFFFF, 0x7FFF, 0x8000, 0x0FF0, 0xF00F, 0x5A5A];
    par(ctx, 48 * 48, |j| {
        let (a, b) = (0x10 + j / 48, 0x10 + j % 48);
        if a >= b {
            return;
        }
        let mut n = 0;
        for (k, (name, base)) in bg.iter().enumerate().take(if q { 2 } else { 6 }) {
            let _ = k;
            let mut e = base.clone();
            let mut d = bytes(&e);
            for x in 0..64 {
                set(&mut d, &mut e, a, vals[x / 8]);
                set(&mut d, &mut e, b, vals[x % 8]);
                if let Err(s) = one(&d, &e) {
                    return ctx.fail(format!(
                        "{name} EEPROM with words {:#06x} = {:#06x}, {:#06x} = {:#06x}: {s}",
                        0x2400 + a, vals[x / 8], 0x2400 + b, vals[x % 8]
                    ));
                }
                n += 1;
            }
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    });
    // (C2), (C3): a field's value may matter only together with another word.
    par(ctx, 48 * 49, |j| {
        let (a, b) = (0x10 + j / 49, 0x10 + j % 49);
        if a == b {
            return;
        }
        let mut n = 0;
        for (name, base) in bg.iter().take(if q { 1 } else { 6 }) {
            let mut e = base.clone();
            let mut d = bytes(&e);
            for x in 0..64usize {
                let sh = x / 16 * 4;
                let u = base[a] & !(0xF << sh) | ((x % 16) as u16) << sh;
                set(&mut d, &mut e, a, u);
                if b == 0x40 {
                    for f in 0..if q { 16 } else { 64u16 } {
                        for p in 0..768u16 {
                            set(&mut d, &mut e, 0x40 + p as usize, f.wrapping_mul(1031).wrapping_add(p.wrapping_mul(40503)));
                        }
                        if let Err(s) = one(&d, &e) {
                            return ctx.fail(format!("{name} EEPROM with word {:#06x} = {u:#06x}, pixel words {f} * 1031 + 40503 * pixel: {s}", 0x2400 + a));
                        }
                        n += 1;
                    }
                    continue;
                }
                for (k, v) in vals.iter().enumerate() {
                    set(&mut d, &mut e, b, *v);
                    if let Err(s) = part(&d, &e, !q || (x + k + j) % 4 == 0) {
                        return ctx.fail(format!("{name} EEPROM with words {:#06x} = {u:#06x}, {:#06x} = {v:#06x}: {s}", 0x2400 + a, 0x2400 + b));
                    }
                    n += 1;
                }
            }
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    });
    // (D)
    let px = [0usize, 31, 32, 401, 736, 767];
    par(ctx, px.len() * 8, |j| {
        let p = px[j / 8];
        let mut e = bg[0].1.clone();
        let mut d = bytes(&e);
        for v in (j % 8) * 8192..(j % 8 + 1) * 8192 {
            set(&mut d, &mut e, 0x40 + p, v as u16);
            if let Err(x) = one(&d, &e) {
                return ctx.fail(format!("rich EEPROM with the word of pixel {p} = {v:#06x}: {x}"));
            }
        }
        ctx.st(8192);
        ctx.tr(8192);
        ctx.tv(8192);
    });
    // (E) neighbouring pixels.
    let letters = [
        [0u16, 1, 0x0410, 0x8421, 0xFFFE, 0xFFFF, 0x0002, 0x03F0],
        [0, 0x000E, 0x0100, 0xFF00, 0x00FF, 0x8000, 0x1234, 1],
    ];
    let order = de_bruijn3(8);
    let used = if q { 2 } else { bg.len() };
    par(ctx, used * 4 * 512, |j| {
        let (k, set_, across, shift) = (j / 2048, j / 1024 % 2, j / 512 % 2 == 0, j % 512);
        let mut e = bg[k].1.clone();
        for p in 0..768 {
            let i = if across { p } else { p % 32 * 24 + p / 32 };
            e[0x40 + p] = letters[set_][order[(i + shift) % 512]];
        }
        if let Err(x) = one(&bytes(&e), &e) {
            return ctx.fail(format!("{} EEPROM with every three neighbouring pixel words of {:#06x?}, shifted by {shift}: {x}", bg[k].0, letters[set_]));
        }
        ctx.st(1);
        ctx.tr(1);
        ctx.tv(1);
    });
    let fills = [0u16, 1, 0xFFFF, 0x0412, 0x8000];
    let areas = runs(32, 768, !q);
    par(ctx, areas.len(), |j| {
        let (a, b) = areas[j];
        for (k, fill) in fills.iter().enumerate() {
            for invert in [false, true] {
                let mut e = bg[(j + k) % used].1.clone();
                for p in 0..768 {
                    if (a <= p && p < b) != invert {
                        e[0x40 + p] = *fill;
                    }
                }
                if let Err(x) = one(&bytes(&e), &e) {
                    return ctx.fail(format!("{} EEPROM, the words of pixels {a}..{b} (the others: {invert}) are {fill:#06x}: {x}", bg[(j + k) % used].0));
                }
            }
        }
        ctx.st(10);
        ctx.tr(10);
        ctx.tv(10);
    });
    par(ctx, 33 * 25, |j| {
        // Every pair of columns (or rows) that failed.
        for rows in [false, true] {
            let (x, y) = (j / 25, j % 25);
            let mut e = bg[j % used].1.clone();
            for p in 0..768 {
                let l = if rows { p / 32 } else { p % 32 };
                if l == x || l == y {
                    e[0x40 + p] = 0;
                }
            }
            if let Err(s) = one(&bytes(&e), &e) {
                return ctx.fail(format!("{} EEPROM, all pixels of two columns (rows: {rows}), {x} and {y}, failed: {s}", bg[j % used].0));
            }
        }
        ctx.st(2);
        ctx.tr(2);
        ctx.tv(2);
    });
    par(ctx, 256, |j| {
        for v in j * 256..(j + 1) * 256 {
            let mut e = bg[v % used].1.clone();
            e[0x40..].fill(v as u16);
            if let Err(x) = one(&bytes(&e), &e) {
                return ctx.fail(format!("{} EEPROM, all pixel words are {v:#06x}: {x}", bg[v % used].0));
            }
            e[if v % 2 == 0 { 0 } else { 0x10 }..].fill(v as u16);
            if let Err(x) = one(&bytes(&e), &e) {
                return ctx.fail(format!("EEPROM with all words {v:#06x}: {x}"));
            }
        }
        ctx.st(512);
        ctx.tr(512);
        ctx.tv(512);
    });
    // Stepping through the per-pixel sequences in other ways than one by one.
    let used = if q { 2 } else { bg.len() };
    par(ctx, used, |j| {
        let (name, e) = &bg[j];
        match guard(|| Mlx90640Calibration::from_data(&bytes(e)).map(|c| crate::cal::sequences(&c, 768, !q))) {
            Ok(Ok(Ok(n))) => {
                ctx.st(10);
                ctx.tr(n);
                ctx.tv(10);
            }
            x => ctx.fail(format!("{name} EEPROM: {x:?}")),
        }
    });
    // The same content over the bus, and with trailing bytes.
    for (name, e) in &bg {
        let b = bytes(e);
        let mut long = b.clone();
        long.extend([0xFF; 37]);
        // Wherever the data lies in memory.
        let here = guard(|| {
            let want = Mlx90640Calibration::from_data(&b).map_err(|_| ());
            let off = |o: usize| {
                let mut moved = vec![0xA5; o];
                moved.extend(&b);
                Mlx90640Calibration::from_data(&moved[o..]).map_err(|_| ()) == want
            };
            (0..32).find(|o| !off(*o))
        });
        ctx.check(here == Ok(None), || format!("{name} EEPROM: starting at byte {here:?} of a larger buffer changes the calibration"));
        let w = crate::dev::World::new(dev(crate::dev::Model::M640, &std::sync::Arc::new(e.clone())));
        crate::dev::install(w);
        let x = guard(|| {
            let m = |r: Result<_, _>| r.map_err(|_: mlx9064x::LibraryError| ());
            use mlx9064x::common::FromI2C;
            let bus = Mlx90640Calibration::from_i2c(&mut crate::dev::Bus, 0x33).map_err(|_| ());
            (m(Mlx90640Calibration::from_data(&b)), m(Mlx90640Calibration::from_data(&long)), bus)
        });
        crate::dev::take();
        match x {
            Ok((a, b, c)) => {
                ctx.check(a == b, || format!("{name} EEPROM: trailing bytes change the calibration"));
                ctx.check(a == c, || format!("{name} EEPROM: the calibration read from the bus differs"));
            }
            Err(x) => ctx.fail(format!("{name} EEPROM: {x}")),
        }
    }
    ctx.sample("rich EEPROM with word 0x2410 = 0x0000..0xFFFF, compared with ref640 (section 11.1 of the datasheet)");
    ctx.sample("all pixel words f + 40503 * pixel for f in 0..65536 on 6 backgrounds");
}
