//! C21: failed and outlier pixels are flagged exactly.
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::util::*;
use mlx9064x::common::{CalibrationData, FlaggedPixels, FromI2C};
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::mlx90641::Mlx90641Calibration;

/// The flags and, per pixel, everything that is calibrated.
struct Got {
    failed: Vec<usize>,
    outlier: Vec<usize>,
    any: (bool, bool),
    px: Vec<[u32; 10]>,
    /// Some values that are not per pixel.
    other: Vec<u32>,
}

fn read<C>(c: &C, n: usize) -> Got
where
    C: for<'a> CalibrationData<'a>,
{
    let mut px = vec![[0u32; 10]; n];
    let mut put = |k: usize, it: &mut dyn Iterator<Item = u32>| {
        for (p, v) in it.enumerate() {
            if p < n {
                px[p][k] = v;
            }
        }
    };
    for s in 0..2u8 {
        let k = 5 * s as usize;
        put(k, &mut c.offset_reference_pixels(sp(s)).map(|x| *x as u32));
        put(k + 1, &mut c.alpha_pixels(sp(s)).map(|x| x.to_bits()));
        put(k + 2, &mut c.k_v_pixels(sp(s)).map(|x| x.to_bits()));
        put(k + 3, &mut c.k_ta_pixels(sp(s)).map(|x| x.to_bits()));
        put(k + 4, &mut c.access_pattern_compensation_pixels(pat(s)).map(|x| x.map_or(0x7FFF_FFFF, |x| x.to_bits())));
    }
    let mut other = vec![
        c.gain().to_bits(),
        c.v_ptat_25().to_bits(),
        c.k_v_dd() as u32,
        c.v_dd_25() as u32,
        c.alpha_ptat().to_bits(),
        c.k_s_ta().to_bits(),
        c.temperature_gradient_coefficient().map_or(0, |x| x.to_bits()),
    ];
    for s in 0..2u8 {
        other.extend([
            c.offset_reference_cp(sp(s)) as u32,
            c.alpha_cp(sp(s)).to_bits(),
            c.k_v_cp(sp(s)).to_bits(),
            c.k_ta_cp(sp(s)).to_bits(),
        ]);
    }
    other.extend(c.k_s_to().iter().chain(c.alpha_correction()).map(|x| x.to_bits()));
    Got {
        failed: c.failed_pixels().iter_flagged().take(2 * n).collect(),
        outlier: c.outlier_pixels().iter_flagged().take(2 * n).collect(),
        any: (c.failed_pixels().any(), c.outlier_pixels().any()),
        px,
        other,
    }
}

fn decode(m: Model, e: &[u16]) -> Result<Got, String> {
    let b = bytes(e);
    guard(|| match m {
        Model::M640 => Mlx90640Calibration::from_data(&b).map(|c| read(&c, 768)),
        Model::M641 => Mlx90641Calibration::from_data(&b).map(|c| read(&c, 192)),
    })?
    .map_err(|e| format!("rejected: {e:?}"))
}

/// The expected flags of an EEPROM, from its words.
fn flags(m: Model, e: &[u16]) -> (Vec<usize>, Vec<usize>) {
    let n = m.pixels();
    match m {
        Model::M640 => (
            (0..n).filter(|p| e[0x40 + p] == 0).collect(),
            (0..n).filter(|p| e[0x40 + p] & 1 == 1).collect(),
        ),
        Model::M641 => {
            let f: Vec<usize> = (0..n)
                .filter(|p| [0x40, 0x100, 0x1C0, 0x280].iter().all(|b| data(e[b + p]) == 0))
                .collect();
            (f.clone(), f)
        }
    }
}
/// The data of a word of the MLX90641, after correction of one bit.
fn data(w: u16) -> u16 {
    if w.count_ones() <= 1 {
        // The code word of zero is zero.
        0
    } else {
        w & 0x7FF | 0x800
    }
}

/// Judge an EEPROM that differs from an intact one in the words of some pixels.
fn judge(m: Model, e: &[u16], g: &Got, intact: &Got, touched: &dyn Fn(usize) -> bool) -> Result<(), String> {
    let (f, o) = flags(m, e);
    if g.failed != f {
        return Err(format!("failed pixels {:?} instead of {:?}", short(&g.failed), short(&f)));
    }
    if g.outlier != o {
        return Err(format!("outlier pixels {:?} instead of {:?}", short(&g.outlier), short(&o)));
    }
    if g.any != (!f.is_empty(), !o.is_empty()) {
        return Err(format!("any() gives {:?}", g.any));
    }
    for p in 0..m.pixels() {
        if !touched(p) && g.px[p] != intact.px[p] {
            return Err(format!("the calibration of pixel {p} changed from {:x?} to {:x?}", intact.px[p], g.px[p]));
        }
    }
    if g.other != intact.other {
        return Err("values that belong to no pixel changed".into());
    }
    Ok(())
}
fn walk<C>(c: &C, f: &[usize], o: &[usize]) -> Result<u64, String>
where
    C: for<'a> CalibrationData<'a>,
{
    let a = iterator("failed pixels", || c.failed_pixels().iter_flagged(), |x| x, f, false)?;
    Ok(a + iterator("outlier pixels", || c.outlier_pixels().iter_flagged(), |x| x, o, false)?)
}
fn short(v: &[usize]) -> Vec<usize> {
    v.iter().take(12).copied().collect()
}

pub fn run(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.bound(format!("MLX90640: every pixel x {} words (each of the 65536 words at some pixel), every pair of pixels x 3 combinations, every flag set that is a prefix, a suffix, a row, a column or a residue class; MLX90641: every pixel x each of the 16 subsets of its four words being zero, x one bit set in one of them ({}), every pair of pixels, the same sets; each decoded and compared with the intact EEPROM for all other pixels; a part of them read over the bus, and their flags also stepped through with nth, step_by, last, count and internal iteration", if t { "all 65536" } else { "1110" }, "data that one-bit correction restores to zero, and data that is not zero"));
    ctx.assume("the MLX90641 makes no difference between failed and outlier pixels, as the crate documents");
    for m in Model::BOTH {
        let base: Vec<u16> = base_ee(m).to_vec();
        let n = m.pixels();
        let intact = match decode(m, &base) {
            Ok(i) => i,
            Err(e) => return ctx.fail(e),
        };
        if let Err(e) = judge(m, &base, &intact, &intact, &|_| false) {
            return ctx.fail(format!("{} intact: {e}", m.name()));
        }
        let one = |what: &dyn Fn() -> String, e: &[u16], touched: &dyn Fn(usize) -> bool| {
            ctx.st(1);
            ctx.tr(1);
            ctx.tv(1);
            if let Err(x) = decode(m, e).and_then(|g| judge(m, e, &g, &intact, touched)) {
                ctx.fail(format!("{}: {}: {x}", m.name(), what()));
            }
        };
        let words = |e: &mut [u16], p: usize, w: [u16; 4]| match m {
            Model::M640 => e[0x40 + p] = w[0],
            Model::M641 => {
                for (b, v) in [0x40, 0x100, 0x1C0, 0x280].iter().zip(w) {
                    e[b + p] = v;
                }
            }
        };
        // One pixel.
        par(ctx, n, |p| {
            let mut e = base.clone();
            match m {
                Model::M640 => {
                    let mut v: Vec<u16> = if t {
                        (0..=65535).collect()
                    } else {
                        (0..1024).map(|k| ((k * 768 + p * 257) % 65536) as u16).chain((0..86).map(|k| ((p + 768 * k) % 65536) as u16)).collect()
                    };
                    v.extend([0, 1, 2, 0x0100, 0x8000, 0xFFFE, 0xFFFF]);
                    v.extend((0..16).flat_map(|b| [1 << b, 1 | 1 << b, !(1 << b)]));
                    for w in v {
                        e[0x40 + p] = w;
                        one(&|| format!("pixel {p} word {w:#06x}"), &e, &|q| q == p);
                        if ctx.stopped() {
                            return;
                        }
                    }
                }
                Model::M641 => {
                    for zero in 0..16u32 {
                        let mut e = base.clone();
                        for (k, b) in [0x40, 0x100, 0x1C0, 0x280].iter().enumerate() {
                            if zero >> k & 1 == 1 {
                                e[b + p] = 0;
                            } else if data(e[b + p]) == 0 {
                                e[b + p] = ham(1);
                            }
                        }
                        one(&|| format!("pixel {p} zero words {zero:04b}"), &e, &|q| q == p);
                    }
                    for k in 0..4usize {
                        let a = [0x40, 0x100, 0x1C0, 0x280][k] + p;
                        let mut e = base.clone();
                        words(&mut e, p, [0; 4]);
                        // One wrong bit is corrected to zero.
                        for b in 0..16 {
                            e[a] = 1 << b;
                            one(&|| format!("pixel {p} all zero but a wrong bit {b} in word {k}"), &e, &|q| q == p);
                        }
                        let vals: Vec<u16> = if t { (0..2048).collect() } else { (0..11).map(|b| 1 << b).chain([0x7FF, 0x7E0, 0x41F]).collect() };
                        for v in vals {
                            e[a] = ham(v);
                            one(&|| format!("pixel {p} only word {k} has data {v:#05x}"), &e, &|q| q == p);
                        }
                    }
                }
            }
        });
        // Pairs.
        par(ctx, n, |p| {
            let mut e = base.clone();
            for q in 0..p {
                for (a, b) in [(0, 0), (0, 1), (1, 0)] {
                    let mut f = if m == Model::M641 { base.clone() } else { std::mem::take(&mut e) };
                    match m {
                        Model::M640 => {
                            f[0x40 + p] = if a == 0 { 0 } else { base[0x40 + p] | 1 };
                            f[0x40 + q] = if b == 0 { 0 } else { base[0x40 + q] | 1 };
                        }
                        Model::M641 => {
                            // All zero, or zero except for the last word.
                            words(&mut f, p, [0, 0, 0, if a == 0 { 0 } else { ham(3) }]);
                            words(&mut f, q, [0, if b == 0 { 0 } else { ham(3) }, 0, 0]);
                        }
                    }
                    one(&|| format!("pixels {q} and {p} ({a}, {b})"), &f, &|x| x == p || x == q);
                    if m == Model::M640 {
                        f[0x40 + p] = base[0x40 + p];
                        f[0x40 + q] = base[0x40 + q];
                        e = f;
                    }
                }
                if ctx.stopped() {
                    return;
                }
            }
        });
        // Sets.
        let w = m.width();
        let mut sets: Vec<(String, Vec<bool>)> = vec![];
        for k in 0..=n {
            sets.push((format!("prefix of {k}"), (0..n).map(|p| p < k).collect()));
            sets.push((format!("suffix from {k}"), (0..n).map(|p| p >= k).collect()));
        }
        for r in 0..m.height() {
            sets.push((format!("row {r}"), (0..n).map(|p| p / w == r).collect()));
            sets.push((format!("all but row {r}"), (0..n).map(|p| p / w != r).collect()));
        }
        for c in 0..w {
            sets.push((format!("column {c}"), (0..n).map(|p| p % w == c).collect()));
            sets.push((format!("all but column {c}"), (0..n).map(|p| p % w != c).collect()));
        }
        for d in 2..=70 {
            for r in 0..d {
                sets.push((format!("{r} modulo {d}"), (0..n).map(|p| p % d == r).collect()));
            }
        }
        let kinds = 3;
        par(ctx, sets.len(), |j| {
            let (name, s) = &sets[j];
            for kind in 0..kinds {
                let mut e = base.clone();
                for p in 0..n {
                    match (m, kind) {
                        (Model::M640, 0) => {
                            if s[p] {
                                e[0x40 + p] = 0
                            }
                        }
                        (Model::M640, 1) => {
                            if s[p] {
                                e[0x40 + p] |= 1
                            } else {
                                e[0x40 + p] &= !1
                            }
                        }
                        (Model::M640, _) => {
                            if s[p] {
                                e[0x40 + p] |= 1
                            } else {
                                e[0x40 + p] = 0
                            }
                        }
                        (Model::M641, 0) => {
                            if s[p] {
                                words(&mut e, p, [0; 4])
                            }
                        }
                        (Model::M641, 1) => {
                            if s[p] {
                                words(&mut e, p, [0x8000, 0x0001, 0x0400, 0x0800])
                            } else {
                                words(&mut e, p, [0, 0, 0, ham(1)])
                            }
                        }
                        (Model::M641, _) => {
                            let v = |k: usize| if s[p] || k != p % 4 { 0 } else { ham(0x400) };
                            words(&mut e, p, [v(0), v(1), v(2), v(3)]);
                        }
                    }
                }
                let touched: Vec<bool> = (0..n)
                    .map(|p| match m {
                        Model::M640 => e[0x40 + p] & !1 != base[0x40 + p] & !1,
                        Model::M641 => s[p] || kind > 0,
                    })
                    .collect();
                one(&|| format!("{name} (kind {kind})"), &e, &|p| touched[p]);
                // Stepping through the flags in other ways than one by one.
                if (t || j % 8 == 3) && kind == 0 {
                    let b = bytes(&e);
                    let (f, o) = flags(m, &e);
                    let r = guard(|| match m {
                        Model::M640 => walk(&Mlx90640Calibration::from_data(&b).unwrap(), &f, &o),
                        Model::M641 => walk(&Mlx90641Calibration::from_data(&b).unwrap(), &f, &o),
                    });
                    match r {
                        Ok(Ok(n)) => ctx.tr(n),
                        r => ctx.fail(format!("{}: {name}: {r:?}", m.name())),
                    }
                }
                // Over the bus.
                if j % 8 == kind {
                    let mut d = dev(m, &std::sync::Arc::new(e.clone()));
                    d.addr = 0x21;
                    install(World::new(d));
                    let r = guard(|| match m {
                        Model::M640 => Mlx90640Calibration::from_i2c(&mut Bus, 0x21).map(|c| read(&c, n)).map_err(|e| err_ret(&e)),
                        Model::M641 => Mlx90641Calibration::from_i2c(&mut Bus, 0x21).map(|c| read(&c, n)).map_err(|e| err_ret(&e)),
                    });
                    take();
                    let r = r.and_then(|r| r.map_err(|e| format!("{e:?}"))).and_then(|g| judge(m, &e, &g, &intact, &|p| touched[p]));
                    if let Err(x) = r {
                        ctx.fail(format!("{}: {name} (kind {kind}) read over the bus: {x}", m.name()));
                    }
                    ctx.tv(1);
                }
            }
        });
    }
    ctx.sample("MLX90640 pixels 5 (word 0) and 9 (outlier bit): failed [5], outlier [9], all others as in the intact EEPROM");
}
