//! Reference decoders of the calibration data, written from the datasheets' EEPROM maps.
use crate::dev::Model;
use crate::drv::{pat, res_num, sp};
use crate::num::Ev;
use mlx9064x::common::CalibrationData;

/// What the datasheet says a calibration is.  Values are exact; `Ev` where rounding matters.
#[derive(Clone)]
pub struct Ref {
    pub model: Model,
    pub ints: Vec<(&'static str, i64)>,
    pub scalars: Vec<(&'static str, f64)>,
    pub res: u8,
    pub ct: Vec<i64>,
    pub k_s_to: Vec<f64>,
    pub alpha_corr: Vec<Ev>,
    pub emissivity: Option<f64>,
    pub tgc: Option<f64>,
    pub offset_cp: [i64; 2],
    pub alpha_cp: [f64; 2],
    pub kv_cp: f64,
    pub kta_cp: f64,
    pub il_cp: [[Option<f64>; 2]; 2],
    pub offset: [Vec<i64>; 2],
    /// Value and magnitude of the terms it is the sum of.
    pub alpha: Vec<(f64, f64)>,
    pub kv: Vec<(f64, f64)>,
    pub kta: Vec<(f64, f64)>,
    /// Interleave correction in interleaved mode.
    pub il: Option<Vec<f64>>,
    pub failed: Vec<bool>,
    pub outlier: Vec<bool>,
}

/// The `n` bit two's complement number in the bits of `w` from `lo` up.
pub fn sbits(w: u16, lo: u32, n: u32) -> i64 {
    let v = (w >> lo) as i64 & ((1 << n) - 1);
    if v >= 1 << (n - 1) {
        v - (1 << n)
    } else {
        v
    }
}
pub fn ubits(w: u16, lo: u32, n: u32) -> i64 {
    (w >> lo) as i64 & ((1 << n) - 1)
}
fn p2(e: i64) -> f64 {
    2f64.powi(e.clamp(-4000, 4000) as i32)
}

fn alpha_corr(basic: usize, ct: &[i64], k: &[f64]) -> Vec<Ev> {
    let one = Ev::x(1.0);
    let mut v = vec![one; ct.len()];
    for n in basic + 1..ct.len() {
        v[n] = v[n - 1] * (one + Ev::c(k[n - 1]) * Ev::x((ct[n] - ct[n - 1]) as f64));
    }
    for n in (0..basic).rev() {
        v[n] = v[n + 1] / (one + Ev::c(k[n]) * Ev::x((ct[n + 1] - ct[n]) as f64));
    }
    v
}

/// Section 11.1 of the MLX90640 datasheet.
pub fn ref640(e: &[u16], pixels: bool) -> Ref {
    let n = if pixels { 768 } else { 0 };
    let scale_alpha = ubits(e[0x20], 12, 4);
    let k_v_scale = ubits(e[0x38], 8, 4);
    let kta1 = ubits(e[0x38], 4, 4) + 8;
    let kta2 = ubits(e[0x38], 0, 4);
    let mut r = Ref {
        model: Model::M640,
        ints: vec![
            ("k_v_dd", 32 * sbits(e[0x33], 8, 8)),
            ("v_dd_25", (ubits(e[0x33], 0, 8) - 256) * 32 - 8192),
        ],
        scalars: vec![
            ("v_dd_0", 3.3),
            ("k_v_ptat", sbits(e[0x32], 10, 6) as f64 / 4096.0),
            ("k_t_ptat", sbits(e[0x32], 0, 10) as f64 / 8.0),
            ("v_ptat_25", sbits(e[0x31], 0, 16) as f64),
            ("alpha_ptat", ubits(e[0x10], 12, 4) as f64 / 4.0 + 8.0),
            ("gain", sbits(e[0x30], 0, 16) as f64),
            ("k_s_ta", sbits(e[0x3C], 8, 8) as f64 / 8192.0),
        ],
        res: ubits(e[0x38], 12, 2) as u8,
        ct: vec![],
        k_s_to: vec![],
        alpha_corr: vec![],
        emissivity: None,
        tgc: Some(sbits(e[0x3C], 0, 8) as f64 / 32.0).filter(|x| *x != 0.0),
        offset_cp: [sbits(e[0x3A], 0, 10), sbits(e[0x3A], 0, 10) + sbits(e[0x3A], 10, 6)],
        alpha_cp: [0.0; 2],
        kv_cp: sbits(e[0x3B], 8, 8) as f64 / p2(k_v_scale),
        kta_cp: sbits(e[0x3B], 0, 8) as f64 / p2(kta1),
        il_cp: [[None, Some(sbits(e[0x35], 0, 6) as f64 / 16.0)], [None, None]],
        offset: [Vec::with_capacity(n), vec![]],
        alpha: Vec::with_capacity(n),
        kv: Vec::with_capacity(n),
        kta: Vec::with_capacity(n),
        il: Some(Vec::with_capacity(n)),
        failed: Vec::with_capacity(n),
        outlier: Vec::with_capacity(n),
    };
    let acp = ubits(e[0x39], 0, 10) as f64 / p2(scale_alpha + 27);
    r.alpha_cp = [acp, acp * (1.0 + sbits(e[0x39], 10, 6) as f64 / 128.0)];
    let step = ubits(e[0x3F], 12, 2) * 10;
    let ct3 = ubits(e[0x3F], 4, 4) * step;
    let ct4 = ubits(e[0x3F], 8, 4) * step + ct3;
    r.ct = vec![-40, 0, ct3, ct4];
    let ks = p2(ubits(e[0x3F], 0, 4) + 8);
    r.k_s_to = [sbits(e[0x3D], 0, 8), sbits(e[0x3D], 8, 8), sbits(e[0x3E], 0, 8), sbits(e[0x3E], 8, 8)]
        .iter()
        .map(|x| *x as f64 / ks)
        .collect();
    r.alpha_corr = alpha_corr(1, &r.ct, &r.k_s_to);
    let off_avg = sbits(e[0x11], 0, 16);
    let [or, oc, om] = [ubits(e[0x10], 8, 4), ubits(e[0x10], 4, 4), ubits(e[0x10], 0, 4)];
    let alpha_avg = ubits(e[0x21], 0, 16);
    let [ar, ac, am] = [ubits(e[0x20], 8, 4), ubits(e[0x20], 4, 4), ubits(e[0x20], 0, 4)];
    let nib = |base: usize, i: usize| sbits(e[base + i / 4], 4 * (i as u32 % 4), 4);
    let c2 = sbits(e[0x35], 6, 5) as f64 / 2.0;
    let c3 = sbits(e[0x35], 11, 5) as f64 / 8.0;
    let alpha_div = p2(scale_alpha + 30);
    let (kv_div, kta_div) = (p2(k_v_scale), p2(kta1));
    let orow: Vec<i64> = (0..24).map(|i| nib(0x12, i) << or).collect();
    let ocol: Vec<i64> = (0..32).map(|i| nib(0x18, i) << oc).collect();
    let arow: Vec<i64> = (0..24).map(|i| nib(0x22, i) << ar).collect();
    let acol: Vec<i64> = (0..32).map(|i| nib(0x28, i) << ac).collect();
    for p in 0..n {
        let (row, col) = (p / 32, p % 32);
        let w = e[0x40 + p];
        let q = 2 * (col % 2) + row % 2;
        r.failed.push(w == 0);
        r.outlier.push(w != 0 && w & 1 == 1);
        r.offset[0].push(off_avg + orow[row] + ocol[col] + (sbits(w, 10, 6) << om));
        let rem = sbits(w, 4, 6) << am;
        r.alpha.push((
            (alpha_avg + arow[row] + acol[col] + rem) as f64 / alpha_div,
            (alpha_avg + arow[row].abs() + acol[col].abs() + rem.abs()) as f64 / alpha_div,
        ));
        let kv = sbits(e[0x34], 12 - 4 * q as u32, 4) as f64 / kv_div;
        r.kv.push((kv, kv.abs()));
        let base = sbits(e[0x36 + q / 2], 8 - 8 * (q as u32 % 2), 8);
        let rem = sbits(w, 1, 3) << kta2;
        r.kta.push(((base + rem) as f64 / kta_div, (base.abs() + rem.abs()) as f64 / kta_div));
        // Section 11.2.2.5.3 with n = p + 1.
        let i = p as i64;
        let il = i / 32 - i / 64 * 2;
        let conv = ((i + 2) / 4 - (i + 3) / 4 + (i + 1) / 4 - i / 4) * (1 - 2 * il);
        r.il.as_mut().unwrap().push(c3 * (2 * il - 1) as f64 - c2 * conv as f64);
    }
    r.offset[1] = r.offset[0].clone();
    r
}

/// Section 11.1 of the MLX90641 datasheet; `e` are the data bits of the words.
pub fn ref641(e: &[u16], pixels: bool) -> Ref {
    let n = if pixels { 192 } else { 0 };
    let s11 = |i: usize| sbits(e[i], 0, 11);
    let u11 = |i: usize| ubits(e[i], 0, 11);
    let comb = |i: usize| (u11(i) * 32 + u11(i + 1)) & 0xFFFF;
    let scomb = |i: usize| sbits(comb(i) as u16, 0, 16);
    let ks = p2(u11(0x34));
    let mut r = Ref {
        model: Model::M641,
        ints: vec![("k_v_dd", 32 * s11(0x27)), ("v_dd_25", 32 * s11(0x26))],
        scalars: vec![
            ("v_dd_0", 3.3),
            ("k_v_ptat", s11(0x2B) as f64 / 4096.0),
            ("k_t_ptat", s11(0x2A) as f64 / 8.0),
            ("v_ptat_25", comb(0x28) as f64),
            ("alpha_ptat", u11(0x2C) as f64 / 128.0),
            ("gain", comb(0x24) as f64),
            ("k_s_ta", s11(0x22) as f64 / 32768.0),
        ],
        res: ubits(e[0x33], 9, 2) as u8,
        ct: vec![-40, -20, 0, 80, 120, u11(0x3A), u11(0x3C), u11(0x3E)],
        k_s_to: [0x35, 0x36, 0x37, 0x38, 0x39, 0x3B, 0x3D, 0x3F].iter().map(|i| s11(*i) as f64 / ks).collect(),
        alpha_corr: vec![],
        emissivity: Some(s11(0x23) as f64 / 512.0),
        tgc: Some(sbits(e[0x33], 0, 9) as f64 / 64.0),
        offset_cp: [scomb(0x2F); 2],
        alpha_cp: [u11(0x2D) as f64 / p2(u11(0x2E)); 2],
        kta_cp: sbits(e[0x31], 0, 6) as f64 / p2(ubits(e[0x31], 6, 5)),
        kv_cp: sbits(e[0x32], 0, 6) as f64 / p2(ubits(e[0x32], 6, 5)),
        il_cp: [[None; 2]; 2],
        offset: [Vec::with_capacity(n), Vec::with_capacity(n)],
        alpha: Vec::with_capacity(n),
        kv: Vec::with_capacity(n),
        kta: Vec::with_capacity(n),
        il: None,
        failed: Vec::with_capacity(n),
        outlier: Vec::with_capacity(n),
    };
    r.alpha_corr = alpha_corr(2, &r.ct, &r.k_s_to);
    let off_scale = ubits(e[0x10], 5, 6) as u32;
    let off_avg = scomb(0x11) as i128;
    let (ta1, ta2) = (ubits(e[0x16], 5, 6), ubits(e[0x16], 0, 5));
    let (v1, v2) = (ubits(e[0x18], 5, 6), ubits(e[0x18], 0, 5));
    let (ta_avg, v_avg) = (s11(0x15) as f64, s11(0x17) as f64);
    let off = |w: u16| -> i64 {
        let o = (sbits(w, 0, 11) as i128 * (1i128 << off_scale)) + off_avg;
        o.clamp(i64::MIN as i128, i64::MAX as i128) as i64
    };
    let reference: Vec<f64> = (0..6)
        .map(|i| u11(0x1C + i) as f64 / p2(ubits(e[0x19 + i / 2], if i % 2 == 0 { 5 } else { 0 }, if i % 2 == 0 { 6 } else { 5 }) + 20))
        .collect();
    for p in 0..n {
        let (o0, a, c, o1) = (e[0x40 + p], e[0x100 + p], e[0x1C0 + p], e[0x280 + p]);
        let failed = (o0 | a | c | o1) & 0x7FF == 0;
        r.failed.push(failed);
        r.outlier.push(failed);
        r.offset[0].push(off(o0));
        r.offset[1].push(off(o1));
        let al = ubits(a, 0, 11) as f64 / 2047.0 * reference[p / 32];
        r.alpha.push((al, al));
        let t = sbits(c, 5, 6) as f64 * p2(ta2);
        r.kta.push(((t + ta_avg) / p2(ta1), (t.abs() + ta_avg.abs()) / p2(ta1)));
        let v = sbits(c, 0, 5) as f64 * p2(v2);
        r.kv.push(((v + v_avg) / p2(v1), (v.abs() + v_avg.abs()) / p2(v1)));
    }
    r
}

impl Ref {
    /// Whether every value of a pixel in use can be represented.
    pub fn representable(&self) -> bool {
        self.all(|p, _| !self.failed[p])
    }
    /// ... including pixels marked as failed.
    pub fn representable_failed(&self) -> bool {
        self.all(|_, _| true)
    }
    fn all(&self, f: impl Fn(usize, usize) -> bool) -> bool {
        (0..2).all(|s| {
            self.offset[s].iter().enumerate().all(|(p, o)| !f(p, s) || (-32768..=32767).contains(o))
        })
    }
}

fn near(got: f32, want: f64, mag: f64) -> bool {
    (got as f64 - want).abs() <= 1e-6 * mag.max(want.abs()) + 1e-35
}

fn per_pixel<'a>(
    r: &Ref,
    s: u8,
    what: &str,
    it: impl Iterator<Item = &'a f32>,
    want: &[(f64, f64)],
) -> Result<(), String> {
    let n = want.len();
    let mut k = 0;
    for (p, g) in it.enumerate() {
        k += 1;
        if p >= n || !r.failed[p] && !near(*g, want[p].0, want[p].1) {
            return Err(format!("{what} of pixel {p}, subpage {s} is {g:e} instead of {:?}", want.get(p)));
        }
    }
    if k != n {
        return Err(format!("{what} has {k} values for subpage {s} instead of {n}"));
    }
    Ok(())
}

/// Compare a decoded calibration with the reference (the pixels only if the reference has them).
pub fn diff<C>(r: &Ref, c: &C) -> Result<(), String>
where
    C: for<'a> CalibrationData<'a>,
{
    let int = |what: &str, got: i64, want: i64| {
        if got == want {
            Ok(())
        } else {
            Err(format!("{what} is {got} instead of {want}"))
        }
    };
    let fl = |what: &str, got: f32, want: f64| {
        if near(got, want, 0.0) {
            Ok(())
        } else {
            Err(format!("{what} is {got:e} instead of {want:e}"))
        }
    };
    let of = |what: &str, got: Option<f32>, want: Option<f64>| match (got, want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) if near(g, w, 0.0) => Ok(()),
        _ => Err(format!("{what} is {got:?} instead of {want:?}")),
    };
    int("k_v_dd", c.k_v_dd() as i64, r.ints[0].1)?;
    int("v_dd_25", c.v_dd_25() as i64, r.ints[1].1)?;
    for ((n, want), got) in r.scalars.iter().zip([
        c.v_dd_0(),
        c.k_v_ptat(),
        c.k_t_ptat(),
        c.v_ptat_25(),
        c.alpha_ptat(),
        c.gain(),
        c.k_s_ta(),
    ]) {
        fl(n, got, *want)?;
    }
    int("resolution", res_num(c.resolution()) as i64, r.res as i64)?;
    let ct: Vec<i64> = c.corner_temperatures().iter().map(|x| *x as i64).collect();
    if ct != r.ct {
        return Err(format!("corner temperatures are {ct:?} instead of {:?}", r.ct));
    }
    int("number of k_s_to", c.k_s_to().len() as i64, r.k_s_to.len() as i64)?;
    for (i, (g, w)) in c.k_s_to().iter().zip(&r.k_s_to).enumerate() {
        fl(&format!("k_s_to[{i}]"), *g, *w)?;
    }
    int("number of alpha corrections", c.alpha_correction().len() as i64, r.alpha_corr.len() as i64)?;
    for (i, (g, w)) in c.alpha_correction().iter().zip(&r.alpha_corr).enumerate() {
        if !w.agrees(*g) {
            return Err(format!("alpha_correction[{i}] is {g} instead of {w:?}"));
        }
    }
    of("emissivity", c.emissivity(), r.emissivity)?;
    of("thermal gradient coefficient", c.temperature_gradient_coefficient(), r.tgc)?;
    for s in 0..2u8 {
        let i = s as usize;
        int("compensation pixel offset", c.offset_reference_cp(sp(s)) as i64, r.offset_cp[i])?;
        fl("compensation pixel sensitivity", c.alpha_cp(sp(s)), r.alpha_cp[i])?;
        fl("compensation pixel K_V", c.k_v_cp(sp(s)), r.kv_cp)?;
        fl("compensation pixel K_Ta", c.k_ta_cp(sp(s)), r.kta_cp)?;
        for p in 0..2u8 {
            of(
                &format!("compensation pixel pattern correction (subpage {s}, pattern {p})"),
                c.access_pattern_compensation_cp(sp(s), pat(p)),
                r.il_cp[p as usize][i],
            )?;
        }
        let n = r.failed.len();
        if n == 0 {
            continue;
        }
        let mut k = 0;
        for (p, g) in c.offset_reference_pixels(sp(s)).enumerate() {
            k += 1;
            if p >= n || *g as i64 != r.offset[i][p] && !r.failed[p] {
                return Err(format!("offset of pixel {p}, subpage {s} is {g} instead of {:?}", r.offset[i].get(p)));
            }
        }
        int("number of offsets", k, n as i64)?;
        per_pixel(r, s, "sensitivity", c.alpha_pixels(sp(s)), &r.alpha)?;
        per_pixel(r, s, "K_V", c.k_v_pixels(sp(s)), &r.kv)?;
        per_pixel(r, s, "K_Ta", c.k_ta_pixels(sp(s)), &r.kta)?;
    }
    for p in 0..2u8 {
        if r.failed.is_empty() {
            break;
        }
        let want = |i: usize| if p == 0 { r.il.as_ref().map(|v| v[i]) } else { None };
        let mut k = 0;
        for (i, g) in c.access_pattern_compensation_pixels(pat(p)).enumerate() {
            k += 1;
            if i >= r.failed.len() {
                break;
            }
            let ok = match (g, want(i)) {
                (None, None) => true,
                (Some(g), Some(w)) => near(*g, w, 0.0),
                _ => false,
            };
            if !ok {
                return Err(format!("pattern {p} correction of pixel {i} is {g:?} instead of {:?}", want(i)));
            }
        }
        int("number of pattern corrections", k, r.failed.len() as i64)?;
    }
    Ok(())
}
