//! Calibration values as plain numbers, and a user-defined calibration type.
use crate::dev::Model;
use crate::drv::{pat, res_num, sp, RESOLUTIONS};
use mlx9064x::common::{CalibrationData, FlaggedPixels};
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::{AccessPattern, Resolution, Subpage};
use std::sync::Arc;

/// Everything a calibration exposes.  Arrays are indexed by subpage, or by access pattern
/// (0 interleave, 1 chess).
#[derive(Clone, Debug, PartialEq)]
pub struct Cal {
    pub model: Model,
    pub k_v_dd: f64,
    pub v_dd_25: f64,
    pub res: u8,
    pub v_dd_0: f64,
    pub k_v_ptat: f64,
    pub k_t_ptat: f64,
    pub v_ptat_25: f64,
    pub alpha_ptat: f64,
    pub gain: f64,
    pub k_s_ta: f64,
    pub ct: Vec<f64>,
    pub k_s_to: Vec<f64>,
    pub alpha_corr: Vec<f64>,
    pub emissivity: Option<f64>,
    pub offset: [Vec<f64>; 2],
    pub offset_cp: [f64; 2],
    pub alpha: [Vec<f64>; 2],
    pub alpha_cp: [f64; 2],
    pub kv: [Vec<f64>; 2],
    pub kv_cp: [f64; 2],
    pub kta: [Vec<f64>; 2],
    pub kta_cp: [f64; 2],
    pub tgc: Option<f64>,
    /// Interleave correction by access pattern and pixel.
    pub il: [Vec<Option<f64>>; 2],
    /// ... of the compensation pixel, by access pattern and subpage.
    pub il_cp: [[Option<f64>; 2]; 2],
    pub failed: Vec<usize>,
    pub outlier: Vec<usize>,
    pub failed_any: bool,
    pub outlier_any: bool,
}

pub fn extract<C>(model: Model, c: &C) -> Cal
where
    C: for<'a> CalibrationData<'a>,
{
    let v = |x: &[f32]| x.iter().map(|v| *v as f64).collect::<Vec<_>>();
    let f = |i: u8| (
        c.offset_reference_pixels(sp(i)).map(|x| *x as f64).collect::<Vec<_>>(),
        c.alpha_pixels(sp(i)).map(|x| *x as f64).collect::<Vec<_>>(),
        c.k_v_pixels(sp(i)).map(|x| *x as f64).collect::<Vec<_>>(),
        c.k_ta_pixels(sp(i)).map(|x| *x as f64).collect::<Vec<_>>(),
    );
    let (o0, a0, v0, t0) = f(0);
    let (o1, a1, v1, t1) = f(1);
    let il = |p: u8| {
        c.access_pattern_compensation_pixels(pat(p)).map(|o| o.map(|x| *x as f64)).collect::<Vec<_>>()
    };
    let ilcp = |p: u8| {
        [0, 1].map(|i| c.access_pattern_compensation_cp(sp(i), pat(p)).map(|x| x as f64))
    };
    Cal {
        model,
        k_v_dd: c.k_v_dd() as f64,
        v_dd_25: c.v_dd_25() as f64,
        res: res_num(c.resolution()),
        v_dd_0: c.v_dd_0() as f64,
        k_v_ptat: c.k_v_ptat() as f64,
        k_t_ptat: c.k_t_ptat() as f64,
        v_ptat_25: c.v_ptat_25() as f64,
        alpha_ptat: c.alpha_ptat() as f64,
        gain: c.gain() as f64,
        k_s_ta: c.k_s_ta() as f64,
        ct: c.corner_temperatures().iter().map(|x| *x as f64).collect(),
        k_s_to: v(c.k_s_to()),
        alpha_corr: v(c.alpha_correction()),
        emissivity: c.emissivity().map(|e| e as f64),
        offset: [o0, o1],
        offset_cp: [0, 1].map(|i| c.offset_reference_cp(sp(i)) as f64),
        alpha: [a0, a1],
        alpha_cp: [0, 1].map(|i| c.alpha_cp(sp(i)) as f64),
        kv: [v0, v1],
        kv_cp: [0, 1].map(|i| c.k_v_cp(sp(i)) as f64),
        kta: [t0, t1],
        kta_cp: [0, 1].map(|i| c.k_ta_cp(sp(i)) as f64),
        tgc: c.temperature_gradient_coefficient().map(|x| x as f64),
        il: [il(0), il(1)],
        il_cp: [ilcp(0), ilcp(1)],
        failed: c.failed_pixels().iter_flagged().collect(),
        outlier: c.outlier_pixels().iter_flagged().collect(),
        failed_any: c.failed_pixels().any(),
        outlier_any: c.outlier_pixels().any(),
    }
}

/// The tables behind a user-defined calibration type.
#[derive(Clone, PartialEq)]
pub struct Tables {
    pub k_v_dd: i16,
    pub v_dd_25: i16,
    pub res: u8,
    pub v_dd_0: f32,
    pub k_v_ptat: f32,
    pub k_t_ptat: f32,
    pub v_ptat_25: f32,
    pub alpha_ptat: f32,
    pub gain: f32,
    pub k_s_ta: f32,
    pub ct: Vec<i16>,
    pub k_s_to: Vec<f32>,
    pub alpha_corr: Vec<f32>,
    pub emissivity: Option<f32>,
    pub offset: [Vec<i16>; 2],
    pub offset_cp: [i16; 2],
    pub alpha: [Vec<f32>; 2],
    pub alpha_cp: [f32; 2],
    pub kv: [Vec<f32>; 2],
    pub kv_cp: [f32; 2],
    pub kta: [Vec<f32>; 2],
    pub kta_cp: [f32; 2],
    pub tgc: Option<f32>,
    pub il: [Vec<Option<f32>>; 2],
    pub il_cp: [[Option<f32>; 2]; 2],
    pub failed: Vec<usize>,
    pub outlier: Vec<usize>,
    /// For a type that relies on the provided methods of the trait.
    pub provided: bool,
    /// (Then) with sequences that have no end.
    pub endless: bool,
}

impl Tables {
    /// Take over the values of another calibration.
    pub fn of(c: &Cal) -> Tables {
        let v = |x: &Vec<f64>| x.iter().map(|y| *y as f32).collect::<Vec<f32>>();
        let i = |x: &Vec<f64>| x.iter().map(|y| *y as i16).collect::<Vec<i16>>();
        let o = |x: &Vec<Option<f64>>| x.iter().map(|y| y.map(|z| z as f32)).collect::<Vec<_>>();
        Tables {
            k_v_dd: c.k_v_dd as i16,
            v_dd_25: c.v_dd_25 as i16,
            res: c.res,
            v_dd_0: c.v_dd_0 as f32,
            k_v_ptat: c.k_v_ptat as f32,
            k_t_ptat: c.k_t_ptat as f32,
            v_ptat_25: c.v_ptat_25 as f32,
            alpha_ptat: c.alpha_ptat as f32,
            gain: c.gain as f32,
            k_s_ta: c.k_s_ta as f32,
            ct: i(&c.ct),
            k_s_to: v(&c.k_s_to),
            alpha_corr: v(&c.alpha_corr),
            emissivity: c.emissivity.map(|x| x as f32),
            offset: [i(&c.offset[0]), i(&c.offset[1])],
            offset_cp: c.offset_cp.map(|x| x as i16),
            alpha: [v(&c.alpha[0]), v(&c.alpha[1])],
            alpha_cp: c.alpha_cp.map(|x| x as f32),
            kv: [v(&c.kv[0]), v(&c.kv[1])],
            kv_cp: c.kv_cp.map(|x| x as f32),
            kta: [v(&c.kta[0]), v(&c.kta[1])],
            kta_cp: c.kta_cp.map(|x| x as f32),
            tgc: c.tgc.map(|x| x as f32),
            il: [o(&c.il[0]), o(&c.il[1])],
            il_cp: c.il_cp.map(|a| a.map(|b| b.map(|x| x as f32))),
            failed: c.failed.clone(),
            outlier: c.outlier.clone(),
            provided: false,
            endless: false,
        }
    }
    /// More values than the image has pixels.
    pub fn extend(&mut self, n: usize) {
        for s in 0..2 {
            for i in 0..n {
                self.offset[s].push(i as i16 - 7);
                self.alpha[s].push(1e-7 + 1e-9 * i as f32);
                self.kv[s].push(0.3);
                self.kta[s].push(0.004);
                self.il[s].push(Some(1.0 + i as f32));
            }
        }
    }
    /// Make every quantity differ between pixels and between subpages.
    pub fn vary(mut self, model: Model) -> Tables {
        let base = self.alpha[0].iter().cloned().find(|a| *a > 0.0).unwrap_or(1e-7);
        for s in 0..2usize {
            for p in 0..model.pixels() {
                let q = (p * 7 + s * 3) % 101;
                self.offset[s][p] = -60 + q as i16 - 9 * s as i16;
                self.alpha[s][p] = base * (1.0 + 0.004 * ((p * 13 + s * 29) % 97) as f32);
                self.kv[s][p] = 0.2 + 0.003 * ((p * 5 + s * 11) % 89) as f32;
                self.kta[s][p] = 0.002 + 0.00007 * ((p * 3 + s * 17) % 83) as f32;
                self.il[0][p] = Some(((p * 11 + 5) % 23) as f32 * 0.5 - 4.0);
                self.il[1][p] = if p % 3 == 0 { Some(((p * 5) % 19) as f32 * 0.25 - 2.0) } else { None };
            }
        }
        self.offset_cp = [-40, -52];
        self.alpha_cp = [base * 0.11, base * 0.17];
        self.kv_cp = [0.31, 0.43];
        self.kta_cp = [0.0041, 0.0057];
        self.il_cp = [[Some(1.5), Some(-2.25)], [None, Some(0.75)]];
        self
    }
}

/// A calibration type that a user of the crate might write.  `M` is 0 for an MLX90640, 1 for an
/// MLX90641; 2 and 3 are the same without
/// anything the trait provides, and with other iterators.
#[derive(Clone)]
pub struct UserCal<const M: usize>(pub Arc<Tables>);

impl<const M: usize> std::fmt::Debug for UserCal<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("UserCal")
    }
}

/// A list of flagged pixels.
pub struct Flags(Vec<usize>);
impl FlaggedPixels for Flags {
    fn any(&self) -> bool {
        !self.0.is_empty()
    }
    type FlaggedIterator = std::vec::IntoIter<usize>;
    fn iter_flagged(&self) -> Self::FlaggedIterator {
        self.0.clone().into_iter()
    }
}

/// A sequence that gives away nothing about its length, and may have no end.
pub struct Plain<'a, T> {
    items: &'a [T],
    next: usize,
    endless: bool,
}
impl<'a, T> Iterator for Plain<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        let i = if self.endless { self.next % self.items.len() } else { self.next };
        self.next += 1;
        self.items.get(i)
    }
}
type Slice<'a, T> = std::slice::Iter<'a, T>;
fn slice<T>(items: &[T], _: bool) -> Slice<'_, T> {
    items.iter()
}
fn plain<T>(items: &[T], endless: bool) -> Plain<'_, T> {
    Plain { items, next: 0, endless }
}

fn ix(s: Subpage) -> usize {
    match s {
        Subpage::Zero => 0,
        Subpage::One => 1,
    }
}
fn px(p: AccessPattern) -> usize {
    match p {
        AccessPattern::Interleave => 0,
        AccessPattern::Chess => 1,
    }
}

macro_rules! user_cal {
    ($m:literal, $cam:ty, $it:ident, $mk:ident, $($own:item)*) => {
        impl<'a> CalibrationData<'a> for UserCal<$m> {
            type Camera = $cam;
            fn k_v_dd(&self) -> i16 {
                self.0.k_v_dd
            }
            fn v_dd_25(&self) -> i16 {
                self.0.v_dd_25
            }
            fn resolution(&self) -> Resolution {
                RESOLUTIONS[self.0.res as usize]
            }
            $($own)*
            fn k_v_ptat(&self) -> f32 {
                self.0.k_v_ptat
            }
            fn k_t_ptat(&self) -> f32 {
                self.0.k_t_ptat
            }
            fn v_ptat_25(&self) -> f32 {
                self.0.v_ptat_25
            }
            fn alpha_ptat(&self) -> f32 {
                self.0.alpha_ptat
            }
            fn gain(&self) -> f32 {
                self.0.gain
            }
            fn k_s_ta(&self) -> f32 {
                self.0.k_s_ta
            }
            fn corner_temperatures(&self) -> &[i16] {
                &self.0.ct
            }
            fn k_s_to(&self) -> &[f32] {
                &self.0.k_s_to
            }
            fn alpha_correction(&self) -> &[f32] {
                &self.0.alpha_corr
            }
            type OffsetReferenceIterator = $it<'a, i16>;
            fn offset_reference_pixels(&'a self, s: Subpage) -> Self::OffsetReferenceIterator {
                $mk(&self.0.offset[ix(s)], self.0.endless)
            }
            fn offset_reference_cp(&self, s: Subpage) -> i16 {
                self.0.offset_cp[ix(s)]
            }
            type AlphaIterator = $it<'a, f32>;
            fn alpha_pixels(&'a self, s: Subpage) -> Self::AlphaIterator {
                $mk(&self.0.alpha[ix(s)], self.0.endless)
            }
            fn alpha_cp(&self, s: Subpage) -> f32 {
                self.0.alpha_cp[ix(s)]
            }
            type KvIterator = $it<'a, f32>;
            fn k_v_pixels(&'a self, s: Subpage) -> Self::KvIterator {
                $mk(&self.0.kv[ix(s)], self.0.endless)
            }
            fn k_v_cp(&self, s: Subpage) -> f32 {
                self.0.kv_cp[ix(s)]
            }
            type KtaIterator = $it<'a, f32>;
            fn k_ta_pixels(&'a self, s: Subpage) -> Self::KtaIterator {
                $mk(&self.0.kta[ix(s)], self.0.endless)
            }
            fn k_ta_cp(&self, s: Subpage) -> f32 {
                self.0.kta_cp[ix(s)]
            }
            fn temperature_gradient_coefficient(&self) -> Option<f32> {
                self.0.tgc
            }
            type AccessPatternCompensation = std::iter::Map<$it<'a, Option<f32>>, fn(&'a Option<f32>) -> Option<&'a f32>>;
            fn access_pattern_compensation_pixels(
                &'a self,
                p: AccessPattern,
            ) -> Self::AccessPatternCompensation {
                let f: fn(&'a Option<f32>) -> Option<&'a f32> = Option::as_ref;
                $mk(&self.0.il[px(p)], self.0.endless).map(f)
            }
            fn access_pattern_compensation_cp(&self, s: Subpage, p: AccessPattern) -> Option<f32> {
                self.0.il_cp[px(p)][ix(s)]
            }
            type FailedPixels = Flags;
            fn failed_pixels(&'a self) -> Flags {
                Flags(self.0.failed.clone())
            }
            type OutlierPixels = Flags;
            fn outlier_pixels(&'a self) -> Flags {
                Flags(self.0.outlier.clone())
            }
        }
    };
}
user_cal!(0, Mlx90640, Slice, slice,
    fn v_dd_0(&self) -> f32 {
        self.0.v_dd_0
    }
    fn emissivity(&self) -> Option<f32> {
        self.0.emissivity
    }
);
user_cal!(1, Mlx90641, Slice, slice,
    fn v_dd_0(&self) -> f32 {
        self.0.v_dd_0
    }
    fn emissivity(&self) -> Option<f32> {
        self.0.emissivity
    }
);
user_cal!(2, Mlx90640, Plain, plain,);
user_cal!(3, Mlx90641, Plain, plain,);

/// All per-pixel sequences of a calibration step like sequences.
pub fn sequences<C>(c: &C, px: usize, full: bool) -> Result<u64, String>
where
    C: for<'a> CalibrationData<'a>,
{
    use crate::util::iterator;
    let mut n = 0;
    for s in 0..2 {
        let t = sp(s);
        let want: Vec<i16> = c.offset_reference_pixels(t).take(px).copied().collect();
        n += iterator("offset_reference_pixels", || c.offset_reference_pixels(t), |x| *x, &want, full)?;
        let bits = |x: &f32| x.to_bits();
        let want: Vec<u32> = c.alpha_pixels(t).take(px).map(bits).collect();
        n += iterator("alpha_pixels", || c.alpha_pixels(t), bits, &want, full)?;
        let want: Vec<u32> = c.k_v_pixels(t).take(px).map(bits).collect();
        n += iterator("k_v_pixels", || c.k_v_pixels(t), bits, &want, full)?;
        let want: Vec<u32> = c.k_ta_pixels(t).take(px).map(bits).collect();
        n += iterator("k_ta_pixels", || c.k_ta_pixels(t), bits, &want, full)?;
        let p = pat(s);
        let want: Vec<Option<u32>> = c.access_pattern_compensation_pixels(p).take(px).map(|o| o.map(bits)).collect();
        n += iterator("access_pattern_compensation_pixels", || c.access_pattern_compensation_pixels(p), |o| o.map(bits), &want, full)?;
    }
    Ok(n)
}
