//! The documented formulas, evaluated in f64 together with a bound on the rounding error that any
//! single-precision evaluation of them may have.
use crate::cal::Cal;

/// Single-precision unit roundoff, and how many of them every operation is granted.
const U: f64 = 5.960464477539063e-8;
const K: f64 = 6.0;
/// Absolute error of results in the subnormal range.
const TINY: f64 = 1e-43;
const HUGE: f64 = 1e38;

#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub v: f64,
    pub e: f64,
}

impl Ev {
    /// A value that is exact in single precision.
    #[inline]
    pub fn x(v: f64) -> Ev {
        Ev { v, e: 0.0 }
    }
    /// A constant that is rounded to single precision.
    #[inline]
    pub fn c(v: f64) -> Ev {
        Ev { v, e: U * v.abs() }
    }
    /// Not determined (overflow, ill-conditioned).
    pub const UNKNOWN: Ev = Ev { v: 0.0, e: f64::INFINITY };
    #[inline]
    fn fin(v: f64, e: f64, mag: f64) -> Ev {
        let e = e + K * U * mag + TINY;
        if !(v.abs() + e < HUGE) && !v.is_nan() {
            return Ev::UNKNOWN;
        }
        Ev { v, e }
    }
    #[inline]
    pub fn powi(self, n: i32) -> Ev {
        let mut r = self;
        for _ in 1..n {
            r = r * self;
        }
        r
    }
    #[inline]
    pub fn root4(self) -> Ev {
        if self.v.is_nan() {
            return self;
        }
        if !self.e.is_finite() {
            return Ev::UNKNOWN;
        }
        if self.v < -self.e {
            return Ev { v: f64::NAN, e: 0.0 };
        }
        if self.v <= self.e {
            return Ev::UNKNOWN;
        }
        let v = self.v.sqrt().sqrt();
        let lo = (self.v - self.e).sqrt().sqrt();
        // The function is concave, so the lower side has the larger deviation.
        Ev::fin(v, v - lo, v)
    }
    #[inline]
    pub fn known(&self) -> bool {
        self.v.is_nan() || self.e.is_finite()
    }
    /// Whether a computed value agrees.
    #[inline]
    pub fn agrees(&self, got: f32) -> bool {
        if self.v.is_nan() {
            return got.is_nan();
        }
        if !self.e.is_finite() {
            return true;
        }
        ((got as f64) - self.v).abs() <= self.e
    }
}
impl std::ops::Add for Ev {
    type Output = Ev;
    #[inline]
    fn add(self, o: Ev) -> Ev {
        Ev::fin(self.v + o.v, self.e + o.e, self.v.abs() + o.v.abs())
    }
}
impl std::ops::Sub for Ev {
    type Output = Ev;
    #[inline]
    fn sub(self, o: Ev) -> Ev {
        Ev::fin(self.v - o.v, self.e + o.e, self.v.abs() + o.v.abs())
    }
}
impl std::ops::Mul for Ev {
    type Output = Ev;
    #[inline]
    fn mul(self, o: Ev) -> Ev {
        if !self.known() || !o.known() {
            return Ev::UNKNOWN;
        }
        let v = self.v * o.v;
        Ev::fin(v, self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e, v.abs())
    }
}
impl std::ops::Div for Ev {
    type Output = Ev;
    #[inline]
    fn div(self, o: Ev) -> Ev {
        if !self.known() || !o.known() {
            return Ev::UNKNOWN;
        }
        let b = o.v.abs();
        if !(b > 2.0 * o.e) && !o.v.is_nan() {
            return Ev::UNKNOWN;
        }
        let v = self.v / o.v;
        Ev::fin(v, (self.e + v.abs() * o.e) / (b - o.e), v.abs())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ram {
    pub vbe: i16,
    pub ptat: i16,
    pub vdd: i16,
    pub gain: i16,
    pub cp: i16,
}

/// What is the same for all pixels of a frame.
#[derive(Clone, Copy, Debug)]
pub struct Common {
    pub delta_v: Ev,
    pub v_dd: Ev,
    pub v_ptat_art: Ev,
    pub t_a: Ev,
    pub gain: Ev,
    pub em: Ev,
    pub em_one: bool,
    /// TGC times the IR value of the compensation pixel.
    pub cp_ir: Option<Ev>,
    pub t_ar: Ev,
    pub alpha_coeff: Ev,
    pub k_s_to: Ev,
    pub sp: usize,
    pub pat: usize,
}

const KELVIN: f64 = 273.15;

pub fn resolution_correction(cal_res: u8, cur_res: u8) -> f64 {
    2f64.powi(cal_res as i32 - cur_res as i32)
}

pub fn t_ar(t_a: Ev, t_r: Ev, em: Ev, em_one: bool) -> Ev {
    let ta4 = (t_a + Ev::c(KELVIN)).powi(4);
    if em_one {
        ta4
    } else {
        let tr4 = (t_r + Ev::c(KELVIN)).powi(4);
        tr4 - (tr4 - ta4) / em
    }
}

/// `v_dd_0` in the pixel formula is the documented 3.3 V.
pub fn v_ir(c: &Common, px: i16, off: f64, kv: f64, kta: f64, il: Option<f64>) -> Ev {
    let one = Ev::x(1.0);
    let mut g = Ev::x(px as f64) * c.gain;
    if let Some(i) = il {
        g = g + Ev::x(i);
    }
    let o = Ev::x(off)
        * (one + Ev::x(kta) * (c.t_a - Ev::x(25.0)))
        * (one + Ev::x(kv) * (c.v_dd - Ev::c(3.3)));
    (g - o) / c.em
}

pub fn pixel_t(v: Ev, alpha: Ev, t_ar: Ev, k_s_to: Ev) -> Ev {
    let one = Ev::x(1.0);
    let s_x = k_s_to * (alpha.powi(3) * v + alpha.powi(4) * t_ar).root4();
    (v / (alpha * (one - k_s_to * Ev::c(KELVIN)) + s_x) + t_ar).root4() - Ev::c(KELVIN)
}

/// The values common to a frame.
pub fn common(
    cal: &Cal,
    ram: &Ram,
    cur_res: u8,
    em: f32,
    t_r: Option<f32>,
    sp: u8,
    pat: u8,
) -> Common {
    let res = Ev::x(resolution_correction(cal.res, cur_res));
    let one = Ev::x(1.0);
    let k_v_dd = Ev::x(cal.k_v_dd);
    let delta_v = (Ev::x(ram.vdd as f64) - Ev::x(cal.v_dd_25)) / k_v_dd;
    let v_dd = res * delta_v + (res - one) * (Ev::x(cal.v_dd_25) / k_v_dd) + Ev::x(cal.v_dd_0);
    let v_ptat_art = Ev::x(ram.ptat as f64)
        / (Ev::x(ram.ptat as f64) * Ev::x(cal.alpha_ptat) + Ev::x(ram.vbe as f64))
        * Ev::x(262144.0);
    let t_a = (v_ptat_art / (one + Ev::x(cal.k_v_ptat) * delta_v) - Ev::x(cal.v_ptat_25))
        / Ev::x(cal.k_t_ptat)
        + Ev::x(25.0);
    let gain = Ev::x(cal.gain) / Ev::x(ram.gain as f64);
    let emv = Ev::x(em as f64);
    let t_r = match t_r {
        Some(t) => Ev::x(t as f64),
        None => t_a - Ev::x(cal.model.self_heating()),
    };
    let mut c = Common {
        delta_v,
        v_dd,
        v_ptat_art,
        t_a,
        gain,
        em: emv,
        em_one: em == 1.0,
        cp_ir: None,
        t_ar: t_ar(t_a, t_r, emv, em == 1.0),
        alpha_coeff: one + Ev::x(cal.k_s_ta) * (t_a - Ev::x(25.0)),
        k_s_to: Ev::x(cal.k_s_to[cal.model.basic_range()]),
        sp: sp as usize,
        pat: pat as usize,
    };
    if let Some(tgc) = cal.tgc {
        let s = sp as usize;
        c.cp_ir = Some(
            Ev::x(tgc)
                * v_ir(
                    &c,
                    ram.cp,
                    cal.offset_cp[s],
                    cal.kv_cp[s],
                    cal.kta_cp[s],
                    cal.il_cp[pat as usize][s],
                ),
        );
    }
    c
}

pub fn pixel_ir(cal: &Cal, c: &Common, p: usize, px: i16) -> Ev {
    let v = v_ir(
        c,
        px,
        cal.offset[c.sp][p],
        cal.kv[c.sp][p],
        cal.kta[c.sp][p],
        cal.il[c.pat][p],
    );
    match c.cp_ir {
        Some(x) => v - x,
        None => v,
    }
}

pub fn pixel_alpha(cal: &Cal, c: &Common, p: usize) -> Ev {
    let a = Ev::x(cal.alpha[c.sp][p]);
    let a = match cal.tgc {
        Some(t) => a - Ev::x(t) * Ev::x(cal.alpha_cp[c.sp]),
        None => a,
    };
    a * c.alpha_coeff
}

pub fn pixel_temp(cal: &Cal, c: &Common, p: usize, v: Ev) -> Ev {
    pixel_t(v, pixel_alpha(cal, c, p), c.t_ar, c.k_s_to)
}
