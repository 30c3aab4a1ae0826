//! C04: one-pass and two-pass processing agree.
use crate::cal::{Cal, UserCal};
use crate::checks::c03::{apply, effective, rigs, SETTINGS};
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::num::{self, Ram};
use crate::util::*;
use mlx9064x::calculations::*;
use mlx9064x::common::CalibrationData;
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::MelexisCamera;
use std::sync::Arc;

pub enum AnyCal {
    A(Box<Mlx90640Calibration>),
    B(Box<Mlx90641Calibration>),
    C(UserCal<0>),
    D(UserCal<1>),
}
pub struct Set {
    pub name: String,
    pub model: Model,
    pub clb: AnyCal,
    pub cal: Cal,
}
pub fn sets() -> Vec<Set> {
    let mut v = vec![];
    for m in Model::BOTH {
        for (n, ee) in eeproms(m) {
            let b = bytes(&ee);
            let clb = match m {
                Model::M640 => AnyCal::A(Box::new(Mlx90640Calibration::from_data(&b).expect("valid"))),
                Model::M641 => AnyCal::B(Box::new(Mlx90641Calibration::from_data(&b).expect("valid"))),
            };
            let cal = match &clb {
                AnyCal::A(c) => crate::cal::extract(m, &**c),
                AnyCal::B(c) => crate::cal::extract(m, &**c),
                _ => unreachable!(),
            };
            v.push(Set { name: format!("{} {n}", m.name()), model: m, clb, cal });
        }
        for k in 0..2 {
            let mut t = user_tables(m);
            if k == 1 {
                t.tgc = if t.tgc.is_some() { None } else { Some(-0.75) };
                t.res = 1;
            }
            let cal = cal_of(m, &t);
            let clb = match m {
                Model::M640 => AnyCal::C(UserCal(Arc::new(t))),
                Model::M641 => AnyCal::D(UserCal(Arc::new(t))),
            };
            v.push(Set { name: format!("{} user-defined {k}", m.name()), model: m, clb, cal });
        }
    }
    v
}

#[derive(Clone)]
pub struct Input {
    pub em: f32,
    pub t_r: Option<f32>,
    pub res: f32,
    pub data: Vec<u8>,
    pub ram: Ram,
    pub sp: u8,
    pub pat: u8,
    pub valid: Vec<bool>,
    pub len: usize,
}
fn ram(r: &Ram) -> RamData {
    RamData { t_a_v_be: r.vbe, t_a_ptat: r.ptat, v_dd_pixel: r.vdd, gain: r.gain, compensation_pixel: r.cp }
}

pub fn both<'a, C: CalibrationData<'a>>(c: &'a C, i: &Input, init: f32) -> (f32, Vec<f32>, f32, Vec<f32>, Vec<f32>) {
    let mut one = vec![init; i.len];
    let t1 = raw_pixels_to_temperatures(
        c, i.em, i.t_r, i.res, &i.data, ram(&i.ram), sp(i.sp), pat(i.pat), &mut i.valid.iter().copied(), &mut one,
    );
    let mut two = vec![init; i.len];
    let t2 = raw_pixels_to_ir_data(
        c, i.em, i.res, &i.data, ram(&i.ram), sp(i.sp), pat(i.pat), &mut i.valid.iter().copied(), &mut two,
    );
    let ir = two.clone();
    raw_ir_to_temperatures(c, i.em, t2, i.t_r, sp(i.sp), &mut i.valid.iter().copied(), &mut two);
    (t1, one, t2, ir, two)
}

fn check(ctx: &Ctx, s: &Set, i: &Input, cur: u8) -> bool {
    let name = || {
        format!(
            "{} pattern {} subpage {} em {} t_r {:?} resolution {cur} {:?} destination {} pixel bytes {} flags {}",
            s.name, i.pat, i.sp, i.em, i.t_r, i.ram, i.len, i.data.len(), i.valid.len()
        )
    };
    let run = |init: f32| {
        guard(|| match &s.clb {
            AnyCal::A(c) => both(&**c, i, init),
            AnyCal::B(c) => both(&**c, i, init),
            AnyCal::C(c) => both(c, i, init),
            AnyCal::D(c) => both(c, i, init),
        })
    };
    let (t1, one, t2, ir, two) = match run(S2) {
        Ok(r) => r,
        Err(e) => {
            ctx.fail(format!("{}: {e}", name()));
            return false;
        }
    };
    let c = num::common(&s.cal, &i.ram, cur, i.em, i.t_r, i.sp, i.pat);
    let near = |e: num::Ev, a: f32, b: f32| {
        same_bits(a.to_bits(), b.to_bits())
            || !e.v.is_nan() && (a as f64 - b as f64).abs() <= 2.0 * e.e
            || !e.known() && e.e.is_infinite()
    };
    if !near(c.t_a, t1, t2) {
        ctx.fail(format!("{}: ambient temperatures {t1} (one pass) and {t2} (two passes)", name()));
        return false;
    }
    for p in 0..i.len {
        let valid = i.valid.get(p).copied().unwrap_or(false) && p < i.data.len() / 2 && p < s.model.pixels();
        if !valid {
            for (v, what) in [(&one, "one pass"), (&ir, "IR pass"), (&two, "two passes")] {
                // Converting the raw image touches the flagged pixels of the image it is given.
                if v[p].to_bits() != S2.to_bits() && !(what == "two passes" && i.valid.get(p) == Some(&true)) {
                    ctx.fail(format!("{}: element {p} touched by the {what}", name()));
                    return false;
                }
            }
            continue;
        }
        if same_bits(one[p].to_bits(), two[p].to_bits()) && one[p].to_bits() != S2.to_bits() {
            continue;
        }
        let w = i16::from_be_bytes([i.data[2 * p], i.data[2 * p + 1]]);
        let v = num::pixel_ir(&s.cal, &c, p, w);
        let e = num::pixel_temp(&s.cal, &c, p, v);
        if !near(e, one[p], two[p]) || one[p].to_bits() == S2.to_bits() {
            ctx.fail(format!(
                "{}: pixel {p} (raw {w}): {} in one pass, {} in two passes",
                name(),
                one[p],
                two[p]
            ));
            return false;
        }
    }
    true
}

fn flags(m: Model, p: u8, s: u8) -> Vec<bool> {
    match m {
        Model::M640 => Mlx90640::pixels_in_subpage(sp(s), pat(p)).into_iter().collect(),
        Model::M641 => Mlx90641::pixels_in_subpage(sp(s), pat(p)).into_iter().collect(),
    }
}

pub fn run(ctx: &Ctx) {
    let q = !ctx.thorough;
    let step = if q { 64 } else { 8 };
    ctx.bound(format!("low-level functions: 9 calibrations x patterns x subpages x 4 resolutions x 4 settings x {} frames (every pixel takes that many raw values), frames in which every three neighbouring pixels have equal, ordinary and extreme words and runs of equal words, every one of the 65536 values of each frame word ({} per configuration), 5^5 combinations of boundary frame words, every destination/pixel-buffer/flag length around the image size, arbitrary flag patterns, every bfloat16 emissivity and reflected temperature and all pairs of 50 special values; driver calls: temperature image against raw image plus conversion", 65536 / step, 65536 / step));
    ctx.assume("differences up to the rounding bound of the documented formula (6 roundings per operation, both sides) count as agreement");
    let sets = match guard(sets) {
        Ok(s) => s,
        Err(e) => return ctx.fail(e),
    };
    let order = de_bruijn3(8);
    let mut jobs = vec![];
    for k in 0..sets.len() {
        for p in 0..2u8 {
            for s in 0..2u8 {
                for cur in 0..4u8 {
                    jobs.push((k, p, s, cur));
                }
            }
        }
    }
    par(ctx, jobs.len(), |j| {
        let (k, p, s, cur) = jobs[j];
        let set = &sets[k];
        let m = set.model;
        let d = dev(m, &base_ee(m));
        let base = ram_of(&d, s);
        let valid = flags(m, p, s);
        let n = m.pixels();
        let mut inp = Input {
            em: 1.0,
            t_r: None,
            res: num::resolution_correction(set.cal.res, cur) as f32,
            data: vec![0; 2 * n],
            ram: base,
            sp: s,
            pat: p,
            valid: valid.clone(),
            len: n,
        };
        let mut count = 0;
        let data = |f: u32| -> Vec<u8> {
            (0..n).flat_map(|i| (f as u16).wrapping_add((i as u16).wrapping_mul(40503)).to_be_bytes()).collect()
        };
        for set4 in 0..4 {
            inp.em = effective(&set.cal, SETTINGS[set4]);
            inp.t_r = SETTINGS[set4].1;
            inp.ram = base;
            let mut f = (j % step) as u32;
            while f < 65536 {
                inp.data = data(f);
                count += 1;
                if !check(ctx, set, &inp, cur) || ctx.stopped() {
                    return;
                }
                f += step as u32;
            }
            // Every three neighbouring pixels, and runs of equal words.
            if cur as usize == set4 {
                let letters = if j / 4 % 2 == 0 { [0u16, 1, 0xFFFF, 0x7FFF, 0x8000, 0xFF38, 0xFF39, 0x0400] } else { [0xFE00, 0xFE00, 0xFE08, 0x7F00, 0, 0x0063, 0x8001, 0xFDFE] };
                for shift in (0..512).step_by(if q { 2 } else { 1 }) {
                    for across in [1, 2, m.width()] {
                        inp.data = (0..n).flat_map(|i| letters[order[(i / across + i % across * 24 + shift) % 512]].to_be_bytes()).collect();
                        count += 1;
                        if !check(ctx, set, &inp, cur) || ctx.stopped() {
                            return;
                        }
                    }
                }
                for (a, b) in runs(m.width(), n, false).into_iter().skip(j % 3).step_by(if q { 8 } else { 1 }) {
                    let fill = [0u16, 0x7FFF, 0x8000, 0xFFFF, 0xFF00][(a + b) % 5];
                    inp.data = (0..n).flat_map(|i| if a <= i && i < b { fill } else { (i as u16).wrapping_mul(40503) >> 5 }.to_be_bytes()).collect();
                    count += 1;
                    if !check(ctx, set, &inp, cur) || ctx.stopped() {
                        return;
                    }
                }
            }
            // The frame words.
            inp.data = data(j as u32 * 977 + set4 as u32);
            inp.len = 40;
            for w in 0..5 {
                let mut v = ((j + 11 * set4) % step) as u32;
                while v < 65536 {
                    inp.ram = base;
                    let x = v as u16 as i16;
                    match w {
                        0 => inp.ram.vbe = x,
                        1 => inp.ram.ptat = x,
                        2 => inp.ram.vdd = x,
                        3 => inp.ram.gain = x,
                        _ => inp.ram.cp = x,
                    }
                    count += 1;
                    if !check(ctx, set, &inp, cur) || ctx.stopped() {
                        return;
                    }
                    v += step as u32;
                }
            }
            if cur == 2 {
                let e = [0i16, 1, -1, i16::MAX, i16::MIN];
                for x in 0..3125 {
                    inp.ram = Ram { vbe: e[x % 5], ptat: e[x / 5 % 5], vdd: e[x / 25 % 5], gain: e[x / 125 % 5], cp: e[x / 625] };
                    count += 1;
                    if !check(ctx, set, &inp, cur) {
                        return;
                    }
                }
            }
            inp.len = n;
        }
        // Sizes and flag patterns.
        inp.ram = base;
        if cur == 1 {
            inp.data = data(17);
            for len in (0..n + 40).step_by(if q { 7 } else { 1 }) {
                inp.len = len;
                count += 1;
                if !check(ctx, set, &inp, cur) {
                    return;
                }
            }
            inp.len = n;
            for bytes in (0..2 * n + 9).step_by(if q { 13 } else { 1 }) {
                inp.data = data(99);
                inp.data.resize(bytes, 0x31);
                count += 1;
                if !check(ctx, set, &inp, cur) {
                    return;
                }
            }
            inp.data = data(5);
            for v in (0..n + 9).step_by(if q { 11 } else { 1 }) {
                inp.valid = valid.clone();
                inp.valid.resize(v, true);
                count += 1;
                if !check(ctx, set, &inp, cur) {
                    return;
                }
            }
            for k in 0..200u64 {
                inp.valid = (0..n as u64).map(|i| mix(i * 1000 + k) % (2 + k % 5) == 0).collect();
                count += 1;
                if !check(ctx, set, &inp, cur) {
                    return;
                }
            }
        }
        ctx.st(count);
        ctx.tr(3 * count);
        ctx.tv(count);
        if j % 29 == 0 {
            ctx.sample(format!("{} pattern {p} subpage {s} resolution {cur}: {count} frames", set.name));
        }
    });
    settings(ctx, &sets);
    driver(ctx);
}

/// Emissivities and reflected temperatures of every magnitude.
fn settings(ctx: &Ctx, sets: &[Set]) {
    let special: Vec<f32> = [0.0f32, 1e-42, f32::MIN_POSITIVE, 1e-3, 0.02, 0.5, 0.89, 0.99999994, 1.0, 1.0000001, 1.05, 2.0, 17.25, 100.0, 273.0, 273.14999, 273.15, 273.16, 300.0, 1e4, 1e9, 1e20, f32::MAX, f32::INFINITY, f32::NAN]
        .iter()
        .flat_map(|v| [*v, -*v])
        .collect();
    let bf = |i: usize| f32::from_bits((i as u32) << 16);
    let mut pairs: Vec<(f32, Option<f32>)> = vec![];
    for e in &special {
        pairs.push((*e, None));
        pairs.extend(special.iter().map(|t| (*e, Some(*t))));
    }
    for i in 0..65536 {
        pairs.push((bf(i), [None, Some(25.0), Some(-40.0), Some(-300.0)][i % 4]));
        pairs.push(([1.0, 0.95, 0.5, 1.5][i % 4], Some(bf(i))));
    }
    par(ctx, 16 * sets.len(), |j| {
        let set = &sets[j % sets.len()];
        let m = set.model;
        let n = m.pixels();
        let (p, s) = ((j & 1) as u8, (j >> 1 & 1) as u8);
        let d = dev(m, &base_ee(m));
        let mut inp = Input {
            em: 1.0,
            t_r: None,
            res: num::resolution_correction(set.cal.res, 1) as f32,
            data: (0..n).flat_map(|i| (i as u16).wrapping_mul(40503).to_be_bytes()).collect(),
            ram: ram_of(&d, s),
            sp: s,
            pat: p,
            valid: flags(m, p, s),
            len: 36,
        };
        let mut count = 0;
        let mut k = j / sets.len();
        while k < pairs.len() {
            (inp.em, inp.t_r) = pairs[k];
            count += 1;
            if !check(ctx, set, &inp, 1) {
                return;
            }
            k += 16;
        }
        ctx.st(count);
        ctx.tr(3 * count);
        ctx.tv(count);
    });
}

/// The driver's temperature image against its raw image converted with the returned ambient
/// temperature.
fn driver(ctx: &Ctx) {
    let mut jobs = vec![];
    for m in Model::BOTH {
        for p in 0..2u8 {
            for res in 0..4 {
                match guard(|| rigs(m, p, res)) {
                    Ok(Ok(v)) => jobs.extend(v.into_iter().map(|r| (r, p))),
                    Ok(Err(e)) | Err(e) => return ctx.fail(e),
                }
            }
        }
    }
    par(ctx, jobs.len(), |j| {
        let (r, p) = &jobs[j];
        let m = r.model;
        let n = m.pixels();
        let mut count = 0;
        for s in 0..2u8 {
            for set in SETTINGS {
                for f in 0..if ctx.thorough { 256u16 } else { 16 } {
                    let mut drv = r.drv.clone();
                    apply(&mut drv, set);
                    let mut w = r.world.clone();
                    announce(w.dev(), s);
                    for i in 0..m.ram_words() {
                        let a = RAM_BASE + i as u16;
                        if ![m.vbe(), m.ptat(), m.vdd(), m.gain(), m.cp(0), m.cp(1)].contains(&a) {
                            w.dev().ram[i] = w.dev().ram[i].wrapping_add(f.wrapping_mul(4001));
                        }
                    }
                    let name = || format!("{} pattern {p} subpage {s} settings {set:?} frame {f}", r.name);
                    let d = w.devs[0].clone();
                    let em = effective(&r.cal, set);
                    let c = num::common(&r.cal, &ram_of(&d, s), d.resolution(), em, set.1, s, *p);
                    let raw = match shot(&drv, &w, Op::Raw(s), n) {
                        Ok(x) => x,
                        Err(e) => return ctx.fail(format!("{}: {e}", name())),
                    };
                    let Some(t_a) = raw.ambient else {
                        return ctx.fail(format!("{}: no ambient temperature", name()));
                    };
                    let mut conv = raw.px.clone();
                    let valid = flags(m, *p, s);
                    let res = guard(|| match &drv {
                        Drv::A(_) | Drv::C(_) => {
                            let t = UserCal::<0>(Arc::new(crate::cal::Tables::of(&r.cal)));
                            raw_ir_to_temperatures(&t, em, t_a, set.1, sp(s), &mut valid.iter().copied(), &mut conv);
                        }
                        _ => {
                            let t = UserCal::<1>(Arc::new(crate::cal::Tables::of(&r.cal)));
                            raw_ir_to_temperatures(&t, em, t_a, set.1, sp(s), &mut valid.iter().copied(), &mut conv);
                        }
                    });
                    if let Err(e) = res {
                        return ctx.fail(format!("{}: {e}", name()));
                    }
                    for op in [Op::Temp(s), Op::Image, Op::IfReady] {
                        let t = match shot(&drv, &w, op, n) {
                            Ok(x) => x,
                            Err(e) => return ctx.fail(format!("{}: {e}", name())),
                        };
                        count += 1;
                        let ta2 = t.ambient.unwrap_or(f32::NAN);
                        if !same_bits(t_a.to_bits(), ta2.to_bits()) && (t_a as f64 - ta2 as f64).abs() > 2.0 * c.t_a.e {
                            return ctx.fail(format!("{}: ambient temperature {t_a} for the raw image, {ta2} for {op:?}", name()));
                        }
                        for px in 0..n {
                            let (a, b) = (t.px[px], conv[px]);
                            if same_bits(a.to_bits(), b.to_bits()) {
                                continue;
                            }
                            let e = num::pixel_temp(&r.cal, &c, px, num::pixel_ir(&r.cal, &c, px, d.word(m.pixel_addr(s, px)) as i16));
                            if (a as f64 - b as f64).abs() <= 2.0 * e.e || !e.known() {
                                continue;
                            }
                            return ctx.fail(format!("{}: pixel {px} is {a} from {op:?} but {b} when converting the raw image", name()));
                        }
                    }
                }
            }
        }
        ctx.st(count);
        ctx.tr(2 * count);
        ctx.tv(count);
    });
}
