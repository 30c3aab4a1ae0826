//! C03: IR data, temperatures and ambient temperature follow the documented formulas.
use crate::cal::{Cal, Tables, UserCal};
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::num::{self, Ev};
use crate::util::*;
use mlx9064x::calculations as calc;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::MelexisCamera;
use std::sync::Arc;

/// Every calibration the formulas are checked with, attached with the given pattern and resolution.
pub fn rigs(m: Model, pat: u8, res: u8) -> Result<Vec<Rig>, String> {
    let mut v = vec![];
    let set = |d: &mut Dev| set_control(d, pat, res);
    for (n, ee) in eeproms(m) {
        v.push(rig(m, n, &ee, set)?);
    }
    let t = user_tables(m);
    v.push(rig_user(m, "user-defined", &t, set)?);
    let mut u = t.clone();
    u.tgc = if u.tgc.is_some() { None } else { Some(-0.75) };
    u.res = 0;
    u.v_dd_0 = 3.1;
    u.k_s_to = u.k_s_to.iter().enumerate().map(|(i, x)| x * (1.0 + 0.2 * i as f32)).collect();
    v.push(rig_user(m, "user-defined, TGC toggled", &u, set)?);
    let mut u = t.clone();
    u.tgc = Some(1.25);
    u.res = 3;
    u.k_s_ta = -0.004;
    u.k_v_dd = -2816;
    u.v_dd_25 = -13056;
    u.emissivity = None;
    for p in 0..2 {
        for x in u.il[p].iter_mut() {
            *x = x.map(|y| -2.0 * y);
        }
    }
    v.push(rig_user(m, "user-defined, strong TGC", &u, set)?);
    let mut u = t.clone();
    u.tgc = Some(0.03125);
    u.k_s_ta = 3e-5;
    u.k_v_ptat = -2e-5;
    u.k_s_to = u.k_s_to.iter().map(|_| 2e-4).collect();
    u.kv.iter_mut().flatten().for_each(|x| *x *= -0.01);
    u.kta.iter_mut().flatten().for_each(|x| *x *= -0.01);
    u.il.iter_mut().flatten().for_each(|x| *x = x.map(|y| 0.01 * y));
    v.push(rig_user(m, "user-defined, small coefficients", &u, set)?);
    Ok(v)
}

/// The session settings used with each configuration.
pub const SETTINGS: [(Option<f32>, Option<f32>); 4] =
    [(None, None), (Some(0.95), None), (Some(0.95), Some(17.25)), (Some(0.31), Some(-21.0))];

pub fn apply(drv: &mut Drv, set: (Option<f32>, Option<f32>)) {
    if let Some(e) = set.0 {
        drv.q(Op::Override(e));
    }
    drv.q(Op::SetReflected(set.1));
}
pub fn effective(cal: &Cal, set: (Option<f32>, Option<f32>)) -> f32 {
    set.0.unwrap_or(cal.emissivity.map(|e| e as f32).unwrap_or(1.0))
}

/// Compare one image with the formulas.  Returns how many values were comparable.
pub fn compare(r: &Rig, d: &Dev, c: &num::Common, sp: u8, op: Op, got: &Shot) -> Result<u64, String> {
    compare_cal(r.model, &r.cal, d, c, sp, op, got)
}
pub fn compare_cal(model: Model, cal: &Cal, d: &Dev, c: &num::Common, sp: u8, op: Op, got: &Shot) -> Result<u64, String> {
    if got.ret != Ret::Unit && got.ret != Ret::Bool(true) {
        return Err(format!("returned {:?}", got.ret));
    }
    let pat = d.pattern();
    let temp = !matches!(op, Op::Raw(_));
    match got.ambient {
        None => return Err("no ambient temperature".into()),
        Some(a) => {
            if !c.t_a.agrees(a) {
                return Err(format!("ambient temperature {a} instead of {:?}", c.t_a));
            }
        }
    }
    let mut known = 0;
    for p in 0..model.pixels().min(got.px.len()) {
        if !model.in_subpage(pat, sp, p) {
            continue;
        }
        let w = d.word(model.pixel_addr(sp, p)) as i16;
        let v = num::pixel_ir(cal, c, p, w);
        let v = if temp { num::pixel_temp(cal, c, p, v) } else { v };
        known += v.known() as u64;
        if !v.agrees(got.px[p]) {
            return Err(format!(
                "pixel {p} (RAM word {w}): {} is {} instead of {} (tolerance {:e})",
                if temp { "temperature" } else { "IR value" },
                got.px[p],
                v.v,
                v.e
            ));
        }
    }
    Ok(known)
}

fn common(r: &Rig, d: &Dev, sp: u8, set: (Option<f32>, Option<f32>)) -> num::Common {
    num::common(&r.cal, &ram_of(d, sp), d.resolution(), effective(&r.cal, set), set.1, sp, d.pattern())
}

pub fn run(ctx: &Ctx) {
    let q = !ctx.thorough;
    ctx.bound(format!(
        "(A) 7 calibrations per MLX90640 and 6 per MLX90641 x patterns x subpages x 4 settings: every pixel takes {} of the 65536 RAM values, IR and temperature; (B) each shared word: {} values per configuration of calibration x resolution x subpage x settings; (C) all combinations of 7 boundary values of the five shared words; (D) every bfloat16 emissivity and reflected temperature, and 384 values at distances of 2^-k from round ones; (E) the low-level functions on grids; (F) frames in which every three neighbouring pixels (in a row, in a column, in the order of the subpage) have words out of two sets of 8 equal, extreme and ordinary ones (quick: half of the positions), and runs of equal words in ordinary frames; (G) an image for every content of the control register (quick: a third of those with reserved or unrelated bits set)",
        if q { 4096 } else { 65536 },
        if q { "8192 (rotating, together all 65536)" } else { "all 65536" }
    ));
    ctx.assume("values count as equal up to a running bound of 6 single-precision roundings per operation; where that bound is infinite (overflow or complete cancellation) nothing is compared");
    ctx.assume("the supply voltage reference in the offset formula is the documented 3.3 V and the ambient temperature uses the uncorrected delta V, as the crate documents");
    frames(ctx, if q { 16 } else { 1 });
    shared(ctx, if q { 8 } else { 1 });
    corners(ctx);
    settings(ctx);
    functions(ctx);
    neighbours(ctx, q);
    controls(ctx, Look::Values);
}

/// Frames in which neighbouring pixels have equal, extreme or alternating words.
fn neighbours(ctx: &Ctx, q: bool) {
    let letters = [
        [0u16, 1, 0xFFFF, 0x7FFF, 0x8000, 0xFF38, 0xFF39, 0x0400],
        [0xFE00, 0xFE00, 0xFE08, 0x7F00, 0, 0x0063, 0x8001, 0xFDFE],
    ];
    let order = de_bruijn3(8);
    let mut jobs = vec![];
    for m in Model::BOTH {
        for p in 0..2u8 {
            match guard(|| rigs(m, p, 2)) {
                Ok(Ok(v)) => {
                    for (i, r) in v.into_iter().enumerate() {
                        for s in 0..2u8 {
                            jobs.push((r.clone(), i, p, s));
                        }
                    }
                }
                Ok(Err(e)) | Err(e) => return ctx.fail(e),
            }
        }
    }
    par(ctx, jobs.len() * 8, |j| {
        let (r, i, p, s) = &jobs[j / 8];
        let (s, m, set) = (*s, r.model, SETTINGS[(i + j) % SETTINGS.len()]);
        let mut drv = r.drv.clone();
        apply(&mut drv, set);
        let mut w = World { horizon: usize::MAX, ..r.world.clone() };
        let c = common(r, w.dev(), s, set);
        let (width, pixels) = (m.width(), m.pixels());
        let mut plans: Vec<Box<dyn Fn(usize) -> u16>> = vec![];
        // Every three neighbours, at every position.
        for shift in (j % 8..512).step_by(8) {
            for (k, l) in letters.iter().enumerate() {
                let order = &order;
                if !q || (shift / 8 + k + i) % 2 == 0 {
                    plans.push(Box::new(move |x| l[order[(x + shift) % 512]]));
                    plans.push(Box::new(move |x| l[order[(x % width * (pixels / width) + x / width + shift) % 512]]));
                    // In the order in which the subpage is measured.
                    plans.push(Box::new(move |x| l[order[(x / 2 + shift) % 512]]));
                }
            }
        }
        // Runs of equal words in an ordinary frame.
        for (n, (a, b)) in runs(width, pixels, false).into_iter().enumerate() {
            if n % 8 == j % 8 && (!q || (n / 8 + i) % 4 == 0) {
                let fill = [0, 0x7FFF, 0x8000, 0xFFFF, 0xFF00][n / 128 % 5];
                let odd = n / 128 % 3 == 0;
                plans.push(Box::new(move |x| if (a <= x && x < b) != odd { fill } else { (x as u16).wrapping_mul(40503) >> 5 }));
            }
        }
        let (mut n, mut known) = (0, 0);
        for (k, plan) in plans.iter().enumerate() {
            for x in 0..pixels {
                let a = m.pixel_addr(s, x);
                if ![m.vbe(), m.ptat(), m.vdd(), m.gain(), m.cp(0), m.cp(1)].contains(&a) {
                    w.dev().ram[(a - RAM_BASE) as usize] = plan(x);
                }
            }
            for op in [Op::Raw(s), Op::Temp(s)] {
                let (x, w2) = match shot_mut(&mut drv, w, op, pixels) {
                    Ok(x) => x,
                    Err(e) => return ctx.fail(format!("{} {op:?}: {e}", r.name)),
                };
                w = w2;
                match compare(r, w.dev(), &c, s, op, &x) {
                    Ok(k) => known += k,
                    Err(e) => return ctx.fail(format!("{} pattern {p} settings {set:?} {op:?}, frame {k} of equal and extreme neighbours: {e}", r.name)),
                }
                n += 1;
            }
            if ctx.stopped() {
                return;
            }
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
        ctx.count("pixel_values_compared", known);
    });
}

/// What to look at for every content of the control register.
#[derive(Clone, Copy, PartialEq)]
pub enum Look {
    /// Which elements are stored.
    Stored,
    /// Which RAM words they depend on.
    Words,
    /// Their values.
    Values,
}

/// Images for every content of the control register, found at construction or noticed later.
pub fn controls(ctx: &Ctx, look: Look) {
    let every = if ctx.thorough { 1 } else { 3 };
    for m in Model::BOTH {
        let cal = base_cal(m);
        let n = m.pixels();
        par(ctx, 256, |j| {
            for lo in 0..256u16 {
                let ctl = (j as u16) << 8 | lo;
                // In the quick tier the reserved bits only follow some of the others.
                if ctl & 0xE060 != 0 && mix(ctl as u64) % every != 0 {
                    continue;
                }
                let late = ctl.count_ones() % 2 == 1;
                let s = (mix(ctl as u64) >> 9 & 1) as u8;
                let mut d = dev(m, &base_ee(m));
                if !late {
                    d.control = ctl;
                }
                announce(&mut d, s);
                let what = |op: Op| format!("{} control register {ctl:#06x} {}, {op:?}", m.name(), if late { "noticed later" } else { "found at construction" });
                let (mut drv, w) = match attach(d) {
                    Ok(x) => x,
                    Err(e) => return ctx.fail(format!("{}: {e}", what(Op::Dims))),
                };
                let mut w = Some(w);
                if late {
                    if let Some(w) = w.as_mut() {
                        w.dev().control = ctl;
                    }
                    drv.q_in(&mut w, Op::GetHold);
                }
                let Some(mut w) = w else { return };
                let d = w.dev().clone();
                let op = [Op::Temp(s), Op::Raw(s), Op::IfReady, Op::Image][(mix(ctl as u64) >> 17 & 3) as usize];
                let mut get = |w: &World| shot(&drv, w, op, n).map_err(|e| format!("{}: {e}", what(op)));
                let base = match get(&w) {
                    Ok(x) => x,
                    Err(e) => return ctx.fail(e),
                };
                let mine = |p: usize| m.in_subpage(d.pattern(), s, p);
                ctx.st(1);
                ctx.tr(1);
                ctx.tv(1);
                match look {
                    Look::Stored => {
                        if let Some(p) = (0..n).find(|p| mine(*p) != (base.px[*p].to_bits() != S1.to_bits())) {
                            return ctx.fail(format!("{}: pixel {p} {}", what(op), if mine(p) { "is not stored" } else { "is stored, which is not of the subpage" }));
                        }
                    }
                    Look::Values => {
                        let c = num::common(&cal, &ram_of(&d, s), d.resolution(), effective(&cal, (None, None)), None, s, d.pattern());
                        if let Err(e) = compare_cal(m, &cal, &d, &c, s, op, &base) {
                            return ctx.fail(format!("{}: {e}", what(op)));
                        }
                    }
                    Look::Words => {
                        let own: Vec<Option<usize>> = {
                            let mut o = vec![None; RAM_MAX];
                            (0..n).filter(|p| mine(*p)).for_each(|p| o[(m.pixel_addr(s, p) - RAM_BASE) as usize] = Some(p));
                            o
                        };
                        // First all words that no pixel depends on, then the words of half of the
                        // pixels, chosen by each bit of their number.
                        for bit in 0..=10 {
                            let hit = |p: usize| bit > 0 && p >> (bit - 1) & 1 == 1;
                            for i in 0..m.ram_words() {
                                let a = RAM_BASE + i as u16;
                                let shared = [m.vbe(), m.ptat(), m.vdd(), m.gain(), m.cp(s)].contains(&a);
                                w.dev().ram[i] = d.ram[i]
                                    ^ match own[i] {
                                        Some(p) if hit(p) => 0x00FF,
                                        None if bit == 0 && !shared => 0x00FF,
                                        _ => 0,
                                    };
                            }
                            let x = match get(&w) {
                                Ok(x) => x,
                                Err(e) => return ctx.fail(e),
                            };
                            for p in 0..n {
                                let changed = x.px[p].to_bits() != base.px[p].to_bits();
                                if changed != (mine(p) && hit(p)) {
                                    let not = if changed { "" } else { " not" };
                                    return ctx.fail(format!("{}: changing {} does{not} change pixel {p}", what(op), if bit == 0 { "words of no pixel".to_string() } else { format!("the words of the pixels with bit {} set", bit - 1) }));
                                }
                            }
                            ctx.tr(1);
                        }
                    }
                }
            }
        });
    }
}

fn frames(ctx: &Ctx, step: usize) {
    let mut jobs = vec![];
    for m in Model::BOTH {
        for p in 0..2u8 {
            for res in 0..4u8 {
                // Resolutions other than the default with one calibration each.
                match guard(|| rigs(m, p, res)) {
                    Ok(Ok(v)) => {
                        for (i, r) in v.into_iter().enumerate() {
                            if res == 2 || i == res as usize {
                                for s in 0..2u8 {
                                    for k in 0..SETTINGS.len() {
                                        jobs.push((r.clone(), p, res, s, k));
                                    }
                                }
                            }
                        }
                    }
                    Ok(Err(e)) | Err(e) => return ctx.fail(e),
                }
            }
        }
    }
    par(ctx, jobs.len(), |j| {
        let (r, p, res, s, k) = &jobs[j];
        let (s, set) = (*s, SETTINGS[*k]);
        let m = r.model;
        let mut drv = r.drv.clone();
        apply(&mut drv, set);
        let mut w = World { horizon: usize::MAX, ..r.world.clone() };
        let c = common(r, w.dev(), s, set);
        let (mut n, mut known) = (0, 0);
        let mut f = j % step;
        while f < 65536 {
            for i in 0..m.ram_words() {
                let a = RAM_BASE + i as u16;
                // Pixel words only.
                if i < m.pixels() * if m == Model::M640 { 1 } else { 2 }
                    && ![m.vbe(), m.ptat(), m.vdd(), m.gain(), m.cp(0), m.cp(1)].contains(&a)
                {
                    w.dev().ram[i] = (f as u16).wrapping_add((i as u16).wrapping_mul(40503));
                }
            }
            for op in [Op::Raw(s), Op::Temp(s)] {
                let out = shot_mut(&mut drv, w, op, m.pixels());
                let (x, w2) = match out {
                    Ok(x) => x,
                    Err(e) => return ctx.fail(format!("{} {op:?}: {e}", r.name)),
                };
                w = w2;
                match compare(r, w.dev(), &c, s, op, &x) {
                    Ok(k) => known += k,
                    Err(e) => {
                        return ctx.fail(format!(
                            "{} pattern {p} resolution {res:?} settings {set:?} {op:?} frame {f}: {e}",
                            r.name,
                        ))
                    }
                }
                n += 1;
            }
            if ctx.stopped() {
                return;
            }
            f += step;
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
        ctx.count("pixel_values_compared", known);
        if j % 61 == 0 {
            ctx.sample(format!("{} pattern {p} resolution {res} subpage {s} settings {set:?}: {n} images", r.name));
        }
    });
}

fn shared(ctx: &Ctx, step: usize) {
    let mut jobs = vec![];
    for m in Model::BOTH {
        for res in 0..4u8 {
            for p in 0..2u8 {
                if m == Model::M641 && p == 1 {
                    continue;
                }
                match guard(|| rigs(m, p, res)) {
                    Ok(Ok(v)) => {
                        for (i, r) in v.into_iter().enumerate() {
                            for w in 0..5usize {
                                jobs.push((r.clone(), (i as u8 + p) & 1, w, (i + res as usize + w) % 4));
                            }
                        }
                    }
                    Ok(Err(e)) | Err(e) => return ctx.fail(e),
                }
            }
        }
    }
    par(ctx, jobs.len(), |j| {
        let (r, s, word, k) = &jobs[j];
        let (s, set) = (*s, SETTINGS[*k]);
        let m = r.model;
        let mut drv = r.drv.clone();
        apply(&mut drv, set);
        let mut w = World { horizon: usize::MAX, ..r.world.clone() };
        let a = [m.vbe(), m.ptat(), m.vdd(), m.gain(), m.cp(s)][*word];
        let mut v = (j / 5) % step;
        let (mut n, mut known) = (0, 0);
        while v < 65536 {
            w.dev().set_word(a, v as u16);
            let c = common(r, w.dev(), s, set);
            let op = if v & 1 == (v >> 8) & 1 { Op::Raw(s) } else { Op::Temp(s) };
            for op in if step == 1 { vec![Op::Raw(s), Op::Temp(s)] } else { vec![op] } {
                let (x, w2) = match shot_mut(&mut drv, w, op, 36) {
                    Ok(x) => x,
                    Err(e) => return ctx.fail(format!("{} {op:?}: {e}", r.name)),
                };
                w = w2;
                match compare(r, w.dev(), &c, s, op, &x) {
                    Ok(k) => known += k,
                    Err(e) => {
                        return ctx.fail(format!(
                            "{} control {:#06x} settings {set:?} {op:?} with RAM word {a:#06x} = {v:#06x}: {e}",
                            r.name,
                            w.dev().control
                        ))
                    }
                }
                n += 1;
            }
            v += step;
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
        ctx.count("pixel_values_compared", known);
    });
}

fn corners(ctx: &Ctx) {
    let mut jobs = vec![];
    for m in Model::BOTH {
        match guard(|| rigs(m, (m == Model::M640) as u8, 2)) {
            Ok(Ok(v)) => jobs.extend(v.into_iter().flat_map(|r| (0..14).map(move |i| (r.clone(), i)))),
            Ok(Err(e)) | Err(e) => return ctx.fail(e),
        }
    }
    par(ctx, jobs.len(), |j| {
        let (r, i) = &jobs[j];
        let s = (i & 1) as u8;
        let m = r.model;
        let set = SETTINGS[j % 4];
        let mut drv = r.drv.clone();
        apply(&mut drv, set);
        let mut w = World { horizon: usize::MAX, ..r.world.clone() };
        let addr = [m.vbe(), m.ptat(), m.vdd(), m.gain(), m.cp(s)];
        let typ = addr.map(|a| w.dev().word(a));
        let vals = |k: usize| [typ[k], 0, 1, 0xFFFF, 0x7FFF, 0x8000, typ[k] ^ 0x0155];
        let (mut n, mut known) = (0, 0);
        for x in 0..7usize.pow(4) {
            let ix = [i / 2, x % 7, x / 7 % 7, x / 49 % 7, x / 343 % 7];
            for k in 0..5 {
                w.dev().set_word(addr[k], vals(k)[ix[k]]);
            }
            let c = common(r, w.dev(), s, set);
            for op in [Op::Raw(s), Op::Temp(s)] {
                let (g, w2) = match shot_mut(&mut drv, w, op, 6) {
                    Ok(x) => x,
                    Err(e) => return ctx.fail(format!("{} {op:?}: {e}", r.name)),
                };
                w = w2;
                match compare(r, w.dev(), &c, s, op, &g) {
                    Ok(k) => known += k,
                    Err(e) => {
                        return ctx.fail(format!(
                            "{} settings {set:?} {op:?} with {:?}: {e}",
                            r.name,
                            ram_of(w.dev(), s)
                        ))
                    }
                }
                n += 1;
            }
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
        ctx.count("pixel_values_compared", known);
    });
}

fn settings(ctx: &Ctx) {
    let mut jobs = vec![];
    for m in Model::BOTH {
        match guard(|| rigs(m, (m == Model::M640) as u8, 1)) {
            Ok(Ok(v)) => jobs.extend(v.into_iter().flat_map(|r| (0..16).map(move |i| (r.clone(), i)))),
            Ok(Err(e)) | Err(e) => return ctx.fail(e),
        }
    }
    const T_R: [Option<f32>; 4] = [None, Some(25.0), Some(-40.0), Some(300.0)];
    const EM: [f32; 4] = [1.0, 0.95, 0.5, 1.5];
    par(ctx, jobs.len(), |j| {
        let (r, i) = &jobs[j];
        let m = r.model;
        let s = (i & 1) as u8;
        let mut w = World { horizon: usize::MAX, ..r.world.clone() };
        let mut drv = r.drv.clone();
        let mut n = 0;
        for v in (i >> 1) * 8192..((i >> 1) + 1) * 8192 {
            let x = f32::from_bits((v as u32) << 16);
            // The value as an emissivity, then as a reflected temperature.
            let sets = [(Some(x), T_R[v % 4]), (Some(EM[v % 4]), Some(x))];
            for set in sets {
                apply(&mut drv, set);
                let c = common(r, w.dev(), s, set);
                for op in [Op::Raw(s), Op::Temp(s)] {
                    let (g, w2) = match shot_mut(&mut drv, w, op, 6) {
                        Ok(x) => x,
                        Err(e) => return ctx.fail(format!("{} {op:?}: {e}", r.name)),
                    };
                    w = w2;
                    if let Err(e) = compare(r, w.dev(), &c, s, op, &g) {
                        return ctx.fail(format!("{} settings {set:?} {op:?}: {e}", r.name));
                    }
                    n += 1;
                }
            }
        }
        // Emissivities (and then reflected temperatures) next to round values, closer than a
        // bfloat16 can be.
        for k in 0..48u32 {
            for round in [1.0f32, 0.5, 0.95, 2.0, 0.1, -1.0, 0.25, 0.97] {
                let by = 0.5f32.powi(k as i32 / 2 + 1);
                let x = if k % 2 == 0 { round * (1.0 + by) } else { round * (1.0 - by) };
                let t_r = x * [25.0, 20.0, -40.0, 300.0][k as usize % 4];
                for set in [(Some(x), Some(350.0)), (Some(x), Some(t_r)), (Some(0.6), Some(t_r)), (Some(x), None)] {
                    apply(&mut drv, set);
                    let c = common(r, w.dev(), s, set);
                    for op in [Op::Raw(s), Op::Temp(s)] {
                        let (g, w2) = match shot_mut(&mut drv, w, op, 6) {
                            Ok(x) => x,
                            Err(e) => return ctx.fail(format!("{} {op:?}: {e}", r.name)),
                        };
                        w = w2;
                        if let Err(e) = compare(r, w.dev(), &c, s, op, &g) {
                            return ctx.fail(format!("{} settings {set:?} {op:?}: {e}", r.name));
                        }
                        n += 1;
                    }
                }
            }
        }
        let _ = m;
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    });
}

/// The exported building blocks.
fn functions(ctx: &Ctx) {
    let fail = |what: &str, e: Ev, got: f32| ctx.fail(format!("{what}: {got} instead of {} (tolerance {:e})", e.v, e.e));
    let x = |v: f32| Ev::x(v as f64);
    // Resolution correction.
    for a in 0..4u8 {
        for b in 0..4u8 {
            let want = num::resolution_correction(a, b);
            let (ra, rb) = (RESOLUTIONS[a as usize], RESOLUTIONS[b as usize]);
            for got in [Mlx90640::resolution_correction(ra, rb), Mlx90641::resolution_correction(ra, rb)] {
                ctx.check(got as f64 == want, || {
                    format!("resolution_correction({ra:?}, {rb:?}) is {got} instead of {want}")
                });
                ctx.tv(1);
            }
        }
    }
    // Functions of the calibration and of RAM words.
    let m = Model::M640;
    let mut tables: Vec<Tables> = vec![user_tables(m)];
    for (k_v_dd, v_dd_25) in [(-3168, -13056), (32, 32704), (-4096, -32768), (-1, 0), (4064, -1)] {
        let mut t = user_tables(m);
        t.k_v_dd = k_v_dd;
        t.v_dd_25 = v_dd_25;
        t.alpha_ptat = 8.0 + (k_v_dd.rem_euclid(16)) as f32 * 0.25;
        t.k_v_ptat = k_v_dd as f32 / 1e6;
        t.k_t_ptat = v_dd_25 as f32 / 300.0 + 0.5;
        t.v_ptat_25 = 12000.0 + v_dd_25 as f32 / 8.0;
        t.v_dd_0 = 3.3 + k_v_dd as f32 / 10000.0;
        tables.push(t);
    }
    let edge = |n: usize| -> Vec<i16> {
        let mut v: Vec<i16> = vec![0, 1, -1, 2, -2, 127, 128, -128, -129, 255, 256, i16::MIN, i16::MIN + 1, i16::MAX, i16::MAX - 1];
        v.extend((0..n).map(|i| (mix(i as u64) & 0xFFFF) as u16 as i16));
        v
    };
    let others = edge(if ctx.thorough { 1000 } else { 40 });
    par(ctx, tables.len() * 16, |j| {
        let t = &tables[j / 16];
        let clb = UserCal::<0>(Arc::new(t.clone()));
        let mut n = 0;
        for v in (j % 16) * 4096..(j % 16 + 1) * 4096 {
            let w = v as u16 as i16;
            let r = guard(|| {
                let dv = calc::delta_v(&clb, w);
                let e = (Ev::x(w as f64) - Ev::x(t.v_dd_25 as f64)) / Ev::x(t.k_v_dd as f64);
                if !e.agrees(dv) {
                    fail(&format!("delta_v({w})"), e, dv);
                }
                for res in [0.125f32, 0.25, 0.5, 1.0, 2.0, 4.0, 8.0] {
                    let e = x(res) * x(dv) + (x(res) - Ev::x(1.0)) * (Ev::x(t.v_dd_25 as f64) / Ev::x(t.k_v_dd as f64)) + x(t.v_dd_0);
                    let g = calc::v_dd(&clb, res, dv);
                    if !e.agrees(g) {
                        fail(&format!("v_dd({res}, {dv})"), e, g);
                    }
                }
                for o in &others {
                    for (a, b) in [(w, *o), (*o, w)] {
                        let g = calc::v_ptat_art(&clb, a, b);
                        let e = Ev::x(a as f64) / (Ev::x(a as f64) * x(t.alpha_ptat) + Ev::x(b as f64)) * Ev::x(262144.0);
                        if !e.agrees(g) {
                            fail(&format!("v_ptat_art({a}, {b})"), e, g);
                        }
                        if g.is_finite() {
                            let g2 = calc::ambient_temperature(&clb, g, dv);
                            let e = (x(g) / (Ev::x(1.0) + x(t.k_v_ptat) * x(dv)) - x(t.v_ptat_25)) / x(t.k_t_ptat) + Ev::x(25.0);
                            if !e.agrees(g2) {
                                fail(&format!("ambient_temperature({g}, {dv})"), e, g2);
                            }
                            let g3 = calc::sensitivity_correction_coefficient(&clb, g2);
                            let e = Ev::x(1.0) + x(t.k_s_ta) * (x(g2) - Ev::x(25.0));
                            if !e.agrees(g3) {
                                fail(&format!("sensitivity_correction_coefficient({g2})"), e, g3);
                            }
                        }
                    }
                }
            });
            n += 8 + 6 * others.len() as u64;
            if let Err(e) = r {
                ctx.fail(format!("low-level function with {w}: {e}"));
            }
            if ctx.stopped() {
                return;
            }
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    });
    // CommonIrData::new
    par(ctx, tables.len(), |j| {
        let t = &tables[j];
        let clb = UserCal::<0>(Arc::new(t.clone()));
        let cal = cal_of(m, t);
        let ws = edge(10);
        let mut n = 0;
        for (i, a) in ws.iter().enumerate() {
            for b in &ws {
                for c in &ws {
                    let ram = calc::RamData {
                        t_a_v_be: ws[(i * 7 + 3) % ws.len()],
                        t_a_ptat: *a,
                        v_dd_pixel: *b,
                        gain: *c,
                        compensation_pixel: 5,
                    };
                    for cur in 0..4u8 {
                        let res = num::resolution_correction(t.res, cur) as f32;
                        let g = match guard(|| calc::CommonIrData::new(res, 0.875, &clb, &ram)) {
                            Ok(g) => g,
                            Err(e) => return ctx.fail(format!("CommonIrData::new({ram:?}): {e}")),
                        };
                        let r = num::Ram { vbe: ram.t_a_v_be, ptat: *a, vdd: *b, gain: *c, cp: 5 };
                        let e = num::common(&cal, &r, cur, 0.875, None, 0, 1);
                        n += 1;
                        for (what, e, g) in
                            [("gain", e.gain, g.gain), ("v_dd", e.v_dd, g.v_dd), ("t_a", e.t_a, g.t_a), ("emissivity", e.em, g.emissivity)]
                        {
                            if !e.agrees(g) {
                                fail(&format!("CommonIrData::new({ram:?}, resolution {cur}).{what}"), e, g);
                            }
                        }
                    }
                }
            }
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    });
    // Per-pixel IR value.
    let ems = [1.0f32, 0.95, 0.1, 2.0, -1.0];
    par(ctx, 64, |j| {
        let mut n = 0;
        for v in j * 1024..(j + 1) * 1024 {
            let px = v as u16 as i16;
            for (k, em) in ems.iter().enumerate() {
                for (off, kv, kta, il) in [
                    (-69i16, 0.5f32, 0.00457f32, None),
                    (0, 0.3, 0.0, Some(-1.25f32)),
                    (32767, -0.5, -0.031, Some(0.0)),
                    (-32768, 1.75, 0.02, Some(3.0)),
                ] {
                    let c = calc::CommonIrData {
                        gain: [1.01753546f32, 0.5, -2.0, 1e-3, 100.0][k],
                        v_dd: [3.319f32, 3.3, 2.0, 8.0, -1.0][(k + v) % 5],
                        emissivity: *em,
                        t_a: [39.18f32, 25.0, -40.0, 300.0, 24.5][(k + 2 * v) % 5],
                    };
                    let g = match guard(|| calc::per_pixel_v_ir(px, &c, off, kv, kta, il)) {
                        Ok(g) => g,
                        Err(e) => return ctx.fail(format!("per_pixel_v_ir({px}): {e}")),
                    };
                    let one = Ev::x(1.0);
                    let mut e = Ev::x(px as f64) * x(c.gain);
                    if let Some(i) = il {
                        e = e + x(i);
                    }
                    let e = (e - Ev::x(off as f64) * (one + x(kta) * (x(c.t_a) - Ev::x(25.0))) * (one + x(kv) * (x(c.v_dd) - Ev::c(3.3))))
                        / x(*em);
                    n += 1;
                    if !e.agrees(g) {
                        fail(&format!("per_pixel_v_ir({px}, {c:?}, {off}, {kv}, {kta}, {il:?})"), e, g);
                    }
                }
            }
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    });
    // Reflected radiation and pixel temperature.
    let g = if ctx.thorough { 400 } else { 120 };
    par(ctx, g, |j| {
        let lin = |i: usize, lo: f32, hi: f32| lo + (hi - lo) * i as f32 / (g - 1) as f32;
        let t_a = lin(j, -60.0, 160.0);
        let mut n = 0;
        for k in 0..g {
            let t_r = lin(k, -273.0, 400.0);
            let fine = (1..24).flat_map(|k| [1.0 + 0.5f32.powi(k), 1.0 - 0.5f32.powi(k)]);
            for em in [1.0f32, 0.99999994, 0.95, 0.1, 0.01, -0.5, 0.9985, 0.9995, 1.0004].into_iter().chain(fine) {
                let got = calc::t_ar(t_a, t_r, em);
                let e = num::t_ar(x(t_a), x(t_r), x(em), em == 1.0);
                n += 1;
                if !e.agrees(got) {
                    fail(&format!("t_ar({t_a}, {t_r}, {em})"), e, got);
                }
                for (i, alpha) in [1.4e-7f32, 3e-8, -2e-8, 1e-6].iter().enumerate() {
                    let k_s_to = [-0.0008f32, 0.0004, 0.0, -0.003][(i + k) % 4];
                    let v = lin((j * 31 + k * 17 + i) % g, -3000.0, 20000.0);
                    let gt = calc::per_pixel_temperature(v, *alpha, got, k_s_to);
                    let e = num::pixel_t(x(v), x(*alpha), x(got), x(k_s_to));
                    n += 1;
                    if !e.agrees(gt) {
                        fail(&format!("per_pixel_temperature({v}, {alpha}, {got}, {k_s_to})"), e, gt);
                    }
                }
            }
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    });
}
