//! C10: processing a frame never panics.
use crate::cal::{Tables, UserCal};
use crate::checks::c04::{both, Input};
use crate::ctx::{par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::util::*;

const SPECIAL: [f32; 9] =
    [0.0, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -273.15];

fn fill(m: Model, x: f32, i: i16, res: u8, tgc: Option<f32>) -> Tables {
    let mut t = user_tables(m);
    t.k_v_dd = i;
    t.v_dd_25 = i.wrapping_add(1);
    t.res = res;
    for f in [
        &mut t.v_dd_0, &mut t.k_v_ptat, &mut t.k_t_ptat, &mut t.v_ptat_25, &mut t.alpha_ptat, &mut t.gain, &mut t.k_s_ta,
    ] {
        *f = x;
    }
    t.ct.iter_mut().for_each(|c| *c = i);
    t.k_s_to.iter_mut().chain(t.alpha_corr.iter_mut()).for_each(|c| *c = x);
    t.emissivity = Some(x);
    for s in 0..2 {
        t.offset[s].iter_mut().enumerate().for_each(|(k, o)| *o = if k % 2 == 0 { i } else { !i });
        for v in [&mut t.alpha[s], &mut t.kv[s], &mut t.kta[s]] {
            v.iter_mut().for_each(|f| *f = x);
        }
        t.il[s].iter_mut().for_each(|f| *f = f.map(|_| x));
        t.il_cp[s] = [Some(x), None];
    }
    t.offset_cp = [i, !i];
    t.alpha_cp = [x; 2];
    t.kv_cp = [x; 2];
    t.kta_cp = [x; 2];
    t.tgc = tgc;
    t
}

/// Calibrations, plausible and degenerate.
fn rigs(m: Model) -> Result<Vec<Rig>, String> {
    let mut v = vec![];
    for (n, ee) in eeproms(m) {
        v.push(rig(m, n, &ee, |_| ())?);
    }
    for (k, x) in SPECIAL.iter().enumerate() {
        for (l, i) in [0i16, -1, i16::MIN, i16::MAX].iter().enumerate() {
            let tgc = [None, Some(*x), Some(1.0), Some(f32::NAN)][(k + l) % 4];
            v.push(rig_user(m, &format!("calibration of {x:?} and {i}"), &fill(m, *x, *i, (k + l) as u8 % 4, tgc), |_| ())?);
        }
    }
    // Only one group of values degenerate.
    for (l, i) in [0i16, 1, -1, i16::MIN, i16::MAX].iter().enumerate() {
        let mut t = user_tables(m);
        t.k_v_dd = *i;
        t.res = l as u8 % 4;
        v.push(rig_user(m, &format!("k_v_dd {i}"), &t, |_| ())?);
        let mut t = user_tables(m);
        t.v_dd_25 = *i;
        v.push(rig_user(m, &format!("v_dd_25 {i}"), &t, |_| ())?);
        let mut t = user_tables(m);
        t.offset.iter_mut().flatten().for_each(|o| *o = *i);
        t.offset_cp = [*i; 2];
        t.ct.iter_mut().for_each(|o| *o = *i);
        v.push(rig_user(m, &format!("offsets {i}"), &t, |_| ())?);
    }
    Ok(v)
}

fn go(ctx: &Ctx, drv: &mut Drv, w: World, op: Op, len: usize, what: &dyn Fn() -> String) -> Option<World> {
    match shot_mut(drv, w, op, len) {
        Err(e) => {
            ctx.fail(format!("{} {op:?}: {e}", what()));
            None
        }
        Ok((s, mut w)) => {
            let ready = w.dev().status & ST_NEW != 0;
            let ok = match op {
                // Acknowledging clears the flag, so the result decides.
                Op::IfReady => matches!(s.ret, Ret::Bool(_)) && (s.ret == Ret::Bool(true) || !ready),
                _ => s.ret == Ret::Unit,
            };
            if !ok {
                ctx.fail(format!("{} {op:?}: returned {:?} although the bus works", what(), s.ret));
                return None;
            }
            Some(w)
        }
    }
}

pub fn run(ctx: &Ctx) {
    let q = !ctx.thorough;
    let step = if q { 32 } else { 1 };
    ctx.bound(format!("both models x 54 calibrations (special float values x extreme integers, single degenerate groups, real ones): (A) 10 emissivities x 11 reflected temperatures x patterns x subpages x 4 resolutions x 5 frames; (B) {} values of each shared word; (C) 7^5 combinations of extreme shared words on 12 calibrations; (D) every content of the control register, found at construction and noticed later, and of the status register; (E) every destination length 0..=pixels+70 and larger ones; (F) every value of every pixel word; (G) every image call repeated {} times; (H) the calculation functions for one-pass and two-pass processing with degenerate calibrations x emissivities x reflected temperatures x 7 frames", 65536 / step, if q { 70_000 } else { 200_000 }));
    ctx.assume("the crate is compiled with overflow checks and debug assertions, so that an arithmetic overflow is a panic");
    let done = |n: u64| {
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    };
    let mut em: Vec<f32> = SPECIAL.to_vec();
    em.push(1.0);
    let mut tr: Vec<Option<f32>> = SPECIAL.iter().map(|x| Some(*x)).collect();
    tr.extend([None, Some(25.0)]);
    for m in Model::BOTH {
        let rigs = match crate::ctx::guard(|| rigs(m)) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) | Err(e) => return ctx.fail(e),
        };
        let shared = |s: u8| [m.vbe(), m.ptat(), m.vdd(), m.gain(), m.cp(s)];
        let n = m.pixels();
        // (A)
        par(ctx, rigs.len() * 16, |j| {
            let r = &rigs[j / 16];
            let (p, s, res) = ((j & 1) as u8, (j >> 1 & 1) as u8, (j >> 2 & 3) as u8);
            let mut drv = r.drv.clone();
            let mut w = World { horizon: usize::MAX, ..r.world.clone() };
            set_control(w.dev(), p, res);
            w = match run_ops(&mut drv, w, &[Op::GetRes]) {
                Ok(w) => w,
                Err(e) => return ctx.fail(format!("{}: {e}", r.name)),
            };
            let mut count = 0;
            for frame in 0..5usize {
                let x = [None, Some(0u16), Some(0xFFFF), Some(0x8000), Some(0x7FFF)][frame];
                w.dev().ram = r.world.devs[0].ram;
                if let Some(x) = x {
                    w.dev().ram.iter_mut().for_each(|v| *v = x);
                }
                for e in &em {
                    for t in &tr {
                        drv.q(Op::Override(*e));
                        drv.q(Op::SetReflected(*t));
                        let what = || format!("{} pattern {p} resolution {res} emissivity {e:?} reflected {t:?} RAM words {x:?}", r.name);
                        // The settings do not matter for the raw image beyond the emissivity.
                        for op in [Op::Raw(s), Op::Temp(s)] {
                            if matches!(op, Op::Raw(_)) && t.is_some() {
                                continue;
                            }
                            match go(ctx, &mut drv, w, op, if q { 40 } else { n }, &what) {
                                Some(x) => w = x,
                                None => return,
                            }
                            count += 1;
                        }
                    }
                }
            }
            done(count);
        });
        // (B)
        par(ctx, rigs.len() * 5, |j| {
            let r = &rigs[j / 5];
            let mut drv = r.drv.clone();
            let mut w = World { horizon: usize::MAX, ..r.world.clone() };
            let s = (j & 1) as u8;
            let a = shared(s)[j % 5];
            let mut count = 0;
            for v in (j % step..65536).step_by(step) {
                w.dev().set_word(a, v as u16);
                let what = || format!("{} RAM word {a:#06x} = {v:#06x}", r.name);
                for op in [Op::Raw(s), Op::Temp(s)] {
                    match go(ctx, &mut drv, w, op, 8, &what) {
                        Some(x) => w = x,
                        None => return,
                    }
                    count += 1;
                }
            }
            done(count);
        });
        // (C)
        let e = [0u16, 1, 0xFFFF, 0x7FFF, 0x8000, 0x8001, 0x1900];
        par(ctx, 12 * 49, |j| {
            let r = &rigs[(j / 49) * rigs.len() / 12];
            let mut drv = r.drv.clone();
            let mut w = World { horizon: usize::MAX, ..r.world.clone() };
            let s = (j & 1) as u8;
            let sh = shared(s);
            let mut count = 0;
            for k in 0..343 {
                let ix = [j % 49 / 7, j % 7, k / 49, k / 7 % 7, k % 7];
                for i in 0..5 {
                    w.dev().set_word(sh[i], e[ix[i]]);
                }
                let what = || format!("{} shared words {:04x?}", r.name, ix.map(|i| e[i]));
                for op in [Op::Raw(s), Op::Temp(s)] {
                    match go(ctx, &mut drv, w, op, 8, &what) {
                        Some(x) => w = x,
                        None => return,
                    }
                    count += 1;
                }
            }
            done(count);
        });
        // (D)
        let t = user_tables(m);
        par(ctx, 64, |j| {
            let mut count = 0;
            for v in j * 1024..(j + 1) * 1024 {
                let v = v as u16;
                let mut d = dev(m, &base_ee(m));
                d.control = v;
                d.status = v.rotate_left(3);
                let what = || format!("{} control register {v:#06x}", m.name());
                let (mut drv, w) = match attach_user(d, &t) {
                    Ok(x) => x,
                    Err(e) => return ctx.fail(format!("{}: {e}", what())),
                };
                let mut w = Some(w);
                for op in [Op::Temp(0), Op::Raw(1), Op::IfReady, Op::Image] {
                    w = w.and_then(|w| go(ctx, &mut drv, w, op, 40, &what));
                }
                let Some(mut w) = w else { return };
                // ... and when it changes later.
                w.dev().control = !v;
                w.dev().status = v;
                let w = match run_ops(&mut drv, w, &[Op::GetSubpages]) {
                    Ok(w) => w,
                    Err(e) => return ctx.fail(format!("{} then {:#06x}: {e}", what(), !v)),
                };
                let what = || format!("{} control register {v:#06x}, then {:#06x}, status {v:#06x}", m.name(), !v);
                let mut w = Some(w);
                for op in [Op::IfReady, Op::Image, Op::Temp(1)] {
                    w = w.and_then(|w| go(ctx, &mut drv, w, op, 40, &what));
                }
                if w.is_none() {
                    return;
                }
                count += 7;
            }
            done(count);
        });
        // (E)
        par(ctx, rigs.len().min(12) * 4, |j| {
            let r = &rigs[j / 4];
            let mut drv = r.drv.clone();
            let mut w = Some(World { horizon: usize::MAX, ..r.world.clone() });
            let s = (j & 1) as u8;
            let p = (j >> 1 & 1) as u8;
            set_control(w.as_mut().unwrap().dev(), p, 2);
            drv.q_in(&mut w, Op::GetPat);
            let mut count = 0;
            let mut lens: Vec<usize> = (0..=n + 70).collect();
            lens.extend([2 * n, 2 * n + 1, 10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 65_536 + n - 1, 65_536 + n, 131_072, 200_000]);
            for len in lens {
                let what = || format!("{} pattern {p} destination of {len} elements", r.name);
                for op in [Op::Raw(s), Op::Temp(s), Op::Image] {
                    let Some(x) = w.take() else { return };
                    w = go(ctx, &mut drv, x, op, len, &what);
                }
                let Some(x) = w.as_mut() else { return };
                announce(x.dev(), s);
                let Some(x) = w.take() else { return };
                w = go(ctx, &mut drv, x, Op::IfReady, len, &what);
                count += 4;
            }
            done(count);
        });
        // (F)
        par(ctx, rigs.len() * 2, |j| {
            let r = &rigs[j / 2];
            let mut drv = r.drv.clone();
            let mut w = World { horizon: usize::MAX, ..r.world.clone() };
            let keep = w.dev().ram;
            let s = (j & 1) as u8;
            let mut count = 0;
            for f in 0..if q { 192 } else { 65536usize } {
                for i in 0..m.ram_words() {
                    w.dev().ram[i] = (f as u16).wrapping_add((i as u16).wrapping_mul(if q { 341 } else { 40503 }));
                }
                for a in shared(0).into_iter().chain(shared(1)) {
                    w.dev().ram[(a - RAM_BASE) as usize] = keep[(a - RAM_BASE) as usize];
                }
                let what = || format!("{} frame {f}", r.name);
                for op in [Op::Raw(s), Op::Temp(s)] {
                    match go(ctx, &mut drv, w, op, n, &what) {
                        Some(x) => w = x,
                        None => return,
                    }
                    count += 1;
                }
            }
            done(count);
        });
        // (G)
        par(ctx, 2 * 6, |j| {
            let r = &rigs[j / 6];
            let op = [Op::Raw(0), Op::Raw(1), Op::Temp(0), Op::Temp(1), Op::Image, Op::IfReady][j % 6];
            let mut drv = r.drv.clone();
            let mut w = World { horizon: usize::MAX, ..r.world.clone() };
            let times = if q { 70_000 } else { 200_000 };
            for i in 0..times {
                announce(w.dev(), i as u8 >> 1 & 1);
                let what = || format!("{} call {}", r.name, i + 1);
                match go(ctx, &mut drv, w, op, 3, &what) {
                    Some(x) => w = x,
                    None => return,
                }
            }
            done(times as u64);
        });
        // (H)
        par(ctx, SPECIAL.len() * 8, |j| {
            let (k, l) = (j / 8, j % 4);
            let x = SPECIAL[k];
            let t = fill(m, x, [0i16, -1, i16::MIN, i16::MAX][l], (k + l) as u8 % 4, [None, Some(x), Some(1.0), Some(f32::NAN)][(k + l) % 4]);
            let t = std::sync::Arc::new(if j / 4 % 2 == 0 { t } else { user_tables(m) });
            let mut count = 0;
            let base = ram_of(&dev(m, &base_ee(m)), (j & 1) as u8);
            for frame in 0..7 {
                let mut ram = base;
                let v = [0i16, -1, i16::MIN, i16::MAX, 0, 0, 0][frame];
                if frame < 4 {
                    ram = crate::num::Ram { vbe: v, ptat: v, vdd: v, gain: v, cp: v };
                } else if frame < 6 {
                    *[&mut ram.gain, &mut ram.ptat][frame - 4] = 0;
                }
                for e in &em {
                    for tr in &tr {
                        let i = Input {
                            em: *e,
                            t_r: *tr,
                            res: [0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 0.125][count as usize % 7],
                            data: (0..8u16).flat_map(|p| [0u16, 1, 0xFFFF, 0x7FFF, 0x8000, 0x8001, 77, 0xFF00][p as usize].to_be_bytes()).collect::<Vec<_>>(),
                            ram,
                            sp: (j & 1) as u8,
                            pat: (j >> 1 & 1) as u8,
                            valid: vec![true; 8],
                            len: 8,
                        };
                        let r = crate::ctx::guard(|| match m {
                            Model::M640 => both(&UserCal::<0>(t.clone()), &i, S1),
                            Model::M641 => both(&UserCal::<1>(t.clone()), &i, S1),
                        });
                        if let Err(e) = r {
                            return ctx.fail(format!("{} calculations for special value {x:?}, emissivity {:?}, reflected {tr:?}, {ram:?}: {e}", m.name(), i.em));
                        }
                        count += 1;
                    }
                }
            }
            done(3 * count);
        });
        ctx.count("calibrations", rigs.len() as u64);
    }
    ctx.sample("MLX90640, calibration of NaN and -32768, emissivity -inf, reflected temperature f32::MAX, all RAM words 0x8000: completes");
    ctx.sample("control register 0x0000..0xFFFF found at construction: Temp(0), Raw(1), IfReady and Image complete");
}
