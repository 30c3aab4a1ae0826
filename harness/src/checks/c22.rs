//! C22: supplied calibration data is equivalent to the camera's own.
use crate::cal::Tables;
use crate::checks::c03::compare_cal;
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::explore::{camera, Act};
use crate::num;
use crate::util::*;
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::mlx90641::Mlx90641Calibration;
use std::sync::Arc;

#[derive(Clone)]
struct Pair {
    drv: [Drv; 2],
    world: [World; 2],
    path: Vec<Act>,
}

fn build(m: Model, d: &Dev, f: impl FnOnce() -> Result<Drv, Ret>) -> Result<(Drv, World), String> {
    let mut w = World::new(d.clone());
    w.log_on = true;
    install(w);
    let r = guard(f);
    let w = take();
    r?.map(|d| (d, w)).map_err(|e| format!("{}: constructing a driver failed: {e:?}", m.name()))
}

fn decoded(m: Model, addr: u8, dump: &[u8]) -> Result<Drv, Ret> {
    match m {
        Model::M640 => Drv::with640(addr, Mlx90640Calibration::from_data(dump).map_err(|e| lib_ret(&e))?),
        Model::M641 => Drv::with641(addr, Mlx90641Calibration::from_data(dump).map_err(|e| lib_ret(&e))?),
    }
}

/// Run an action with both drivers of a pair and compare everything.
fn step(p: &Pair, act: Act) -> Result<Pair, String> {
    let mut n = p.clone();
    n.path.push(act);
    let op = match act {
        Act::Env(e) => {
            for w in n.world.iter_mut() {
                w.apply(e);
            }
            return Ok(n);
        }
        Act::Call(op) | Act::Fault(op, _, _) => op,
    };
    let len = n.drv[0].model().pixels();
    let mut out = vec![];
    for i in 0..2 {
        let mut w = std::mem::take(&mut n.world[i]);
        w.ntx = 0;
        w.horizon = 3000;
        w.log.clear();
        if let Act::Fault(_, k, f) = act {
            w.faults = vec![(k, f)];
        }
        let mut buf = vec![S1; if op.is_image() { len } else { 0 }];
        install(w);
        let r = guard(|| n.drv[i].op(op, &mut buf));
        n.world[i] = take();
        n.world[i].faults.clear();
        let s = [n.drv[i].q(Op::Ambient), n.drv[i].q(Op::Emissivity), n.drv[i].q(Op::Reflected)];
        out.push((r?, buf, s));
    }
    let nan = |x: f32| if x.is_nan() && x.to_bits() != S1.to_bits() { 0x7FC0_0000 } else { x.to_bits() };
    let (a, b) = (&out[0], &out[1]);
    if a.0 != b.0 {
        return Err(format!("{:?} with the camera's own calibration, {:?} with the supplied one", a.0, b.0));
    }
    if let Some(i) = (0..a.1.len()).find(|i| nan(a.1[*i]) != nan(b.1[*i])) {
        return Err(format!("element {i} is {} with the camera's own calibration, {} with the supplied one", a.1[i], b.1[i]));
    }
    if a.2 != b.2 {
        let nanret = |r: &Ret| matches!(r, Ret::OptF(Some(x)) if f32::from_bits(*x).is_nan());
        if !(nanret(&a.2[0]) && nanret(&b.2[0]) && a.2[1..] == b.2[1..]) {
            return Err(format!("ambient, emissivity, reflected {:?} with the camera's own calibration, {:?} with the supplied one", a.2, b.2));
        }
    }
    if n.world[0].log != n.world[1].log {
        return Err(format!("different bus transactions: {:?} / {:?}", n.world[0].log, n.world[1].log));
    }
    Ok(n)
}

fn tree(ctx: &Ctx, name: &str, p: &Pair, acts: &[Act], depth: usize) {
    if depth == 0 || ctx.stopped() {
        return;
    }
    for a in acts {
        ctx.st(1);
        ctx.tr(2);
        ctx.tv(1);
        match step(p, *a) {
            Err(e) => ctx.fail(format!("{name}: {} | {e}", crate::explore::trace(&[p.path.clone(), vec![*a]].concat()))),
            Ok(n) => tree(ctx, name, &n, acts, depth - 1),
        }
    }
}

fn eeprom_free(w: &World) -> Result<(), String> {
    match w.log.iter().find(|t| !t.write && (EE_BASE..STATUS).contains(&t.reg)) {
        Some(t) => Err(format!("the EEPROM was read although a calibration was supplied: {t:?}")),
        None => Ok(()),
    }
}

pub fn run(ctx: &Ctx) {
    let depth = if ctx.thorough { 5 } else { 4 };
    ctx.bound(format!("(1) all EEPROMs of the collection and variants of them x 4 start configurations: a driver that reads the camera and one given the decoded dump run every sequence of {depth} actions out of 26 (calls, faults, register changes, new frames) in lock-step: results, images, session state and transactions are the same; (1b) drivers built either way for {} contents of each scalar EEPROM word behave the same; (2) the same for a user-defined type that carries the values of that EEPROM; (3) user-defined types in which each scalar, each compensation pixel value and each per-pixel value ({}) is changed on its own, for all calibrated and current resolutions, both patterns and subpages: images are those of the formulas and only what depends on the value changes; (4) user-defined types with flagged pixels, with the provided trait methods, with sequences that have no size hint or are longer than the image or endless, and with NaN, infinite and zero per-pixel values", if ctx.thorough { "all" } else { "about 2000" }, if ctx.thorough { "every pixel" } else { "a third of the pixels" }));
    lockstep(ctx, depth);
    words(ctx);
    user(ctx);
    ctx.sample("MLX90641 rich EEPROM: new() and new_with_calibration(): [SetRes(1), <Publish(1, 0)>, IfReady]: same image, 3 identical transactions in SetRes");
}

fn variants(m: Model) -> Vec<(String, Vec<u16>)> {
    let mut v: Vec<(String, Vec<u16>)> = eeproms(m).into_iter().map(|(n, e)| (n.to_string(), e.to_vec())).collect();
    let b = base_ee(m).to_vec();
    match m {
        Model::M640 => {
            for res in 0..4 {
                let mut e = b.clone();
                e[0x38] = e[0x38] & 0xCFFF | res << 12;
                v.push((format!("resolution {res}"), e));
            }
            let mut e = b.clone();
            e[0x3C] &= 0xFF00;
            v.push(("no TGC".into(), e));
            let mut e = b.clone();
            for p in (0..768).step_by(5) {
                e[0x40 + p] = 0;
            }
            v.push(("failed pixels".into(), e));
        }
        Model::M641 => {
            for res in 0..4 {
                let mut e = b.clone();
                e[0x33] = ham(e[0x33] & 0x1FF | res << 9);
                v.push((format!("resolution {res}"), e));
            }
            let mut e = b.clone();
            e[0x23] = ham(0x1A0);
            e[0x33] = ham(e[0x33] & 0x600);
            v.push(("emissivity, no TGC".into(), e));
            let mut e = b.clone();
            for (i, w) in e.iter_mut().enumerate().skip(0x10) {
                *w ^= 1 << (i % 16);
            }
            v.push(("one wrong bit per word".into(), e));
        }
    }
    v
}

fn lockstep(ctx: &Ctx, depth: usize) {
    let mut acts: Vec<Act> = [
        Op::Temp(0),
        Op::Temp(1),
        Op::Raw(0),
        Op::Raw(1),
        Op::Image,
        Op::IfReady,
        Op::GetPat,
        Op::GetRes,
        Op::GetRate,
        Op::SetPat(0),
        Op::SetPat(1),
        Op::SetRes(0),
        Op::SetRes(1),
        Op::SetRes(3),
        Op::Override(0.75),
        Op::DefaultEmissivity,
        Op::SetReflected(Some(30.5)),
        Op::SetReflected(None),
        Op::ResetData,
        Op::Sync,
    ]
    .into_iter()
    .map(Act::Call)
    .collect();
    acts.extend([
        Act::Fault(Op::IfReady, 2, Fault::Partial),
        Act::Fault(Op::SetRes(0), 1, Fault::Fail),
        Act::Env(Event::Publish(1, 0)),
        Act::Env(Event::Publish(2, 1)),
        Act::Env(Event::SetControl(0x0181)),
        Act::Env(Event::SetStatus(0x0009)),
    ]);
    for m in Model::BOTH {
        let ees = variants(m);
        let mut jobs = vec![];
        for (name, ee) in &ees {
            for (p, res) in [(1u8, 2u8), (0, 2), (1, 0), (0, 3)] {
                let mut d = camera(m, p, res);
                d.eeprom = Arc::new(ee.clone());
                d.addr = 0x42;
                let dump = bytes(ee);
                let own = build(m, &d, || Drv::new(m, 0x42));
                let sup = build(m, &d, || decoded(m, 0x42, &dump));
                let usr = rig(m, "", &d.eeprom, |_| ()).and_then(|r| {
                    let t = Arc::new(Tables::of(&r.cal));
                    build(m, &d, || Drv::user(m, 0x42, t))
                });
                for (what, other) in [("supplied", sup), ("user-defined", usr)] {
                    let n = format!("{} {name}, pattern {p}, resolution {res}, {what}", m.name());
                    let (a, b) = match (&own, other) {
                        (Ok(a), Ok(b)) => (a.clone(), b),
                        (Err(e), _) => return ctx.fail(format!("{n}: {e}")),
                        (_, Err(e)) => return ctx.fail(format!("{n}: {e}")),
                    };
                    if let Err(e) = eeprom_free(&b.1) {
                        return ctx.fail(format!("{n}: construction: {e}"));
                    }
                    // Apart from the EEPROM the construction is the same.
                    let rest: Vec<Tx> = a.1.log.iter().filter(|t| t.reg < EE_BASE || t.reg >= STATUS).cloned().collect();
                    if rest != b.1.log {
                        return ctx.fail(format!("{n}: construction: {:?} / {rest:?}", b.1.log));
                    }
                    let pair = Pair { drv: [a.0, b.0], world: [a.1, b.1], path: vec![] };
                    // The complete depth only for some of the configurations.
                    let full = (p, res) == (1, 2) && (what == "supplied" || name == "rich");
                    for a in &acts {
                        jobs.push((n.clone(), pair.clone(), *a, if full { depth } else { depth - 1 }));
                    }
                }
            }
        }
        par(ctx, jobs.len(), |j| {
            let (n, p, a, depth) = &jobs[j];
            ctx.st(1);
            ctx.tr(2);
            ctx.tv(1);
            match step(p, *a) {
                Err(e) => ctx.fail(format!("{n}: {} | {e}", crate::explore::trace(&[*a]))),
                Ok(x) => tree(ctx, n, &x, &acts, depth - 1),
            }
        });
    }
}

/// Every word of the scalar part of the EEPROM with (almost) every content.
fn words(ctx: &Ctx) {
    let per = |m: Model| if m == Model::M640 { if ctx.thorough { 65536 } else { 2048usize } } else { 2048 };
    for m in Model::BOTH {
        let base = base_ee(m);
        par(ctx, 48 * 8, |j| {
            let (word, part) = (0x10 + j / 8, j % 8);
            for v in (part..per(m)).step_by(8) {
                let mut ee = base.to_vec();
                ee[word] = match m {
                    // One or two nibbles of the ordinary content changed, and a coarse sweep.
                    Model::M640 if ctx.thorough => v as u16,
                    Model::M640 if v < 256 => ee[word] & 0xFF00 | v as u16,
                    Model::M640 if v < 512 => ee[word] & 0x00FF | (v as u16) << 8,
                    Model::M640 => (v as u16).wrapping_mul(0x9E37),
                    Model::M641 => ham(v as u16),
                };
                let what = || format!("{} EEPROM word {:#06x} = {:#06x}", m.name(), EE_BASE as usize + word, ee[word]);
                let mut d = camera(m, (v & 1) as u8, (v >> 1 & 3) as u8);
                d.addr = 0x42;
                d.eeprom = Arc::new(ee.clone());
                let dump = bytes(&ee);
                let own = build(m, &d, || Drv::new(m, 0x42));
                let sup = build(m, &d, || decoded(m, 0x42, &dump));
                ctx.st(1);
                let (a, b) = match (own, sup) {
                    (Ok(a), Ok(b)) => (a, b),
                    (Err(a), Err(b)) if a == b => continue,
                    (a, b) => {
                        return ctx.fail(format!("{}: {:?} from the camera, {:?} from the dump", what(), a.map(|_| ()), b.map(|_| ())));
                    }
                };
                let mut pair = Pair { drv: [a.0, b.0], world: [a.1, b.1], path: vec![] };
                if v / 8 % 3 > 0 && v > 64 && m == Model::M640 {
                    continue;
                }
                for a in [Act::Call(Op::Emissivity), Act::Call(Op::Temp((v & 1) as u8)), Act::Call(Op::DefaultEmissivity), Act::Call(Op::IfReady)] {
                    match step(&pair, a) {
                        Ok(x) => pair = x,
                        Err(e) => return ctx.fail(format!("{}: {} | {e}", what(), crate::explore::trace(&[pair.path.clone(), vec![a]].concat()))),
                    }
                    ctx.tr(2);
                }
                ctx.tv(1);
            }
        });
    }
}

/// Images of all kinds for a user-defined calibration; compared with the formulas.
fn images(m: Model, t: &Tables, d: &Dev, ops: &[Op]) -> Result<Vec<Shot>, String> {
    let (drv, w) = attach_user(d.clone(), t)?;
    let cal = cal_of(m, t);
    let mut v = vec![];
    for op in ops {
        let n = m.pixels();
        let mut s = shot(&drv, &w, *op, n + 35)?;
        if let Some(i) = s.px[n..].iter().position(|x| x.to_bits() != S1.to_bits()) {
            return Err(format!("{op:?}: element {} outside the image is written", n + i));
        }
        s.px.truncate(n);
        let i = match op {
            Op::Raw(i) | Op::Temp(i) => *i,
            _ => (d.status & 1) as u8,
        };
        let em = t.emissivity.unwrap_or(1.0);
        let c = num::common(&cal, &ram_of(d, i), d.resolution(), em, None, i, d.pattern());
        compare_cal(m, &cal, d, &c, i, *op, &s).map_err(|e| format!("{op:?}: {e}"))?;
        v.push(s);
    }
    Ok(v)
}

fn user(ctx: &Ctx) {
    let ops = [Op::Raw(0), Op::Raw(1), Op::Temp(0), Op::Temp(1), Op::IfReady];
    for m in Model::BOTH {
        let t0 = user_tables(m);
        let n = m.pixels();
        // Each scalar on its own; all resolutions.
        let mut alts: Vec<(String, Tables)> = vec![("unchanged".into(), t0.clone())];
        let mut alt = |name: &str, f: &dyn Fn(&mut Tables)| {
            let mut t = t0.clone();
            f(&mut t);
            alts.push((name.to_string(), t));
        };
        for r in 0..4 {
            alt(&format!("calibrated resolution {r}"), &|t| t.res = r);
        }
        for e in [None, Some(1.0), Some(0.5), Some(0.999), Some(2.5)] {
            alt(&format!("emissivity {e:?}"), &|t| t.emissivity = e);
        }
        for g in [None, Some(0.0), Some(0.5), Some(-1.5), Some(3.96875)] {
            alt(&format!("TGC {g:?}"), &|t| t.tgc = g);
        }
        alt("k_v_dd", &|t| t.k_v_dd += 311);
        alt("v_dd_25", &|t| t.v_dd_25 += 517);
        alt("v_dd_0", &|t| t.v_dd_0 = 3.12);
        alt("k_v_ptat", &|t| t.k_v_ptat += 0.0021);
        alt("k_t_ptat", &|t| t.k_t_ptat += 1.75);
        alt("v_ptat_25", &|t| t.v_ptat_25 += 77.25);
        alt("alpha_ptat", &|t| t.alpha_ptat += 0.5);
        alt("gain", &|t| t.gain *= 1.03);
        alt("k_s_ta", &|t| t.k_s_ta += 0.0013);
        // Also very small and very large ones, of either sign.
        for k in 0..8 {
            let x = [0.0, 3e-5, -3e-5, 1e-7, 0.011, -0.011, 0.5, -0.5][k] as f32;
            alt(&format!("k_s_ta {x}"), &|t| t.k_s_ta = x);
            alt(&format!("k_v_ptat {x}"), &|t| t.k_v_ptat = x);
            alt(&format!("TGC {x}"), &|t| t.tgc = Some(x));
            alt(&format!("k_s_to {x}"), &|t| t.k_s_to.iter_mut().for_each(|y| *y = x / 8.0));
            alt(&format!("compensation pixel K_V {x}"), &|t| t.kv_cp = [x, -x]);
            alt(&format!("compensation pixel K_Ta {x}"), &|t| t.kta_cp = [x, -x]);
            alt(&format!("compensation pixel sensitivity {x}"), &|t| t.alpha_cp = [x * 1e-6, -x * 1e-6]);
            alt(&format!("K_V {x}"), &|t| t.kv.iter_mut().flatten().for_each(|y| *y = x));
            alt(&format!("K_Ta {x}"), &|t| t.kta.iter_mut().flatten().for_each(|y| *y = x));
            alt(&format!("pattern corrections {x}"), &|t| t.il.iter_mut().flatten().for_each(|y| *y = Some(x)));
            alt(&format!("compensation pixel corrections {x}"), &|t| t.il_cp = [[Some(x); 2]; 2]);
            let big = [0, 1, -1, 2, -3, 127, -128, 1023][k] as i16;
            alt(&format!("offsets {big}"), &|t| t.offset.iter_mut().flatten().for_each(|y| *y = big));
            alt(&format!("compensation pixel offsets {big}"), &|t| t.offset_cp = [big, -big]);
            alt(&format!("v_dd_0 {}", 3.3 + x), &|t| t.v_dd_0 = 3.3 + x);
            alt(&format!("gain {}", 6000 + big), &|t| t.gain = 6000.0 + big as f32);
            alt(&format!("v_ptat_25 {}", 12000 + big), &|t| t.v_ptat_25 = 12000.0 + big as f32);
            alt(&format!("k_t_ptat {}", 42.0 + x), &|t| t.k_t_ptat = 42.0 + x);
            alt(&format!("alpha_ptat {}", 9.0 + x), &|t| t.alpha_ptat = 9.0 + x);
            alt(&format!("k_v_dd {}", -3000 + big), &|t| t.k_v_dd = -3000 + big);
            alt(&format!("v_dd_25 {}", -13000 + big), &|t| t.v_dd_25 = -13000 + big);
        }
        for i in 0..t0.k_s_to.len() {
            alt(&format!("k_s_to {i}"), &|t| t.k_s_to[i] += 0.0003);
            alt(&format!("alpha correction {i}"), &|t| t.alpha_corr[i] *= 1.01);
            alt(&format!("corner temperature {i}"), &|t| t.ct[i] += 3);
            alt(&format!("all corner temperatures from {i} on above 0"), &|t| {
                for (k, c) in t.ct.iter_mut().enumerate() {
                    *c = if k < i { -40 + k as i16 } else { 20 * k as i16 }
                }
            });
        }
        // Any corner temperatures (also none), with ranges that differ a lot.
        for (k, ct) in [
            vec![0i16; 8],
            vec![-273, -200, -100, -50, -40, -30, -20, -10],
            vec![400, 300, 200, 100, 0, -100, -200, -300],
            vec![-40, -40, 0, 0, 0, 80, 80, 120],
            vec![0, 40, 80, 120, 160, 200, 240, 280],
            vec![i16::MIN, i16::MAX, i16::MIN, i16::MAX, 0, 0, 0, 0],
            vec![25],
            vec![],
        ]
        .into_iter()
        .enumerate()
        {
            for len in [t0.k_s_to.len(), m.basic_range() + 1, 12] {
                alt(&format!("corner temperatures {ct:?} and {len} ranges"), &|t| {
                    t.ct = ct.clone();
                    t.k_s_to = (0..len).map(|i| -0.0003 * (1 + (5 * i + k) % 7) as f32).collect();
                    t.alpha_corr = (0..len).map(|i| 1.0 + 0.1 * i as f32).collect();
                });
            }
        }
        for e in [0.0, -0.5, -1.0, 1e-30, 0.02, 0.1, 0.99999994, 1.0000001, 1.5, 100.0, 1e10] {
            alt(&format!("emissivity {e:?}"), &|t| t.emissivity = Some(e));
        }
        for x in [0.0f32, 1e-12, -1e-8, 1e-7, 1e-5] {
            alt(&format!("sensitivities {x}"), &|t| t.alpha.iter_mut().flatten().for_each(|y| *y = x));
            alt(&format!("sensitivities of one subpage {x}"), &|t| t.alpha[1].iter_mut().for_each(|y| *y = x));
        }
        for s in 0..2 {
            alt(&format!("compensation pixel offset {s}"), &|t| t.offset_cp[s] += 19);
            alt(&format!("compensation pixel sensitivity {s}"), &|t| t.alpha_cp[s] *= 1.7);
            alt(&format!("compensation pixel K_V {s}"), &|t| t.kv_cp[s] += 0.21);
            alt(&format!("compensation pixel K_Ta {s}"), &|t| t.kta_cp[s] += 0.0021);
            for p in 0..2 {
                alt(&format!("compensation pixel correction {p} {s}"), &|t| t.il_cp[p][s] = match t.il_cp[p][s] {
                    Some(x) => Some(x + 2.5),
                    None => Some(-7.5),
                });
                alt(&format!("no compensation pixel correction {p} {s}"), &|t| t.il_cp[p][s] = None);
            }
        }
        alt("no pixel corrections", &|t| t.il = [vec![None; n], vec![None; n]]);
        // Flagged pixels are for the user to look at; images do not depend on them.
        for (name, f, o) in [
            ("a failed pixel", vec![0], vec![]),
            ("the last pixel failed", vec![n - 1], vec![]),
            ("an outlier", vec![], vec![n / 2 + 3]),
            ("a failed outlier", vec![33], vec![33]),
            ("all pixels failed", (0..n).collect(), vec![]),
            ("all pixels outliers", vec![], (0..n).collect()),
            ("flagged pixels outside the image", vec![n, n + 1, 65535], vec![usize::MAX, n * 2]),
        ] {
            alt(name, &|t| {
                t.failed = f.clone();
                t.outlier = o.clone();
            });
        }
        // Longer sequences than the image needs, and nothing but the required methods.
        alt("longer sequences", &|t| t.extend(70));
        alt("provided methods", &|t| {
            t.provided = true;
            t.emissivity = None;
            t.v_dd_0 = 3.3;
        });
        alt("provided methods, flagged pixels, longer sequences", &|t| {
            t.provided = true;
            t.emissivity = None;
            t.v_dd_0 = 3.3;
            t.failed = vec![1, 5];
            t.outlier = vec![7, 8, 9];
            t.extend(70);
        });
        alt("provided methods, endless sequences", &|t| {
            t.provided = true;
            t.emissivity = None;
            t.v_dd_0 = 3.3;
            t.endless = true;
        });
        // Pixels without a usable value concern nobody else.
        for (name, x) in [("NaN", f32::NAN), ("infinite", f32::INFINITY), ("zero", 0.0)] {
            for k in 0..5 {
                alt(&format!("{name} value {k} of pixels"), &|t| {
                    for s in 0..2 {
                        for p in (s + k..n).step_by(11) {
                            match k {
                                0 => t.alpha[s][p] = x,
                                1 => t.kv[s][p] = x,
                                2 => t.kta[s][p] = x,
                                3 => t.il[s][p] = Some(x),
                                _ => t.offset[s][p] = [i16::MIN, i16::MAX][p % 2],
                            }
                        }
                    }
                });
            }
        }
        par(ctx, alts.len() * 8, |j| {
            let (name, t) = &alts[j / 8];
            let mut d = dev(m, &base_ee(m));
            // Without an EEPROM behind it, nothing can be taken from there.
            d.eeprom = Arc::new(vec![0; EE_WORDS]);
            set_control(&mut d, (j & 1) as u8, (j >> 1 & 3) as u8);
            announce(&mut d, (j & 1) as u8);
            if let Err(e) = images(m, t, &d, &ops) {
                ctx.fail(format!("{} user-defined calibration, {name}, control {:#06x}: {e}", m.name(), d.control));
            }
            ctx.st(1);
            ctx.tr(5);
            ctx.tv(5);
        });
        // Each per-pixel value on its own.
        let step = if ctx.thorough { 1 } else { 3 };
        let base: Vec<_> = (0..2)
            .map(|p| {
                let mut d = dev(m, &base_ee(m));
                set_control(&mut d, p, 2);
                images(m, &t0, &d, &ops[..4]).map(|v| (d, v))
            })
            .collect();
        let base = match base.into_iter().collect::<Result<Vec<_>, _>>() {
            Ok(b) => b,
            Err(e) => return ctx.fail(format!("{} user-defined calibration: {e}", m.name())),
        };
        par(ctx, n, |px| {
            for k in 0..10usize {
                if (px + k) % step != 0 {
                    continue;
                }
                let mut t = t0.clone();
                let s = k % 2;
                let what = match k / 2 {
                    0 => {
                        t.offset[s][px] += 23;
                        "offset"
                    }
                    1 => {
                        t.alpha[s][px] *= 1.25;
                        "sensitivity"
                    }
                    2 => {
                        t.kv[s][px] += 0.5;
                        "K_V"
                    }
                    3 => {
                        t.kta[s][px] += 0.004;
                        "K_Ta"
                    }
                    _ => {
                        t.il[s][px] = Some(t.il[s][px].unwrap_or(0.0) + 9.5);
                        "pattern correction"
                    }
                };
                for p in 0..2u8 {
                    let (d, b) = &base[p as usize];
                    let got = match images(m, &t, d, &ops[..4]) {
                        Ok(g) => g,
                        Err(e) => return ctx.fail(format!("{} {what} of pixel {px} for {s} changed, pattern {p}: {e}", m.name())),
                    };
                    for i in 0..4usize {
                        for q in 0..n {
                            // Which pixel of which image depends on the value.
                            let uses = q == px
                                && (if k / 2 == 4 { p as usize == s } else { i % 2 == s })
                                && !(k / 2 == 1 && i < 2)
                                && m.in_subpage(p, (i % 2) as u8, q);
                            let same = got[i].px[q].to_bits() == b[i].px[q].to_bits();
                            if !uses && !same {
                                return ctx.fail(format!(
                                    "{} {what} of pixel {px} for {s} changed, pattern {p}: pixel {q} of {:?} changes, too",
                                    m.name(), ops[i]
                                ));
                            }
                            // K_V and K_Ta scale the offset.
                            if uses && same && (!matches!(k / 2, 2 | 3) || t0.offset[s][px].abs() > 3) {
                                return ctx.fail(format!(
                                    "{} {what} of pixel {px} for {s} changed, pattern {p}: {:?} does not follow",
                                    m.name(), ops[i]
                                ));
                            }
                        }
                    }
                    ctx.tr(4);
                    ctx.tv(4);
                }
                ctx.st(1);
            }
        });
    }
}
