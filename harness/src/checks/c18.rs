//! C18: emissivity, reflected and ambient temperature behave as session state.
use crate::ctx::{par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::explore::*;
use crate::util::*;
use crate::num;
use std::sync::Arc;

/// Compare an image with the documented formulas for the settings of the session.
pub fn formulas(o: &Oracle, cal: &crate::cal::Cal, s: &Step) -> Result<(), String> {
    let (Some(img), Some(Act::Call(op))) = (&s.img, s.node.path.last()) else { return Ok(()) };
    if img.ret != Ret::Unit && img.ret != Ret::Bool(true) {
        return Ok(());
    }
    let mut d = s.node.world.devs[0].clone();
    d.control = s.node.spec.last;
    let sp = match op {
        Op::Raw(s) | Op::Temp(s) => *s,
        _ => (d.status & 1) as u8,
    };
    let c = num::common(cal, &ram_of(&d, sp), d.resolution(), s.node.spec.em, s.node.spec.tr, sp, d.pattern());
    let shot = Shot {
        ret: img.ret,
        px: img.px.iter().map(|p| f32::from_bits(p.unwrap_or(S1.to_bits()))).collect(),
        ambient: img.ambient.map(f32::from_bits),
    };
    crate::checks::c03::compare_cal(o.model, cal, &d, &c, sp, *op, &shot).map(|_| ())
}

pub fn run(ctx: &Ctx) {
    ctx.bound("explicit-state search: both models x {user-defined calibration with and without a stored emissivity (states merged), own calibration with several stored emissivities (sequences)}; alphabet: overriding the emissivity with 6 values (also the default itself, 0 and NaN), resetting it, 4 reflected temperatures, every image call, polling, getters, setters, synchronize, new frames; every transaction of the image calls failing; every two of 40 values (also ones that differ by one or a few steps) as overrides and reflected temperatures after one another, with images between; every two of 19 frames (also with single steps of single words, zero words, saturation) read by every two image calls; every combination of 20 x 20 x 7 values of the temperature and voltage words, after which the ambient temperature is that of the formulas and stays through 7 other calls; in every state all three values are read and images are compared with a fresh driver given the current values and with the documented formulas evaluated for them; every action and pair of actions (also failing) repeated 300 times, every cycle of 3 (thorough: 4) out of ten or eleven actions 100 times");
    for m in Model::BOTH {
        let mut oracles = vec![];
        let mut t = user_tables(m);
        t.emissivity = Some(0.89);
        oracles.push((Oracle::new(m, CalKind::User(Arc::new(t.clone()))), "user calibration with emissivity"));
        t.emissivity = None;
        oracles.push((Oracle::new(m, CalKind::User(Arc::new(t))), "user calibration without emissivity"));
        let mut acts: Vec<Act> = [
            Op::Temp(0),
            Op::Raw(1),
            Op::Image,
            Op::IfReady,
            Op::Emissivity,
            Op::Override(0.75),
            Op::Override(0.89),
            Op::Override(1.0),
            Op::Override(1.05),
            Op::DefaultEmissivity,
            Op::SetReflected(Some(30.5)),
            Op::SetReflected(Some(0.0)),
            Op::SetReflected(Some(-273.15)),
            Op::SetReflected(None),
            Op::GetRes,
            Op::SetPat(0),
            Op::SetPat(1),
            Op::SetRes(3),
            Op::ResetData,
            Op::Sync,
        ]
        .into_iter()
        .map(Act::Call)
        .collect();
        acts.push(Act::Env(Event::Publish(1, 0)));
        acts.push(Act::Env(Event::Publish(2, 1)));
        let fails = vec![Fault::Fail, Fault::Partial];
        let faults: Vec<_> = [Op::Temp(0), Op::Raw(1), Op::IfReady, Op::Image, Op::SetPat(0), Op::SetRes(3), Op::Sync]
            .into_iter()
            .map(|o| (o, fails.clone()))
            .collect();
        let tags = vec![Tag::Session, Tag::Image];
        for (o, name) in &oracles {
            let CalKind::User(t) = &o.kind else { continue };
            let cal = cal_of(m, t);
            let visit = |_: &Node, s: &Step| formulas(o, &cal, s);
            let starts = match (0..2).map(|p| o.start(camera(m, p, 2))).collect::<Result<Vec<_>, _>>() {
                Ok(s) => s,
                Err(e) => return ctx.fail(e),
            };
            let cfg = Config {
                oracle: o,
                acts: acts.clone(),
                faults: faults.clone(),
                partial_writes: false,
                depth: if ctx.thorough { 6 } else { 3 },
                max_states: 60_000,
                tags: tags.clone(),
                visit: Some(&visit),
                merge: true,
                name: format!("{} {name}", m.name()),
            };
            bfs(ctx, &cfg, starts.clone());
            // Without faults, deeper.
            let long = Config { name: format!("{} {name}, long histories", m.name()), acts: acts.clone(), faults: faults.clone(), tags: tags.clone(), ..cfg };
            longrun(ctx, &long, &starts[..1], 300, if ctx.thorough { 70_000 } else { 5000 });
            let session = [Op::Emissivity, Op::Reflected, Op::Ambient, Op::Override(0.75), Op::DefaultEmissivity, Op::SetReflected(Some(30.5)), Op::SetReflected(None), Op::GetRes];
            let then = [Op::Emissivity, Op::Reflected, Op::Temp(0), Op::Ambient, Op::DefaultEmissivity, Op::Temp(1), Op::Override(0.5), Op::SetReflected(Some(10.0)), Op::Temp(0)].map(Act::Call);
            endure(ctx, o, &starts[0], &long.name, &tags, &session, &then);
            let mut turn = [Op::Temp(0), Op::Raw(1), Op::IfReady, Op::Override(0.75), Op::DefaultEmissivity, Op::SetReflected(Some(30.5)), Op::SetReflected(None)].map(Act::Call).to_vec();
            turn.extend([Act::Env(Event::Publish(1, 0)), Act::Env(Event::Publish(2, 1)), Act::Fault(Op::Temp(0), 2, Fault::Fail)]);
            cycles(ctx, &long, &starts[0], &turn, if ctx.thorough { 4 } else { 3 }, 100);
            let cfg = Config { faults: vec![], depth: if ctx.thorough { 9 } else { 5 }, ..cfg };
            bfs(ctx, &cfg, starts);
        }
        // Frames that hardly differ, or are not ordinary, after one another.
        const CALLS: [Op; 6] = [Op::Temp(0), Op::Raw(0), Op::Image, Op::IfReady, Op::Temp(1), Op::Raw(1)];
        let nf = 3 + ODD as usize;
        par(ctx, 36 * nf, |j| {
            let (a, b, f) = (CALLS[j % 6], CALLS[j / 6 % 6], (j / 36) as u8);
            let o = &oracles[j % 2].0;
            let Ok(n0) = o.start(camera(m, (j & 1) as u8, 2)) else { return };
            for g in 0..nf as u8 {
                let mut n = n0.clone();
                let s = (j as u8 ^ g) & 1;
                for act in [Act::Env(Event::Publish(f, s)), Act::Call(a), Act::Env(Event::Publish(g, 1 - s)), Act::Call(b), Act::Env(Event::Publish(1, s)), Act::Call(a)] {
                    let s = o.exec(&n, act);
                    if let Some(b) = s.bad.iter().find(|b| tags.contains(&b.0) || b.0 == Tag::Crash) {
                        return ctx.fail(format!("{}: {} | {}", m.name(), trace(&s.node.path), b.1));
                    }
                    n = s.node;
                }
                ctx.st(1);
                ctx.tr(3);
                ctx.tv(1);
            }
        });
        // The ambient temperature of any frame, however absurd, and it stays.
        let words: Vec<i16> = [0i16, 1, 2, 77, 1711, 6000, 12000, 19442, 30000, i16::MAX].iter().flat_map(|w| [*w, w.wrapping_neg().wrapping_sub(1)]).collect();
        let k = words.len();
        par(ctx, k * k, |j| {
            for (l, v) in [0i16, -13115, -13052, -1, i16::MAX, i16::MIN, 9000].into_iter().enumerate() {
                let i = (j + l) % 12;
                let (real, call) = (i < 6, CALLS[i % 6]);
                let mut d = camera(m, (j & 1) as u8, 2);
                d.status = ST_NEW | (call == Op::Temp(1) || call == Op::Raw(1)) as u16;
                d.set_word(0x700, words[j / k] as u16);
                d.set_word(0x720, words[j % k] as u16);
                d.set_word(0x72A, v as u16);
                let t = user_tables(m);
                let (cal, at) = if real { (base_cal(m), attach(d.clone())) } else { (cal_of(m, &t), attach_user(d.clone(), &t)) };
                let what = || format!("{} {call:?} with V_BE {} PTAT {} V_DD {v}", m.name(), words[j / k], words[j % k]);
                let (mut drv, w) = match at {
                    Ok(x) => x,
                    Err(e) => return ctx.fail(format!("{}: {e}", what())),
                };
                let sp = (d.status & 1) as u8;
                let c = num::common(&cal, &ram_of(&d, sp), d.resolution(), cal.emissivity.unwrap_or(1.0) as f32, None, sp, d.pattern());
                let (s, w) = match shot_mut(&mut drv, w, call, m.pixels()) {
                    Ok(x) => x,
                    Err(e) => return ctx.fail(format!("{}: {e}", what())),
                };
                match s.ambient {
                    None => return ctx.fail(format!("{}: no ambient temperature", what())),
                    Some(a) if !c.t_a.agrees(a) => return ctx.fail(format!("{}: ambient temperature {a} instead of {:?}", what(), c.t_a)),
                    _ => {}
                }
                let mut w = Some(w);
                for op in [Op::Override(0.5), Op::GetRes, Op::SetReflected(Some(3.0)), Op::SetRes(1), Op::ResetData, Op::IfReady, Op::DefaultEmissivity] {
                    drv.q_in(&mut w, op);
                    let a = drv.ambient();
                    if a.map(f32::to_bits) != s.ambient.map(f32::to_bits) {
                        return ctx.fail(format!("{}: ambient temperature {:?}, {a:?} after {op:?}", what(), s.ambient));
                    }
                }
                ctx.st(1);
                ctx.tr(8);
                ctx.tv(1);
            }
        });
        // Every two values after one another, also values that hardly differ.
        let mut near = vec![];
        for v in [0.95f32, 0.5, 1.0, 0.89, 20.0, 1e-3] {
            near.extend([v, f32::from_bits(v.to_bits() + 1), f32::from_bits(v.to_bits() - 1), v * 1.00003, v * 0.9997, v * 1.004]);
        }
        near.extend([0.0, -0.0, f32::from_bits(1), -0.95]);
        let total = near.len();
        par(ctx, total * total, |j| {
            let (a, b) = (near[j / total], near[j % total]);
            let o = &oracles[j % 2].0;
            let Ok(mut n) = o.start(camera(m, (j / 2 & 1) as u8, 2)) else { return };
            let image = CALLS[j % 5];
            for op in [Op::Override(a), image, Op::Override(b), Op::Emissivity, image, Op::SetReflected(Some(a)), Op::Temp(1), Op::SetReflected(Some(b)), Op::Reflected, Op::Temp(0), Op::DefaultEmissivity, Op::Temp(0)] {
                let s = o.exec(&n, Act::Call(op));
                if let Some(b) = s.bad.iter().find(|b| tags.contains(&b.0) || b.0 == Tag::Crash) {
                    return ctx.fail(format!("{}: {} | {}", m.name(), trace(&s.node.path), b.1));
                }
                n = s.node;
            }
            ctx.st(1);
            ctx.tr(12);
            ctx.tv(1);
        });
        // Values outside of the usual range: the session keeps their bits.
        let real = (Oracle::real(m), "");
        let values = [0.0f32, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1.5, f32::MIN_POSITIVE, 1e-42, 1.0, 0.99999994, 1.0000001, 1.05, 2.0, 100.0, -273.15, -300.0, f32::MAX];
        for (v, o) in values.iter().flat_map(|v| oracles.iter().chain([&real]).map(move |o| (*v, &o.0))) {
            let Ok(mut n) = o.start(camera(m, 1, 2)) else { continue };
            for op in [Op::Override(v), Op::GetRate, Op::Emissivity, Op::SetReflected(Some(v)), Op::Reflected, Op::ResetData, Op::Reflected, Op::DefaultEmissivity, Op::Emissivity] {
                let s = o.exec(&n, Act::Call(op));
                if let Some(b) = s.bad.iter().find(|b| b.0 == Tag::Session || b.0 == Tag::Crash) {
                    ctx.fail(format!("{}: {} | {}", m.name(), trace(&s.node.path), b.1));
                }
                n = s.node;
            }
            ctx.tr(9);
            ctx.tv(1);
        }
        // Whatever emissivity a calibration stores is the default.
        let mut stored: Vec<Option<f32>> = values.iter().map(|v| Some(*v)).collect();
        stored.extend([None, Some(0.5), Some(-0.25), Some(0.95), Some(1e30)]);
        for e in stored {
            let mut t = user_tables(m);
            t.emissivity = e;
            match attach_user(camera(m, 1, 2), &t) {
                Err(x) => ctx.fail(format!("{} stored emissivity {e:?}: {x}", m.name())),
                Ok((mut drv, w)) => {
                    let mut w = Some(w);
                    let want = Some(Ret::F(e.unwrap_or(1.0).to_bits()));
                    let a = drv.q_in(&mut w, Op::Emissivity);
                    drv.q_in(&mut w, Op::DefaultEmissivity);
                    let b = drv.q_in(&mut w, Op::Emissivity);
                    drv.q_in(&mut w, Op::Override(0.3));
                    let c = drv.q_in(&mut w, Op::Emissivity);
                    drv.q_in(&mut w, Op::DefaultEmissivity);
                    let d = drv.q_in(&mut w, Op::Emissivity);
                    if a != want || b != want || c != Some(Ret::F(0.3f32.to_bits())) || d != want {
                        ctx.fail(format!("{} stored emissivity {e:?}: at first {a:?}, reset {b:?}, overridden by 0.3 {c:?}, reset {d:?}", m.name()));
                    }
                }
            }
            ctx.st(1);
            ctx.tr(7);
            ctx.tv(1);
        }
        // The camera's own calibration; the MLX90641 stores an emissivity.
        let codes: &[u16] = if m == Model::M641 { &[0x1E6, 0x200, 0x0CD, 0x001, 0x3FF, 0x733] } else { &[0] };
        let depth = if ctx.thorough { 4 } else { 3 };
        let small: Vec<Act> = [
            Op::Temp(0),
            Op::Raw(0),
            Op::IfReady,
            Op::Override(0.75),
            Op::Override(1.0),
            Op::Override(2.5),
            Op::DefaultEmissivity,
            Op::SetReflected(Some(30.5)),
            Op::SetReflected(None),
            Op::SetRes(1),
        ]
        .into_iter()
        .map(Act::Call)
        .collect();
        for code in codes {
            let mut d = camera(m, 1, 2);
            d.status = ST_NEW;
            if m == Model::M641 {
                let mut e = (*d.eeprom).clone();
                e[0x23] = ham(*code);
                d.eeprom = Arc::new(e);
            }
            let o = Oracle::real(m);
            let start = match o.start(d) {
                Ok(n) => n,
                Err(e) => {
                    ctx.fail(e);
                    continue;
                }
            };
            let cal = rig(m, "", &start.world.devs[0].eeprom.clone(), |_| ()).map(|r| r.cal);
            let cal = match cal {
                Ok(c) => c,
                Err(e) => return ctx.fail(e),
            };
            let visit = |_: &Node, s: &Step| formulas(&o, &cal, s);
            bfs(
                ctx,
                &Config {
                    oracle: &o,
                    acts: small.clone(),
                    faults: vec![],
                    partial_writes: false,
                    depth,
                    max_states: usize::MAX,
                    tags: tags.clone(),
                    visit: Some(&visit),
                    merge: false,
                    name: format!("{} emissivity code {code:#05x}", m.name()),
                },
                vec![start],
            );
        }
        // Every stored emissivity of the MLX90641 is the default.
        if m == Model::M641 {
            par(ctx, 2048, |code| {
                let mut d = camera(m, 0, 2);
                let mut e = (*d.eeprom).clone();
                e[0x23] = ham(code as u16);
                d.eeprom = Arc::new(e);
                let want = ((code as i32) << 21 >> 21) as f32 / 512.0;
                let o = Oracle::real(m);
                match o.fresh(&d, None, None) {
                    Err(e) => ctx.fail(e),
                    Ok((mut drv, w)) => {
                        let mut w = Some(w);
                        let a = drv.q_in(&mut w, Op::Emissivity);
                        drv.q_in(&mut w, Op::Override(0.3));
                        let b = drv.q_in(&mut w, Op::Emissivity);
                        drv.q_in(&mut w, Op::DefaultEmissivity);
                        let c = drv.q_in(&mut w, Op::Emissivity);
                        let f = |x: f32| Some(Ret::F(x.to_bits()));
                        if (a, b, c) != (f(want), f(0.3), f(want)) {
                            ctx.fail(format!("stored emissivity code {code:#05x}: {a:?}, override {b:?}, default {c:?}"));
                        }
                    }
                }
                ctx.st(1);
                ctx.tr(5);
                ctx.tv(1);
            });
        }
    }
}
