//! C25: an image depends on the present frame and settings, not on history.
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::explore::*;
use crate::util::*;

const BATTERY: [Op; 6] = [Op::Temp(0), Op::Raw(1), Op::Image, Op::Temp(1), Op::Raw(0), Op::IfReady];

pub fn run(ctx: &Ctx) {
    ctx.bound("(1) explicit-state search, both models, user-defined calibration, states merged, breadth-first to the depth bound: images of either subpage, raw images, polls, every setting of pattern and resolution, other settings, session values, synchronize, 12 frames (3 ordinary, an all-zero one, one of minimal words, one partly saturated, 3 that differ from another one by one step of one word, without gain, without PTAT, with the same shared words for both subpages) on either subpage, and a bus fault at every transaction of the image calls and polls; (1b) every content of the control register, found at construction or noticed later, x 4 programs of image calls and frames; (2) all sequences to a depth with the camera's own calibration; (3) every action and pair of actions repeated 300 times, the image calls by one driver 66000 times (thorough: every single action 70000 times), (4) films of 300 (thorough: 3000) frames, all different, read by one driver into destinations that are cleared or that keep the previous image, with 40 programs of image calls, settings and failures; after each step 6 image calls (films: the image itself) give what a freshly constructed driver with the same user settings gives from the camera's contents");
    ctx.assume("the control register is changed through the driver only (changes behind its back are C13); control writes that fail have no effect");
    for m in Model::BOTH {
        let calls = [
            Op::Temp(0),
            Op::Temp(1),
            Op::Raw(0),
            Op::Raw(1),
            Op::Image,
            Op::IfReady,
            Op::SetPat(0),
            Op::SetPat(1),
            Op::SetRes(0),
            Op::SetRes(2),
            Op::SetRes(3),
            Op::SetRate(7),
            Op::SetSubpages(false),
            Op::SetRepeat(true),
            Op::SetHold(true),
            Op::SetSel(1),
            Op::SetOverwrite(false),
            Op::Override(0.75),
            Op::DefaultEmissivity,
            Op::SetReflected(Some(30.5)),
            Op::SetReflected(None),
            Op::ResetData,
            Op::DataAvailable,
            Op::GetRes,
            Op::Ambient,
            Op::Sync,
        ];
        let mut acts: Vec<Act> = calls.into_iter().map(Act::Call).collect();
        for k in 0..6 {
            acts.push(Act::Env(Event::Publish(k, k & 1)));
        }
        acts.push(Act::Env(Event::Publish(1, 0)));
        acts.push(Act::Env(Event::Publish(2, 1)));
        acts.extend([(6, 1), (7, 0), (8, 1), (12, 0), (13, 1), (17, 0)].map(|(f, s)| Act::Env(Event::Publish(f, s))));
        let both = vec![Fault::Fail, Fault::Partial];
        let faults = |kinds: &Vec<Fault>| -> Vec<(Op, Vec<Fault>)> {
            [Op::Temp(0), Op::Temp(1), Op::Raw(1), Op::Image, Op::IfReady, Op::SetPat(0), Op::SetRes(3), Op::Sync]
                .into_iter()
                .map(|o| (o, kinds.clone()))
                .collect()
        };
        for real in [false, true] {
            let o = if real { Oracle::real(m) } else { Oracle::user(m) };
            let starts = match (0..2).map(|p| o.start(camera(m, p, 2))).collect::<Result<Vec<_>, _>>() {
                Ok(s) => s,
                Err(e) => return ctx.fail(e),
            };
            let visit = |_: &Node, s: &Step| battery(&o, &s.node, &BATTERY);
            let cfg = || Config {
                oracle: &o,
                acts: acts.clone(),
                faults: vec![],
                partial_writes: false,
                depth: 0,
                max_states: 40_000,
                tags: vec![Tag::Image],
                visit: Some(&visit),
                merge: !real,
                name: format!("{} {}", m.name(), if real { "own calibration" } else { "user calibration" }),
            };
            if real {
                let depth = if ctx.thorough { 3 } else { 2 };
                bfs(ctx, &Config { depth, max_states: usize::MAX, ..cfg() }, starts.clone());
            } else {
                let (d1, d2) = if ctx.thorough { (6, 4) } else { (4, 2) };
                bfs(ctx, &Config { depth: d1, ..cfg() }, starts.clone());
                bfs(
                    ctx,
                    &Config { depth: d2, faults: faults(&both), name: format!("{} user calibration, faults", m.name()), ..cfg() },
                    starts.clone(),
                );
            }
            repeat(ctx, &o, &starts, &acts);
            if !real {
                let c = |o| Act::Call(o);
                let f = |k, s| Act::Env(Event::Publish(k, s));
                controls(ctx, &o, "images", &[Tag::Image, Tag::Session], &[
                    &[f(1, 0), c(Op::Temp(0)), c(Op::Raw(0)), f(2, 0), c(Op::Raw(0)), c(Op::Temp(0)), c(Op::Image)],
                    &[f(1, 1), c(Op::Raw(1)), c(Op::Image), f(2, 1), c(Op::Image), c(Op::Raw(1)), c(Op::IfReady)],
                    &[f(1, 0), c(Op::Raw(0)), f(2, 1), c(Op::Raw(0)), c(Op::Raw(1)), c(Op::IfReady)],
                    &[f(1, 1), c(Op::IfReady), f(2, 1), c(Op::IfReady), c(Op::Temp(1)), c(Op::Raw(0)), f(1, 0), c(Op::Temp(0))],
                ]);
            }
            film(ctx, &o, &starts);
        }
    }
}

/// Long histories: actions and pairs of actions repeated many times.
fn repeat(ctx: &Ctx, o: &Oracle, starts: &[Node], acts: &[Act]) {
    // Only the actions that may leave something behind.
    let strong: Vec<Act> = acts
        .iter()
        .filter(|a| {
            matches!(
                a,
                Act::Env(Event::Publish(1 | 3, _))
                    | Act::Call(
                        Op::Temp(0) | Op::Raw(1) | Op::Image | Op::IfReady | Op::SetPat(_) | Op::SetRes(3) | Op::SetReflected(_) | Op::Sync
                    )
            )
        })
        .cloned()
        .collect();
    let mut jobs = vec![];
    for n in starts {
        for a in &strong {
            for b in &strong {
                jobs.push((n, *a, *b, 300usize));
            }
            if ctx.thorough {
                jobs.push((n, *a, *a, 70_000));
            }
        }
    }
    if !ctx.thorough {
        // Counters of 16 bits overflow.
        let call = Act::Call;
        for p in [
            [call(Op::Temp(0)), call(Op::Temp(0))],
            [call(Op::Raw(1)), call(Op::Raw(1))],
            [call(Op::Image), call(Op::Image)],
            [Act::Env(Event::Publish(1, 0)), call(Op::IfReady)],
        ] {
            jobs.insert(0, (&starts[0], p[0], p[1], 66_000 / if p[0] == p[1] { 2 } else { 1 }));
        }
    }
    par(ctx, jobs.len(), |j| {
        let (n, a, b, times) = jobs[j];
        let mut n = n.clone();
        let mut buf = vec![0f32; o.model.pixels()];
        let mut w = n.world.clone();
        w.horizon = usize::MAX;
        w.log_on = false;
        let mut spec = n.spec;
        for _ in 0..times {
            for act in [a, b] {
                match act {
                    Act::Env(e) => w.apply(e),
                    Act::Call(op) => {
                        install(w);
                        let r = guard(|| n.drv.op(op, &mut buf));
                        w = take();
                        w.horizon = usize::MAX;
                        match r {
                            Err(e) => {
                                return ctx.fail(format!("{times} x {}: {e}", trace(&[a, b])));
                            }
                            Ok(r) if r.is_err() => {
                                return ctx.fail(format!("{times} x {}: {op:?} returned {r:?}", trace(&[a, b])));
                            }
                            _ => {}
                        }
                        if let Op::SetReflected(t) = op {
                            spec.tr = t;
                        }
                        ctx.tr(1);
                    }
                    _ => {}
                }
            }
        }
        w.ntx = 0;
        w.horizon = 3000;
        n.world = w;
        n.spec = spec;
        ctx.st(1);
        ctx.tv(1);
        if let Err(e) = battery(o, &n, &BATTERY) {
            ctx.fail(format!("{} after {times} x {}: {e}", o.model.name(), trace(&[a, b])));
        }
    });
}

/// Films: a driver reads many different frames, and every one of its images is that of a freshly
/// constructed driver.
fn film(ctx: &Ctx, o: &Oracle, starts: &[Node]) {
    let m = o.model;
    let n = m.pixels();
    // Program: how the frames are read, what else happens.
    par(ctx, 40 * starts.len(), |j| {
        let mut node = starts[j / 40].clone();
        node.world.log_on = false;
        let (how, other) = (j % 4, j / 4 % 10);
        let mut buf = vec![0f32; n];
        for k in 0..if ctx.thorough { 3000u64 } else { 300 } {
            // Frames of a moving scene; with some programs only the shared words change.
            let mut ram = frame_ram(m, if other == 7 { 1 } else { k });
            for (i, a) in [m.vbe(), m.ptat(), m.gain(), m.vdd(), m.cp(0), m.cp(1)].into_iter().enumerate() {
                let w = &mut ram[(a - RAM_BASE) as usize];
                *w = w.wrapping_add((mix(k * 8 + i as u64) % 61) as u16);
            }
            let sub = match how {
                0 => (k & 1) as u8,
                1 => (j & 1) as u8,
                2 => (k % 3 == 2) as u8,
                _ => (mix(k) & 1) as u8,
            };
            let d = node.world.dev();
            d.ram = ram;
            announce(d, sub);
            let mut before = vec![];
            match other {
                1 if k % 7 == 3 => before.push(Op::SetPat((k / 7 & 1) as u8)),
                2 if k % 11 == 5 => before.push(Op::SetRes((k / 11 & 3) as u8)),
                3 if k % 5 == 2 => before.push(Op::SetReflected((k % 2 == 0).then_some(k as f32 - 100.0))),
                4 if k % 5 == 2 => before.push(if k % 2 == 0 { Op::DefaultEmissivity } else { Op::Override(0.4 + k as f32 * 1e-4) }),
                5 => before.push(Op::IfReady),
                6 if k % 3 == 1 => before.push(Op::Raw(1 - sub)),
                // Settings that hardly change.
                8 => before.push(Op::Override(0.95 + k as f32 * 1e-6)),
                9 => before.push(Op::SetReflected(Some(20.0 + k as f32 * 1e-4))),
                _ => {}
            }
            let op = match (how, k % 3) {
                (0, _) => Op::IfReady,
                (1, _) => Op::Temp(sub),
                (2, _) => Op::Raw(sub),
                (_, 0) => Op::Image,
                (_, 1) => Op::Temp(sub),
                _ => Op::Raw(sub),
            };
            let what = || format!("{} film, program {how}/{other}, frame {k}", m.name());
            for b in before {
                node.world.ntx = 0;
                let mut w = Some(std::mem::replace(&mut node.world, World::default()));
                if b.is_image() {
                    install(w.take().unwrap());
                    let r = guard(|| node.drv.op(b, &mut buf));
                    node.world = take();
                    if let Err(e) = r {
                        return ctx.fail(format!("{}: {b:?}: {e}", what()));
                    }
                    announce(node.world.dev(), sub);
                } else {
                    node.drv.q_in(&mut w, b);
                    node.world = w.unwrap();
                }
                match b {
                    Op::SetReflected(t) => node.spec.tr = t,
                    Op::Override(e) => node.spec.em = e,
                    Op::DefaultEmissivity => node.spec.em = node.spec.default_em,
                    _ => {}
                }
            }
            node.world.ntx = 0;
            if other == 0 && k % 4 == 1 {
                // A call that fails, and its repetition.
                let mut w = node.world.clone();
                w.faults = vec![((mix(k) % 5) as usize, Fault::Fail)];
                install(w);
                let r = guard(|| node.drv.op(op, &mut buf));
                node.world = take();
                node.world.faults.clear();
                node.world.ntx = 0;
                if let Err(e) = r {
                    return ctx.fail(format!("{}: failing {op:?}: {e}", what()));
                }
                announce(node.world.dev(), sub);
            }
            let (f, fw) = match o.fresh_for(&node) {
                Ok(x) => x,
                Err(e) => return ctx.fail(format!("{}: {e}", what())),
            };
            let want = match shot(&f, &fw, op, n) {
                Ok(x) => x,
                Err(e) => return ctx.fail(format!("{}: {e}", what())),
            };
            // With some programs the destination keeps the image so far.
            if (how + other) % 2 == 0 {
                buf.iter_mut().for_each(|x| *x = S1);
            }
            let held = buf.clone();
            let w = std::mem::replace(&mut node.world, World::default());
            install(w);
            let r = guard(|| node.drv.op(op, &mut buf));
            node.world = take();
            match r {
                Ok(r) if r == want.ret && !r.is_err() => {}
                r => return ctx.fail(format!("{}: {op:?} returned {r:?}, with a fresh driver {:?}", what(), want.ret)),
            }
            for i in 0..n {
                let want = if want.px[i].to_bits() == S1.to_bits() { held[i] } else { want.px[i] };
                if !same_bits(buf[i].to_bits(), want.to_bits()) {
                    return ctx.fail(format!("{}: {op:?}: pixel {i} is {}, with a fresh driver {}", what(), buf[i], want));
                }
            }
            if node.drv.ambient().map(f32::to_bits) != want.ambient.map(f32::to_bits) {
                return ctx.fail(format!("{}: {op:?}: ambient temperature {:?}, with a fresh driver {:?}", what(), node.drv.ambient(), want.ambient));
            }
            ctx.tr(2);
        }
        ctx.st(1);
        ctx.tv(1);
    });
}
