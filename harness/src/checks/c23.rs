//! C23: a frame arriving during a read never mixes subpages or misattributes data.
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::explore::*;
use crate::util::*;
use std::collections::HashMap;

/// A call during which the camera publishes frames.
struct Case<'a> {
    o: &'a Oracle,
    node: &'a Node,
    op: Op,
    events: Vec<(usize, Event)>,
}

struct Ran {
    ret: Ret,
    px: Vec<Option<u32>>,
    ambient: Option<u32>,
    drv: Drv,
    world: World,
}

fn run_case(c: &Case) -> Result<Ran, String> {
    let n = c.o.model.pixels();
    let mut res: Option<(Ret, Vec<f32>, Drv, World)> = None;
    let mut px = vec![];
    for s in [S1, S2] {
        let mut w = c.node.world.clone();
        w.ntx = 0;
        w.log_on = true;
        w.log.clear();
        w.words_on = true;
        w.words.clear();
        w.horizon = 3000;
        w.events = c.events.clone();
        let mut d = c.node.drv.clone();
        let mut buf = vec![s; n];
        install(w);
        let r = guard(|| d.op(c.op, &mut buf));
        let w = take();
        let r = r?;
        match &res {
            None => res = Some((r, buf, d, w)),
            Some((r1, b1, _, _)) => {
                if *r1 != r {
                    return Err("the result depends on the destination's content".into());
                }
                for i in 0..n {
                    let (x, y) = (b1[i].to_bits(), buf[i].to_bits());
                    px.push(if x == S1.to_bits() && y == S2.to_bits() {
                        None
                    } else if same_bits(x, y) {
                        Some(x)
                    } else {
                        return Err(format!("destination element {i} depends on its previous content"));
                    });
                }
            }
        }
    }
    let (ret, _, mut drv, world) = res.unwrap();
    let ambient = drv.ambient().map(f32::to_bits);
    Ok(Ran { ret, px, ambient, drv, world })
}

/// What the call had to produce from the words that it read.
fn judge(c: &Case, r: &Ran) -> Result<bool, String> {
    let m = c.o.model;
    let first = r.world.words.iter().find(|w| w.0 == STATUS).map(|w| w.1);
    let sp = match c.op {
        Op::Raw(s) | Op::Temp(s) => s,
        _ => match first {
            Some(s) => (s & 1) as u8,
            None => return Err("did not look at the status register".into()),
        },
    };
    if c.op == Op::IfReady && first.unwrap() & ST_NEW == 0 {
        if r.ret != Ret::Bool(false) || r.px.iter().any(|p| p.is_some()) {
            return Err(format!("returned {:?} without new data at the start", r.ret));
        }
        return Ok(false);
    }
    let want_ret = if c.op == Op::IfReady { Ret::Bool(true) } else { Ret::Unit };
    if r.ret != want_ret {
        return Err(format!("returned {:?}", r.ret));
    }
    let mut spec = c.node.spec;
    if let Some(w) = r.world.words.iter().rev().find(|w| w.0 == CONTROL) {
        spec.last = w.1;
    }
    let pat = (spec.last >> 12 & 1) as u8;
    // The camera as the driver saw it.
    let mut seen: [HashMap<u16, u16>; 2] = [HashMap::new(), HashMap::new()];
    for (a, v) in &r.world.words {
        seen[0].insert(*a, *v);
        seen[1].entry(*a).or_insert(*v);
    }
    let mut need: Vec<u16> = vec![m.vbe(), m.ptat(), m.gain(), m.vdd(), m.cp(sp)];
    for p in 0..m.pixels() {
        if m.in_subpage(pat, sp, p) {
            need.push(m.pixel_addr(sp, p));
        }
    }
    if let Some(a) = need.iter().find(|a| !seen[0].contains_key(a)) {
        return Err(format!("the word at {a:#06x} was not read although its pixel was to be delivered"));
    }
    let raw = matches!(c.op, Op::Raw(_));
    let em = (spec.em.to_bits() != spec.default_em.to_bits()).then_some(spec.em);
    let mut err = String::new();
    for s in &seen {
        let mut d = c.node.world.devs[0].clone();
        for a in &need {
            d.set_word(*a, s[a]);
        }
        // Words the driver did not need must not matter.
        for a in RAM_BASE..RAM_BASE + m.ram_words() as u16 {
            if !need.contains(&a) {
                d.set_word(a, 0x1234 ^ a);
            }
        }
        let want = c.o.image(&d, spec.last, em, spec.tr, raw, sp)?;
        let e = same_px(&r.px, &want.px).and_then(|_| {
            same_img(&Img { ret: want.ret, px: vec![], ambient: r.ambient }, &Img { ret: want.ret, px: vec![], ambient: want.ambient })
        });
        match e {
            Ok(()) => return Ok(true),
            Err(e) => err = e,
        }
    }
    Err(format!("subpage {sp}, compared with processing the words that were read: {err}"))
}

pub fn run(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.bound(format!("both models x both patterns x own and user-defined calibration x every image call x announced or not x both announced subpages x every frame (3 contents x 2 subpages) arriving before any transaction of the call, 16 frames that are not ordinary (no gain, no PTAT, all zero, saturated, one step away from another one ...) being read or arriving likewise, every two frames before any two transactions{}, and an access pattern or resolution change made by somebody else at any one of them together with a frame; the same for every single frame at every transaction after any one action out of every call, the calls with bus transactions failing at any of their first four, frames and register changes; then the following poll", if t { ", every three frames before any three" } else { "" }));
    ctx.assume("a frame of the camera appears in RAM between two bus transactions, not in the middle of one");
    let frames: Vec<Event> = (0..3).flat_map(|f| (0..2).map(move |s| Event::Publish(f, s))).collect();
    let odd: Vec<Event> = (3..3 + ODD).flat_map(|f| (0..2).map(move |s| Event::Publish(f, s))).collect();
    let ops = [Op::IfReady, Op::Image, Op::Temp(0), Op::Temp(1), Op::Raw(0), Op::Raw(1)];
    for m in Model::BOTH {
        let mut jobs = vec![];
        let oracles = [Oracle::real(m), Oracle::user(m)];
        let mut nodes = vec![];
        let mut unusual = vec![];
        for (k, o) in oracles.iter().enumerate() {
            for p in 0..2u8 {
                for st in [0u16, 1, 8, 9] {
                    let mut d = camera(m, p, 2);
                    d.status = st;
                    let n = match o.start(d) {
                        Ok(n) => n,
                        Err(e) => return ctx.fail(e),
                    };
                    // With session settings in half of the cases.
                    let n = if st & 1 == 0 {
                        n
                    } else {
                        let mut n = n;
                        for op in [Op::Override(0.8), Op::SetReflected(Some(11.0))] {
                            n = o.exec(&n, Act::Call(op)).node;
                        }
                        n
                    };
                    // ... and of a camera that holds a frame which is not ordinary.
                    for f in if k == 0 { 0..0 } else { 3..3 + ODD } {
                        let mut n = n.clone();
                        let d = n.world.dev();
                        let (was, sp) = (d.status, st as u8 & 1);
                        d.publish(f, 1 - sp);
                        d.publish(f, sp);
                        d.status = was;
                        unusual.push((k, n));
                    }
                    nodes.push((k, n));
                }
            }
        }
        for i in 0..nodes.len() {
            for op in ops {
                for f in 0..frames.len() {
                    jobs.push((i, op, f));
                }
            }
        }
        // Frames that are not ordinary are read, or arrive.
        let ordinary = nodes.len();
        nodes.extend(unusual);
        for i in 0..nodes.len() {
            for op in ops {
                jobs.push((i, op, frames.len()));
            }
        }
        par(ctx, jobs.len(), |j| {
            let (i, op, f) = jobs[j];
            let (k, node) = &nodes[i];
            let o = &oracles[*k];
            let one = |events: Vec<(usize, Event)>, then: bool| -> Option<usize> {
                let c = Case { o, node, op, events };
                let name = || format!("{} status {:#x} control {:#06x}: {op:?} with {:?}", m.name(), node.world.devs[0].status, node.world.devs[0].control, c.events);
                let r = match run_case(&c) {
                    Ok(r) => r,
                    Err(e) => {
                        ctx.fail(format!("{}: {e}", name()));
                        return None;
                    }
                };
                match judge(&c, &r) {
                    Err(e) => ctx.fail(format!("{}: {e}", name())),
                    Ok(delivered) => {
                        if then && delivered {
                            // The next image, undisturbed, shows the camera's present content.
                            let mut w = r.world.clone();
                            w.events.clear();
                            let next = Node { drv: r.drv.clone(), world: w, spec: node.spec, path: vec![] };
                            let c2 = Case { o, node: &next, op: Op::Image, events: vec![] };
                            let e = run_case(&c2).and_then(|r2| judge(&c2, &r2));
                            if let Err(e) = e {
                                ctx.fail(format!("{}; then Image: {e}", name()));
                            }
                            ctx.tr(1);
                        }
                    }
                }
                ctx.st(1);
                ctx.tr(2);
                ctx.tv(1);
                Some(r.world.ntx)
            };
            let Some(n) = one(vec![], true) else { return };
            if f == frames.len() {
                for a in 0..n {
                    if i < ordinary {
                        for e in &odd {
                            one(vec![(a, *e)], true);
                        }
                    } else {
                        for e in &frames {
                            one(vec![(a, *e)], false);
                        }
                    }
                }
                return;
            }
            for a in 0..n {
                one(vec![(a, frames[f])], true);
                for c in [0x0901u16, 0x1901, 0x0101, 0x1D01] {
                    for b in [0, a / 2, a, n - 1] {
                        one(vec![(b, Event::SetControl(c)), (a, frames[f])], false);
                    }
                }
                for b in a..n {
                    for g in &frames {
                        one(vec![(a, frames[f]), (b, *g)], false);
                        if t && b > a {
                            for c in b + 1..n {
                                one(vec![(a, frames[f]), (b, *g), (c, frames[(f + 1) % 6])], false);
                                one(vec![(a, frames[f]), (b, *g), (c, frames[(f + 4) % 6])], false);
                            }
                        }
                    }
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        });
    }
    // After any one action.
    for m in Model::BOTH {
        let mut acts: Vec<Act> = Op::all().into_iter().map(Act::Call).collect();
        for op in [Op::IfReady, Op::Image, Op::Temp(0), Op::Raw(1), Op::DataAvailable, Op::ResetData, Op::Sync, Op::GetPat, Op::SetPat(0), Op::SetPat(1), Op::SetRes(1), Op::SetOverwrite(true)] {
            acts.extend((0..4).flat_map(|k| [Act::Fault(op, k, Fault::Fail), Act::Fault(op, k, Fault::Partial)]));
        }
        acts.extend(frames.iter().map(|e| Act::Env(*e)));
        for e in [Event::SetControl(0x0901), Event::SetControl(0x1D01), Event::SetStatus(0x5A48), Event::SetStatus(0xA5B1)] {
            acts.push(Act::Env(e));
        }
        let oracles = [Oracle::real(m), Oracle::user(m)];
        let starts: Vec<(u8, u16)> = if t { vec![(0, 1), (0, 8), (1, 0), (1, 9), (0, 9), (1, 8)] } else { vec![(0, 9), (1, 8)] };
        par(ctx, acts.len() * starts.len(), |j| {
            let (p, st) = starts[j % starts.len()];
            let o = &oracles[j / starts.len() % 2];
            let mut d = camera(m, p, 2);
            d.status = st;
            d.on_start = Some((2, 1, st as u8 & 1));
            let node = match o.start(d) {
                Ok(n) => o.exec(&n, acts[j / starts.len()]).node,
                Err(e) => return ctx.fail(e),
            };
            // What was available was read by the action, or not; something is available in any case.
            for again in [false, true] {
                let mut node = node.clone();
                node.world.dev().measuring = None;
                if again {
                    node.world.dev().status = st ^ 1;
                }
                for op in ops {
                    let name = || format!("{} from status {st:#x} pattern {p} after {:?}{}: {op:?}", m.name(), acts[j / starts.len()], if again { " and a new status" } else { "" });
                    let one = |events: Vec<(usize, Event)>| -> Option<usize> {
                        let c = Case { o, node: &node, op, events };
                        ctx.st(1);
                        ctx.tr(2);
                        ctx.tv(1);
                        match run_case(&c).and_then(|r| judge(&c, &r).map(|_| r.world.ntx)) {
                            Ok(n) => Some(n),
                            Err(e) => {
                                ctx.fail(format!("{} with {:?}: {e}", name(), c.events));
                                None
                            }
                        }
                    };
                    let Some(n) = one(vec![]) else { return };
                    for a in 0..n {
                        for f in &frames {
                            one(vec![(a, *f)]);
                        }
                    }
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        });
    }
    ctx.sample("MLX90641 IfReady, subpage 0 announced, a frame of subpage 1 arriving before the 4th transaction: pixels from the subpage 0 words as read, V_DD of the new frame");
}
