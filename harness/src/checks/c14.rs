//! C14: a frame is acknowledged only with its delivery.
use crate::ctx::{par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::explore::*;
use crate::util::*;

/// What has to hold for a poll besides the general specification.
fn poll(n: &Node, s: &Step) -> Result<(), String> {
    let (d0, d1) = (&n.world.devs[0], &s.node.world.devs[0]);
    let Some(Act::Call(Op::IfReady) | Act::Fault(Op::IfReady, _, _)) = s.node.path.last() else {
        return Ok(());
    };
    if s.ret == Some(Ret::Bool(false)) {
        if s.node.drv.fingerprint() != n.drv.fingerprint() {
            return Err("a poll without new data changed the driver's state".into());
        }
        if (d0.status, d0.control, d0.i2creg) != (d1.status, d1.control, d1.i2creg) {
            return Err("a poll without new data changed the camera".into());
        }
        if s.log.iter().any(|t| t.write) {
            return Err("a poll without new data wrote to the camera".into());
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.bound("(1) explicit-state search: both models, both patterns; alphabet: polling, clearing the flag, reading the flag, synchronizing, image calls, a setter of each register, new frames of both subpages (also several in a row and before a poll is repeated); every transaction of polling and flag clearing failing without effect, in the middle of a read, or after the write took effect. (1b) every action and pair of actions (also failing at the first or last transaction) repeated 300 times, every cycle of 4 out of 8 actions 100 times, single ones 70000 times. (1a) every content of the control register, found at construction or noticed later, with films of two frames polled; (1b) idle polls for 64 flag combinations x 90 contents of the destination; (1c) all films of 4 (thorough: 5) frames out of 6 contents (also all-zero, without gain, with the same shared words for both subpages, one step away from another) on either subpage, polled twice each. (1d) every destination length 0..=pixels+70 and larger ones. (2) polling with all 65536 contents of the status register, each with every transaction failing");
    ctx.assume("frames arrive between driver calls (frames arriving within a call: C23)");
    let uo = Model::BOTH.map(Oracle::user);
    for m in Model::BOTH {
        let o = Oracle::user(m);
        let mut starts = vec![];
        for p in 0..2 {
            for st in [0x0000, 0xFFD6] {
                let mut d = camera(m, p, 2);
                d.status = st;
                match o.start(d) {
                    Ok(n) => starts.push(n),
                    Err(e) => return ctx.fail(e),
                }
            }
        }
        let mut acts: Vec<Act> = [
            Op::IfReady,
            Op::ResetData,
            Op::DataAvailable,
            Op::LastSubpage,
            Op::Image,
            Op::Temp(0),
            Op::Temp(1),
            Op::SetPat(0),
            Op::SetPat(1),
            Op::SetOverwrite(true),
            Op::SetOverwrite(false),
            Op::Sync,
        ]
        .into_iter()
        .map(Act::Call)
        .collect();
        for f in 0..3 {
            for s in 0..2 {
                acts.push(Act::Env(Event::Publish(f, s)));
            }
        }
        let all = vec![Fault::Fail, Fault::Partial];
        let cfg = Config {
            oracle: &o,
            acts,
            faults: vec![(Op::IfReady, all.clone()), (Op::ResetData, all.clone()), (Op::Sync, all)],
            partial_writes: true,
            depth: if ctx.thorough { 7 } else { 4 },
            max_states: 150_000,
            tags: vec![Tag::Poll, Tag::Image, Tag::Device],
            visit: Some(&poll),
            merge: true,
            name: format!("{} handshake", m.name()),
        };
        bfs(ctx, &cfg, starts.clone());
        let cfg = Config { name: format!("{} long handshake", m.name()), ..cfg };
        longrun(ctx, &cfg, &starts[..1], 300, if ctx.thorough { 140_000 } else { 70_000 });
        let idle = starts[0].clone();
        let idle = o.exec(&idle, Act::Env(Event::SetStatus(0x0010))).node;
        let then = [
            Act::Call(Op::IfReady),
            Act::Env(Event::Publish(1, 1)),
            Act::Call(Op::IfReady),
            Act::Call(Op::IfReady),
            Act::Env(Event::Publish(2, 0)),
            Act::Fault(Op::IfReady, 3, Fault::Fail),
            Act::Call(Op::IfReady),
            Act::Call(Op::IfReady),
        ];
        let again = [Op::IfReady, Op::DataAvailable, Op::LastSubpage, Op::ResetData, Op::GetOverwrite, Op::GetRate];
        endure(ctx, &o, &idle, &format!("{} idle", m.name()), &cfg.tags, &again, &then);
        let mut few = [Op::IfReady, Op::Image, Op::ResetData, Op::Sync].map(Act::Call).to_vec();
        few.extend([Event::Publish(1, 0), Event::Publish(2, 1), Event::Publish(2, 0)].map(Act::Env));
        few.push(Act::Fault(Op::IfReady, 2, Fault::Fail));
        cycles(ctx, &cfg, &starts[1], &few, 4, if ctx.thorough { 600 } else { 100 });
        let poll = Act::Call(Op::IfReady);
        let (f1, f2) = (|s| Act::Env(Event::Publish(1, s)), |s| Act::Env(Event::Publish(2, s)));
        controls(ctx, &o, "polling", &[Tag::Poll, Tag::Image, Tag::Device], &[
            &[poll, f1(1), poll, poll, f2(0), poll],
            &[poll, f1(0), poll, poll, f2(1), poll],
            &[f1(1), poll, f2(1), poll, poll],
        ]);
        // A frame per poll: every schedule of arrivals and polls of a given length delivers each
        // announced frame exactly once.
        let n = if ctx.thorough { 16 } else { 11 };
        par(ctx, 1 << n, |bits| {
            let Ok(node) = o.start(camera(m, (bits & 1) as u8, 2)) else { return };
            let mut node = node;
            let mut due: Option<(u8, u8)> = None;
            for i in 0..n {
                let a = if bits >> i & 1 == 1 {
                    let f = ((i / 2) % 3) as u8;
                    let s = (mix(i as u64 + bits as u64) & 1) as u8;
                    due = Some((f, s));
                    Act::Env(Event::Publish(f, s))
                } else {
                    Act::Call(Op::IfReady)
                };
                let s = o.exec(&node, a);
                if let Some(r) = s.ret {
                    let ok = r == Ret::Bool(due.is_some()) && s.bad.is_empty();
                    if !ok {
                        return ctx.fail(format!(
                            "{}: {} | announced frame {due:?}, returned {r:?} {:?}",
                            m.name(),
                            trace(&s.node.path),
                            s.bad.first().map(|b| &b.1)
                        ));
                    }
                    due = None;
                }
                node = s.node;
            }
            ctx.tr(n as u64);
            ctx.tv(1);
        });
        ctx.st(1 << n);
    }
    // Films of frames that repeat each other or are not ordinary: each is delivered once.
    const CAST: [u8; 6] = [0, 1, 17, 3, 12, 6];
    let len = if ctx.thorough { 5 } else { 4 };
    par(ctx, 2 * 12usize.pow(len), |j| {
        let (m, mut film) = (Model::BOTH[j % 2], j / 2);
        let o = &uo[j % 2];
        let Ok(mut n) = o.start(camera(m, (j / 2 % 7 & 1) as u8, 2)) else { return };
        for _ in 0..len {
            let e = Event::Publish(CAST[film % 6], (film / 6 % 2) as u8);
            film /= 12;
            for (act, want) in [(Act::Env(e), None), (Act::Call(Op::IfReady), Some(true)), (Act::Call(Op::IfReady), Some(false))] {
                let s = o.exec(&n, act);
                let bad = s.bad.iter().find(|b| matches!(b.0, Tag::Crash | Tag::Poll | Tag::Image | Tag::Device)).map(|b| b.1.clone());
                let bad = bad.or_else(|| (s.ret != want.map(Ret::Bool)).then(|| format!("returned {:?}", s.ret)));
                if let Some(e) = bad {
                    return ctx.fail(format!("{}: {} | {e}", m.name(), trace(&s.node.path)));
                }
                n = s.node;
            }
        }
        ctx.st(1);
        ctx.tr(2 * len as u64);
        ctx.tv(1);
    });
    // A poll without new data leaves a destination alone, whatever it holds.
    par(ctx, 2 * 2 * 64, |j| {
        let m = Model::BOTH[j & 1];
        let p = (j >> 1 & 1) as u8;
        let mut d = camera(m, p, 2);
        let st = (j >> 2) as u16;
        d.status = st & !ST_NEW & 0x3F | if j % 5 == 0 { 0xFFC0 } else { 0 };
        let (drv, w) = match attach(d) {
            Ok(x) => x,
            Err(e) => return ctx.fail(e),
        };
        let like = match shot(&drv, &w, Op::Temp((st & 1) as u8), m.pixels()) {
            Ok(x) => x.px,
            Err(e) => return ctx.fail(e),
        };
        // Also by a driver that delivered an image before.
        for before in [false, true] {
            let (mut drv, mut w) = (drv.clone(), w.clone());
            if before {
                match shot_mut(&mut drv, w, Op::Temp(1 - (st & 1) as u8), m.pixels()) {
                    Ok(x) => w = x.1,
                    Err(e) => return ctx.fail(e),
                }
            }
            let amb = drv.ambient().map(f32::to_bits);
            for (name, fill) in contents(&like) {
                let mut d = drv.clone();
                let mut buf = fill.clone();
                w.ntx = 0;
                install(w.clone());
                let r = crate::ctx::guard(|| d.op(Op::IfReady, &mut buf));
                let w1 = take();
                let same = (0..buf.len()).all(|i| buf[i].to_bits() == fill[i].to_bits());
                if r != Ok(Ret::Bool(false)) || !same || w1.devs[0].status != w.devs[0].status || d.ambient().map(f32::to_bits) != amb {
                    return ctx.fail(format!(
                        "{} pattern {p} status {:#06x} destination holding {name}: a poll returned {r:?}, destination unchanged: {same}, status {:#06x}",
                        m.name(), w.devs[0].status, w1.devs[0].status
                    ));
                }
                ctx.st(1);
                ctx.tr(1);
                ctx.tv(1);
            }
        }
    });
    // Every length of the destination: polling delivers what fits and acknowledges.
    par(ctx, 2 * 2 * 2, |j| {
        let m = Model::BOTH[j & 1];
        let (p, sub) = ((j >> 1 & 1) as u8, (j >> 2 & 1) as u8);
        let n = m.pixels();
        let mut d = camera(m, p, 2);
        d.status = 0x0110 | sub as u16;
        let (drv, mut w) = match attach(d) {
            Ok(x) => x,
            Err(e) => return ctx.fail(e),
        };
        let full = match shot(&drv, &w, Op::Temp(sub), n) {
            Ok(x) => x,
            Err(e) => return ctx.fail(e),
        };
        for len in (0..=n + 70).chain([2 * n, 4 * n, 65_536, 65_537, 100_000]) {
            for new in [false, true] {
                let st = 0x0110 | sub as u16;
                w.dev().status = if new { st | ST_NEW } else { st };
                w.ntx = 0;
                let mut dr = drv.clone();
                let what = || format!("{} pattern {p} subpage {sub} new data {new} destination of {len}", m.name());
                let (x, w1) = match shot_mut(&mut dr, w.clone(), Op::IfReady, len) {
                    Ok(x) => x,
                    Err(e) => return ctx.fail(format!("{}: {e}", what())),
                };
                if x.ret != Ret::Bool(new) {
                    return ctx.fail(format!("{}: a poll returned {:?}", what(), x.ret));
                }
                if w1.devs[0].status != st {
                    return ctx.fail(format!("{}: status {:#06x} afterwards", what(), w1.devs[0].status));
                }
                let amb = if new { full.ambient } else { None };
                if x.ambient.map(f32::to_bits) != amb.map(f32::to_bits) {
                    return ctx.fail(format!("{}: ambient temperature {:?}", what(), x.ambient));
                }
                for i in 0..len {
                    let v = if new && i < n { full.px[i] } else { S1 };
                    if !same_bits(x.px[i].to_bits(), v.to_bits()) {
                        return ctx.fail(format!("{}: element {i} is {} instead of {v}", what(), x.px[i]));
                    }
                }
                ctx.st(1);
                ctx.tr(1);
                ctx.tv(1);
            }
        }
    });
    // Every content of the status register.
    par(ctx, 2 * 2 * 64, |j| {
        let m = Model::BOTH[j & 1];
        let p = (j >> 1 & 1) as u8;
        let o = Oracle::user(m);
        let Ok(n0) = o.start(camera(m, p, 2)) else { return };
        let mut steps = 0;
        for v in 0..1024 {
            let st = ((j >> 2) * 1024 + v) as u16;
            let n = o.exec(&n0, Act::Env(Event::SetStatus(st))).node;
            let mut one = |act: Act| {
                let s = o.exec(&n, act);
                steps += 1;
                let e = s
                    .bad
                    .iter()
                    .find(|b| matches!(b.0, Tag::Crash | Tag::Poll | Tag::Image | Tag::Device))
                    .map(|b| b.1.clone())
                    .or_else(|| poll(&n, &s).err());
                if let Some(e) = e {
                    ctx.fail(format!("{} pattern {p} status {st:#06x}: {} | {e}", m.name(), trace(&s.node.path)));
                }
                s
            };
            let s = one(Act::Call(Op::IfReady));
            // Failing transactions: the acknowledgement always, the reads for a subset.
            for k in 0..s.log.len() {
                if k + 1 == s.log.len() || k < 2 || st & 0xFF0 == 0xA50 {
                    for f in [Fault::Fail, Fault::Partial] {
                        let t = one(Act::Fault(Op::IfReady, k, f));
                        let d = &t.node.world.devs[0];
                        if f == Fault::Fail && d.status != st {
                            ctx.fail(format!(
                                "{} pattern {p} status {st:#06x}: a poll that failed at transaction {k} left status {:#06x}",
                                m.name(),
                                d.status
                            ));
                        }
                    }
                }
            }
            if ctx.stopped() {
                return;
            }
        }
        ctx.st(1024);
        ctx.tr(steps);
        ctx.tv(steps);
    });
}
