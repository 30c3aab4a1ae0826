//! C17: synchronize returns only once a fresh measurement is complete.
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::explore::*;
use crate::util::*;

struct Run {
    ret: Ret,
    log: Vec<Tx>,
    world: World,
    drv: Drv,
}

fn run_sync(n: &Node, f: impl FnOnce(&mut World)) -> Result<Run, String> {
    let mut w = n.world.clone();
    w.ntx = 0;
    w.log.clear();
    w.log_on = true;
    w.horizon = 3000;
    f(&mut w);
    let mut drv = n.drv.clone();
    install(w);
    let r = guard(|| drv.q(Op::Sync));
    let mut world = take();
    let log = std::mem::take(&mut world.log);
    Ok(Run { ret: r?, log, world, drv })
}

/// What has to hold for every completed call.  `before` is the status register before the call.
fn judge(before: &Dev, r: &Run, fault: Option<usize>) -> Result<(), String> {
    let d = &r.world.devs[0];
    for (i, t) in r.log.iter().enumerate() {
        if t.bad.is_some() || t.write && t.reg != STATUS {
            return Err(format!("transaction {i}: {t:?}"));
        }
    }
    // The request: overwriting and a measurement are requested, the flag is cleared, and everything
    // else is as read.
    let mut requested = None;
    let mut read = None;
    for (i, t) in r.log.iter().enumerate() {
        if !t.ok {
            continue;
        }
        if t.write {
            let cur = read.unwrap_or(before.status);
            let want = cur & !(ST_NEW | 7) | ST_OVR | ST_START;
            if t.value & !7 != want {
                return Err(format!("wrote {:#06x} to the status register that held {cur:#06x}", t.value));
            }
            requested.get_or_insert(i);
        } else if t.reg == STATUS {
            read = Some(t.value);
        }
    }
    if let Some(k) = fault {
        let want = if r.log[k].write { Ret::Write(k as u32) } else { Ret::Read(k as u32) };
        if r.ret != want || r.log.len() != k + 1 {
            return Err(format!("returned {:?} after {} transactions", r.ret, r.log.len()));
        }
    } else {
        if r.ret != Ret::Unit {
            return Err(format!("returned {:?}", r.ret));
        }
        let Some(q) = requested else {
            return Err("no measurement was requested".into());
        };
        if !r.log[q + 1..].iter().any(|t| !t.write && t.reg == STATUS && t.value & ST_NEW != 0) {
            return Err("returned before the camera signalled new data after the request".into());
        }
        if d.status & ST_NEW == 0 {
            return Err("the fresh data was discarded".into());
        }
    }
    if (d.control, d.i2creg) != (before.control, before.i2creg) {
        return Err(format!("left control {:#06x}, I2C {:#06x}", d.control, d.i2creg));
    }
    // Reserved bits.
    if (d.status ^ before.status) & 0xFFC0 != 0 {
        return Err(format!("left status {:#06x}", d.status));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.bound("both models; (1) all 65536 contents of the status register x 4 delays; (2) 64 flag combinations x every delay of 0..=40 polls and 300, 5000, 70000, 1100000 (thorough: 6000000), two of them x 20000000 (thorough: 2200000000), x the requested measurement being either subpage; (3) 64 flag combinations x delays 0..=6 x a frame of the running camera arriving at any one or two transaction boundaries; (3b) 64 flag combinations x delays 0..=8 x the camera clearing the start bit after 0..=12 reads; (4) 64 flag combinations x delays 0..=6 x every transaction failing (without effect, half way, or after the write took effect), then a second call; (5) control register contents with every single bit and its complement; (6) synchronize, alone and alternating with every other call, repeated 300 times (alone 70000 times), also with frames of the running camera in between; (7) synchronize after every two actions out of all calls, calls failing at any of their first three transactions, frames and foreign changes of both registers, with two contents of the status register set immediately before or none; afterwards polling delivers the measured frame");
    for m in Model::BOTH {
        let o = Oracle::user(m);
        let node = match o.start(camera(m, (m == Model::M640) as u8, 2)) {
            Ok(n) => n,
            Err(e) => return ctx.fail(e),
        };
        let set = |n: &Node, st: u16, delay: u32, f: u8, sp: u8| {
            let mut n = n.clone();
            let d = n.world.dev();
            d.status = st;
            d.on_start = Some((delay, f, sp));
            n
        };
        let flags = |i: usize| (i as u16 & 0x3F) | if i % 3 == 0 { 0 } else { (mix(i as u64) as u16) & 0xFFC0 };
        let done = |n: u64| {
            ctx.st(n);
            ctx.tr(n);
            ctx.tv(n);
        };
        // (1)
        par(ctx, 64, |j| {
            for v in 0..1024 {
                let st = (j * 1024 + v) as u16;
                for delay in [0, 1, 2, 5] {
                    let n = set(&node, st, delay, 1, 1);
                    let e = run_sync(&n, |_| {}).and_then(|r| {
                        judge(&n.world.devs[0], &r, None)?;
                        (r.world.devs[0].requested_done == 1)
                            .then_some(())
                            .ok_or("returned before the requested measurement was complete".into())
                    });
                    if let Err(e) = e {
                        return ctx.fail(format!("{} status {st:#06x} delay {delay}: {e}", m.name()));
                    }
                }
            }
            done(4096);
        });
        // (2a) A measurement that takes very long.
        par(ctx, 2, |i| {
            let delay = if ctx.thorough { 2_200_000_000 } else { 20_000_000 };
            let n = set(&node, flags(9 + 9 * i), delay, 1, i as u8);
            let what = format!("{} delay {delay} subpage {i}", m.name());
            match run_sync(&n, |w| {
                w.log_on = false;
                w.horizon = 3 * delay as usize + 100
            }) {
                Ok(r) if r.ret == Ret::Unit && r.world.devs[0].requested_done == 1 && r.world.devs[0].status & ST_NEW != 0 => {}
                Ok(r) => return ctx.fail(format!("{what}: returned {:?} before the requested measurement was complete", r.ret)),
                Err(e) => return ctx.fail(format!("{what}: {e}")),
            }
            done(1);
        });
        // (2) and the frame that is then delivered
        let mut delays: Vec<u32> = (0..=40).collect();
        delays.extend([300, 5000, 70_000, 1_100_000]);
        if ctx.thorough {
            delays.extend(41..300);
            delays.extend([200_000, 6_000_000]);
        }
        par(ctx, 64, |i| {
            let st = flags(i);
            for &delay in &delays {
                if delay > 1000 && i % 16 != 9 || delay > 100_000 && i != 9 {
                    continue;
                }
                for sp in 0..2u8 {
                    let n = set(&node, st, delay, 1 + sp, sp);
                    let what = format!("{} status {st:#06x} delay {delay} subpage {sp}", m.name());
                    let r = match run_sync(&n, |w| w.horizon = 3 * delay as usize + 100) {
                        Ok(r) => r,
                        Err(e) => return ctx.fail(format!("{what}: {e}")),
                    };
                    if let Err(e) = judge(&n.world.devs[0], &r, None) {
                        return ctx.fail(format!("{what}: {e}"));
                    }
                    if r.world.devs[0].requested_done != 1 {
                        return ctx.fail(format!("{what}: returned before the requested measurement was complete"));
                    }
                    if i % 8 == 0 {
                        // The frame is there for a poll.
                        let mut w = r.world.clone();
                        w.ntx = 0;
                        let want = o.image(&w.devs[0], w.devs[0].control, None, None, false, sp);
                        match (image(&r.drv, &w, Op::IfReady, m.pixels()), want) {
                            (Ok((i, _, _)), Ok(want)) => {
                                if i.ret != Ret::Bool(true) || same_px(&i.px, &want.px).is_err() {
                                    return ctx.fail(format!("{what}: a poll then returned {:?}", i.ret));
                                }
                            }
                            (a, b) => return ctx.fail(format!("{what}: {:?} {:?}", a.err(), b.err())),
                        }
                    }
                }
            }
            done(2 * delays.len() as u64);
        });
        // (3)
        par(ctx, 64, |i| {
            let st = flags(i);
            let mut count = 0;
            for delay in 0..=6u32 {
                let last = delay as usize + 4;
                for a in 0..last {
                    for b in a..last {
                        let n = set(&node, st, delay, 1, 1);
                        let r = run_sync(&n, |w| {
                            w.events = vec![(a, Event::Publish(2, 0))];
                            if b > a {
                                w.events.push((b, Event::Publish(0, 1)));
                            }
                        });
                        count += 1;
                        let what = || format!("{} status {st:#06x} delay {delay} frames arriving at {a} and {b}", m.name());
                        match r {
                            Err(e) => return ctx.fail(format!("{}: {e}", what())),
                            Ok(r) => {
                                if let Err(e) = judge(&n.world.devs[0], &r, None) {
                                    return ctx.fail(format!("{}: {e}", what()));
                                }
                            }
                        }
                    }
                }
            }
            done(count);
        });
        // (3b)
        par(ctx, 64, |i| {
            let st = flags(i);
            let mut count = 0;
            for delay in 0..=8u32 {
                for clear in 0..=12u32 {
                    let mut n = set(&node, st, delay, 1, 1);
                    n.world.dev().start_clears = Some(clear);
                    let e = run_sync(&n, |_| {}).and_then(|r| {
                        judge(&n.world.devs[0], &r, None)?;
                        (r.world.devs[0].requested_done == 1)
                            .then_some(())
                            .ok_or("returned before the requested measurement was complete".into())
                    });
                    if let Err(e) = e {
                        return ctx.fail(format!("{} status {st:#06x} delay {delay}, start bit cleared after {clear} reads: {e}", m.name()));
                    }
                    count += 1;
                }
            }
            done(count);
        });
        // (4)
        par(ctx, 64, |i| {
            let st = flags(i);
            let mut count = 0;
            for delay in 0..=6u32 {
                let n = set(&node, st, delay, 1, 1);
                let Ok(r0) = run_sync(&n, |_| {}) else { return };
                for k in 0..r0.log.len() {
                    for f in [Fault::Fail, Fault::Partial] {
                        let what = || format!("{} status {st:#06x} delay {delay} transaction {k} failing ({f:?})", m.name());
                        let r = match run_sync(&n, |w| w.faults = vec![(k, f)]) {
                            Ok(r) => r,
                            Err(e) => return ctx.fail(format!("{}: {e}", what())),
                        };
                        if let Err(e) = judge(&n.world.devs[0], &r, Some(k)) {
                            return ctx.fail(format!("{}: {e}", what()));
                        }
                        // A second call works.
                        let mut n2 = n.clone();
                        n2.drv = r.drv.clone();
                        n2.world = r.world.clone();
                        let before = n2.world.devs[0].clone();
                        let e = run_sync(&n2, |w| w.faults.clear()).and_then(|r| judge(&before, &r, None));
                        if let Err(e) = e {
                            return ctx.fail(format!("{} and then a second call: {e}", what()));
                        }
                        count += 2;
                    }
                }
            }
            done(count);
        });
        // (5)
        for b in 0..32 {
            let mut n = set(&node, 0x0008, 2, 1, 0);
            let d = n.world.dev();
            d.control = if b < 16 { 1 << b } else { !(1 << (b - 16)) };
            d.i2creg = !d.control;
            let e = run_sync(&n, |_| {}).and_then(|r| judge(&n.world.devs[0], &r, None));
            if let Err(e) = e {
                ctx.fail(format!("{} control {:#06x}: {e}", m.name(), n.world.devs[0].control));
            }
        }
        done(32);
        // (6)
        let mut acts: Vec<Act> = Op::all().into_iter().map(Act::Call).collect();
        acts.extend([Act::Env(Event::Publish(1, 0)), Act::Env(Event::Publish(2, 1))]);
        let single = if ctx.thorough { 140_000 } else { 70_000 };
        par(ctx, acts.len(), |i| {
            let mut n = node.clone();
            let alone = acts[i] == Act::Call(Op::Sync);
            n.world.dev().on_start = Some((i as u32 % 4, (i % 3) as u8, i as u8 & 1));
            let mut steps = 0;
            for k in 0..if alone { single } else { 300 } {
                let before = n.world.devs[0].requested_done;
                let e = run_sync(&n, |_| {}).and_then(|r| {
                    judge(&n.world.devs[0], &r, None)?;
                    if r.world.devs[0].requested_done == before {
                        return Err("returned before the requested measurement was complete".into());
                    }
                    n.drv = r.drv;
                    n.world = r.world;
                    n.world.ntx = 0;
                    Ok(())
                });
                if let Err(e) = e {
                    return ctx.fail(format!("{} call {} alternating with {:?}: {e}", m.name(), k + 1, acts[i]));
                }
                if !alone {
                    n.path.clear();
                    n = o.exec(&n, acts[i]).node;
                    n.world.dev().measuring = None;
                }
                steps += 2;
            }
            ctx.st(1);
            ctx.tr(steps);
            ctx.tv(steps);
        });
        // (7)
        let mut acts: Vec<Act> = Op::all().into_iter().map(Act::Call).collect();
        for op in [Op::Sync, Op::DataAvailable, Op::ResetData, Op::IfReady, Op::Image, Op::GetOverwrite, Op::SetOverwrite(true), Op::SetOverwrite(false), Op::SetRate(5), Op::GetRate] {
            acts.extend((0..3).flat_map(|k| [Act::Fault(op, k, Fault::Fail), Act::Fault(op, k, Fault::Partial)]));
        }
        for e in [Event::Publish(1, 0), Event::Publish(2, 1), Event::SetControl(0xE2E6), Event::SetControl(0x1901), Event::SetStatus(0x5A48), Event::SetStatus(0xA5B1), Event::SetStatus(0)] {
            acts.push(Act::Env(e));
        }
        let last = [None, Some(0x5A48u16), Some(0xA591)];
        par(ctx, acts.len(), |i| {
            let mut steps = 0;
            let mut n1 = node.clone();
            n1.world.dev().on_start = Some((i as u32 % 3, 1, i as u8 & 1));
            let n1 = o.exec(&n1, acts[i]).node;
            for b in &acts {
                let mut n2 = o.exec(&n1, *b).node;
                n2.world.dev().measuring = None;
                for st in last {
                    let mut n = n2.clone();
                    if let Some(v) = st {
                        n.world.dev().status = v;
                    }
                    let before = n.world.devs[0].clone();
                    let e = run_sync(&n, |w| w.faults.clear()).and_then(|r| {
                        judge(&before, &r, None)?;
                        if r.world.devs[0].requested_done == before.requested_done {
                            return Err("returned before the requested measurement was complete".into());
                        }
                        Ok(())
                    });
                    if let Err(e) = e {
                        return ctx.fail(format!("{}: synchronizing from status {:#06x} after {}: {e}", m.name(), before.status, trace(&[acts[i], *b])));
                    }
                    steps += 1;
                }
            }
            ctx.st(steps);
            ctx.tr(3 * steps);
            ctx.tv(steps);
        });
        // Local state is untouched.
        let mut n = node.clone();
        for a in [Op::Override(0.75), Op::SetReflected(Some(30.5)), Op::Temp(0)] {
            n = o.exec(&n, Act::Call(a)).node;
        }
        let s = o.exec(&n, Act::Call(Op::Sync));
        if let Some(b) = s.bad.first() {
            ctx.fail(format!("{}: {} | {}", m.name(), trace(&s.node.path), b.1));
        }
    }
    ctx.sample("status 0x0009, delay 3: read status, write 0x0030 (+read-only bits), 4 reads, returns with 0x0019");
}
