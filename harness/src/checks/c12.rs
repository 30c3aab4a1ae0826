//! C12: driver settings touch only the bits they name.
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::explore::*;
use crate::util::*;

/// The documented place of a setting: register, shift, width.
pub fn place(op: Op) -> Option<(u16, u32, u32)> {
    Some(match op {
        Op::LastSubpage => (STATUS, 0, 1),
        Op::GetOverwrite | Op::SetOverwrite(_) => (STATUS, 4, 1),
        Op::GetSubpages | Op::SetSubpages(_) => (CONTROL, 0, 1),
        Op::GetHold | Op::SetHold(_) => (CONTROL, 2, 1),
        Op::GetRepeat | Op::SetRepeat(_) => (CONTROL, 3, 1),
        Op::GetSel | Op::SetSel(_) => (CONTROL, 4, 1),
        Op::GetRate | Op::SetRate(_) => (CONTROL, 7, 3),
        Op::GetRes | Op::SetRes(_) => (CONTROL, 10, 2),
        Op::GetPat | Op::SetPat(_) => (CONTROL, 12, 1),
        _ => return None,
    })
}
pub fn value(op: Op) -> Option<u16> {
    Some(match op {
        Op::SetOverwrite(b) | Op::SetSubpages(b) | Op::SetHold(b) | Op::SetRepeat(b) => b as u16,
        Op::SetSel(v) | Op::SetRate(v) | Op::SetRes(v) | Op::SetPat(v) => v as u16,
        _ => return None,
    })
}
/// What a getter must report for a register content.
pub fn expect(op: Op, status: u16, control: u16) -> Option<Ret> {
    if op == Op::DataAvailable {
        return Some(Ret::Sub((status & ST_NEW != 0).then_some((status & 1) as u8)));
    }
    let (r, s, w) = place(op)?;
    let v = (if r == STATUS { status } else { control }) >> s & ((1 << w) - 1);
    Some(match op {
        Op::LastSubpage | Op::GetSel => Ret::Sub(Some(v as u8)),
        Op::GetOverwrite | Op::GetSubpages | Op::GetHold | Op::GetRepeat => Ret::Bool(v == 1),
        Op::GetRate | Op::GetRes | Op::GetPat => Ret::Num(v as u32),
        _ => return None,
    })
}

pub fn run(ctx: &Ctx) {
    ctx.bound("both models x every getter, every setter with every argument, and clearing the data-available flag x all 65536 contents of the register concerned x 3 contents of the other register; every transaction and the register contents afterwards compared; sequences of 3 setters (thorough: 4) x 64 contents; all sequences of 3 (thorough: 4) actions out of every getter, setter, clearing of the flag, image calls, synchronize, foreign changes of both registers and new frames x 3 (thorough: 8) contents; every getter, setter and clearing of the flag, and every pair of them, repeated 300 times, single ones 70000 times, also failing at the first or last transaction");
    let mut ops = Op::GETTERS.to_vec();
    ops.push(Op::ResetData);
    ops.extend(Op::setters());
    let jobs: Vec<_> = Model::BOTH.iter().flat_map(|m| ops.iter().map(move |o| (*m, *o))).collect();
    par(ctx, jobs.len() * 4, |jj| {
        let (m, op) = jobs[jj / 4];
        let (mut drv, mut w) = match attach(dev(m, &base_ee(m))) {
            Ok(x) => x,
            Err(e) => return ctx.fail(e),
        };
        w.log_on = true;
        w.horizon = usize::MAX;
        let reg = match op {
            Op::ResetData | Op::DataAvailable => STATUS,
            _ => place(op).unwrap().0,
        };
        install(w);
        let lo = (jj % 4) as u32 * 16384;
        for v in lo..lo + 16384 {
            let v = v as u16;
            for other in [0x0000u16, 0xFFFF, 0x1901 ^ v.rotate_left(3)] {
                let (st, co) = if reg == STATUS { (v, other) } else { (other, v) };
                with(|w| {
                    w.log.clear();
                    w.dev().status = st;
                    w.dev().control = co;
                });
                let what = || format!("{} {op:?} status {st:#06x} control {co:#06x}", m.name());
                let r = match guard(|| drv.q(op)) {
                    Ok(r) => r,
                    Err(e) => {
                        take();
                        return ctx.fail(format!("{}: {e}", what()));
                    }
                };
                let e = with(|w| step(op, st, co, r, &w.log, w.devs[0].status, w.devs[0].control));
                if let Err(e) = e {
                    take();
                    return ctx.fail(format!("{}: {e}", what()));
                }
            }
        }
        take();
        ctx.st(3 * 16384);
        ctx.tr(3 * 16384);
        ctx.tv(3 * 16384);
    });
    // Sequences of setters from a set of contents.
    let set = Op::setters();
    let depth = if ctx.thorough { 4 } else { 3 };
    par(ctx, 2 * set.len(), |j| {
        let m = Model::BOTH[j % 2];
        let (drv, mut w) = match attach(dev(m, &base_ee(m))) {
            Ok(x) => x,
            Err(e) => return ctx.fail(e),
        };
        w.log_on = true;
        w.horizon = usize::MAX;
        let total = set.len().pow(depth - 1);
        let mut d = drv;
        install(w);
        for k in 0..total {
            let mut seq = vec![set[j / 2]];
            let mut x = k;
            for _ in 1..depth {
                seq.push(set[x % set.len()]);
                x /= set.len();
            }
            for c in 0..64u64 {
                let (st, co) = ((mix(c) & 0xFFFF) as u16, (mix(c + 1000) & 0xFFFF) as u16);
                with(|w| {
                    w.dev().status = st;
                    w.dev().control = co;
                });
                for (i, op) in seq.iter().enumerate() {
                    let (s0, c0) = with(|w| {
                        w.log.clear();
                        (w.devs[0].status, w.devs[0].control)
                    });
                    let r = guard(|| d.q(*op));
                    let e = r.and_then(|r| with(|w| step(*op, s0, c0, r, &w.log, w.devs[0].status, w.devs[0].control)));
                    if let Err(e) = e {
                        take();
                        return ctx.fail(format!(
                            "{} from status {st:#06x} control {co:#06x} after {:?}: {op:?}: {e}",
                            m.name(),
                            &seq[..i]
                        ));
                    }
                }
                ctx.st(1);
                ctx.tr(seq.len() as u64);
            }
        }
        take();
        ctx.tv(total as u64 * 64);
    });
    // Sequences of everything: getters, clearing the flag, image calls, changes made by the camera or by
    // another controller in between.
    let mut acts: Vec<Act> = ops.iter().map(|o| Act::Call(*o)).collect();
    acts.extend([Op::IfReady, Op::Temp(1), Op::Sync].map(Act::Call));
    let other = acts.len();
    let calls = acts.len() + 5;
    let contents: &[(u16, u16)] = if ctx.thorough {
        &[(0x0008, 0x1901), (0x0039, 0x0901), (0x8A51, 0xE69E), (0xFFFF, 0xFFFF), (0x0000, 0x0000), (0x0031, 0x16E3), (0x0028, 0x0004), (0x7BCE, 0x9C35)]
    } else {
        &[(0x0008, 0x1901), (0x8A51, 0xE69E), (0x0031, 0x16E3)]
    };
    let depth = if ctx.thorough { 4 } else { 3 };
    par(ctx, 2 * calls * calls, |j| {
        let m = Model::BOTH[j % 2];
        let (drv, mut w) = match attach(camera(m, 1, 2)) {
            Ok(x) => x,
            Err(e) => return ctx.fail(e),
        };
        w.log_on = true;
        w.horizon = 500;
        let mut buf = vec![0f32; m.pixels()];
        let total = calls.pow(depth - 2);
        install(w);
        for k in 0..total {
            let mut seq = vec![j / 2 / calls, j / 2 % calls];
            let mut x = k;
            for _ in 2..depth {
                seq.push(x % calls);
                x /= calls;
            }
            for (st, co) in contents {
                let mut d = drv.clone();
                with(|w| {
                    w.dev().status = *st;
                    w.dev().control = *co;
                });
                for (i, a) in seq.iter().enumerate() {
                    let (s0, c0) = with(|w| {
                        w.log.clear();
                        w.ntx = 0;
                        (w.devs[0].status, w.devs[0].control)
                    });
                    if *a >= other {
                        with(|w| match a - other {
                            0 => w.dev().control ^= 0x1C8D,
                            1 => w.dev().control ^= 0xE31A,
                            2 => w.dev().status ^= ST_OVR,
                            3 => w.dev().status = w.dev().status & !1 | ST_NEW,
                            _ => w.dev().status |= ST_NEW | 1,
                        });
                        continue;
                    }
                    let Act::Call(op) = acts[*a] else { continue };
                    // Only synchronizing has a measurement started, the camera is quiet otherwise.
                    with(|w| w.dev().on_start = (op == Op::Sync).then_some((1, 1, 1)));
                    let r = guard(|| if op.is_image() { d.op(op, &mut buf) } else { d.q(op) });
                    with(|w| w.dev().measuring = None);
                    let e = r.and_then(|r| {
                        if op.is_image() || op == Op::Sync {
                            return Ok(());
                        }
                        with(|w| step(op, s0, c0, r, &w.log, w.devs[0].status, w.devs[0].control))
                    });
                    if let Err(e) = e {
                        take();
                        let t: Vec<String> = seq[..i].iter().map(|a| match a.checked_sub(other) {
                            None => trace(&acts[*a..a + 1]),
                            Some(k) => ["<control ^ 0x1c8d>", "<control ^ 0xe31a>", "<overwrite flag toggled>", "<frame 0>", "<frame 1>"][k].to_string(),
                        }).collect();
                        return ctx.fail(format!("{} from status {st:#06x} control {co:#06x} after {}: {op:?}: {e}", m.name(), t.join(", ")));
                    }
                }
            }
        }
        take();
        let n = (total * contents.len()) as u64;
        ctx.st(n);
        ctx.tr(depth as u64 * n);
        ctx.tv(n);
    });
    // Long histories.
    for m in Model::BOTH {
        let o = Oracle::user(m);
        let mut acts: Vec<Act> = ops.iter().map(|o| Act::Call(*o)).collect();
        acts.push(Act::Env(Event::SetControl(0x16E3)));
        acts.push(Act::Env(Event::Publish(1, 1)));
        let start = match o.start(camera(m, 1, 2)) {
            Ok(n) => n,
            Err(e) => return ctx.fail(e),
        };
        let cfg = Config {
            oracle: &o,
            acts,
            faults: ops.iter().map(|o| (*o, vec![Fault::Fail])).collect(),
            partial_writes: false,
            depth: 0,
            max_states: 0,
            tags: vec![Tag::Ret, Tag::Device],
            visit: None,
            merge: true,
            name: format!("{} long histories", m.name()),
        };
        let then = [Op::SetRate(7), Op::GetRate, Op::SetOverwrite(true), Op::SetOverwrite(false), Op::ResetData, Op::SetPat(0), Op::SetRes(0), Op::GetRes].map(Act::Call);
        endure(ctx, &o, &start, cfg.name.trim_end_matches("long histories"), &cfg.tags, &ops, &then);
        longrun(ctx, &cfg, &[start], 300, if ctx.thorough { 140_000 } else { 70_000 });
    }
    ctx.sample("SetRate(7) on control 0x1901 writes 0x1b81; SetRate(2) on 0x1901 writes nothing");
}

/// Compare one call with the specification.
fn step(op: Op, st: u16, co: u16, r: Ret, log: &[Tx], st2: u16, co2: u16) -> Result<(), String> {
    if log.iter().any(|t| t.bad.is_some() || !t.ok) {
        return Err(format!("transactions {log:?}"));
    }
    let writes: Vec<(u16, u16)> = log.iter().filter(|t| t.write).map(|t| (t.reg, t.value)).collect();
    // The value the register must have afterwards, and the word that has to be written for it.
    let (want_st, want_co, write) = match op {
        Op::ResetData => {
            // When the flag is clear already, writing the same content again changes nothing.
            let v = st & !ST_NEW;
            if st & ST_NEW == 0 && writes.is_empty() {
                (v, co, None)
            } else {
                (v, co, Some((STATUS, v)))
            }
        }
        _ => match value(op) {
            None => (st, co, None),
            Some(x) => {
                let (reg, s, w) = place(op).unwrap();
                let m = ((1u16 << w) - 1) << s;
                let old = if reg == STATUS { st } else { co };
                let new = old & !m | x << s;
                // The new-data flag is only ever cleared by the driver, so leaving it as it is means
                // writing it as read.
                let wr = (new != old).then_some((reg, new));
                if reg == STATUS {
                    (new, co, wr)
                } else {
                    (st, new, wr)
                }
            }
        },
    };
    let ret = expect(op, st, co).unwrap_or(Ret::Unit);
    if r != ret {
        return Err(format!("returned {r:?} instead of {ret:?}"));
    }
    // What counts is the register's content afterwards: the read-only bits of the status register and
    // an already cleared flag may be written as anything.
    let regs = |v: &[(u16, u16)]| v.iter().map(|x| x.0).collect::<Vec<_>>();
    let want: Vec<(u16, u16)> = write.into_iter().collect();
    if regs(&writes) != regs(&want) {
        let f = |v: &[(u16, u16)]| v.iter().map(|(a, x)| format!("{x:#06x} to {a:#06x}")).collect::<Vec<_>>();
        return Err(format!("wrote {:?} instead of {:?}", f(&writes), f(&want)));
    }
    if (st2, co2) != (want_st, want_co) {
        return Err(format!("left status {st2:#06x} control {co2:#06x} instead of {want_st:#06x} {want_co:#06x}"));
    }
    Ok(())
}
