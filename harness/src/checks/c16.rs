//! C16: the driver keeps to its camera, the memory map and read-only access.
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::explore::*;
use crate::util::*;
use mlx9064x::calculations::RamData;
use mlx9064x::common::read_ram;
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};

/// Whether a call may write, and where.
fn may_write(op: Op) -> Option<u16> {
    match op {
        Op::ResetData | Op::IfReady | Op::Sync => Some(STATUS),
        _ => crate::checks::c12::value(op).and_then(|_| crate::checks::c12::place(op)).map(|p| p.0),
    }
}

fn audit(log: &[Tx], addr: u8, write: Option<u16>, eeprom: bool) -> Result<(), String> {
    for (i, t) in log.iter().enumerate() {
        if t.addr != addr {
            return Err(format!("transaction {i} goes to address {:#04x}: {t:?}", t.addr));
        }
        if let Some(b) = t.bad {
            return Err(format!("transaction {i}: {b}: {t:?}"));
        }
        if t.write {
            if write != Some(t.reg) {
                return Err(format!("transaction {i} writes {:#06x} to {:#06x}", t.value, t.reg));
            }
        } else if !eeprom && (EE_BASE..EE_BASE + EE_WORDS as u16).contains(&t.reg) {
            return Err(format!("transaction {i} reads the EEPROM"));
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.bound("(1) all 256 I2C addresses x both models x both calibration kinds x {construction, every call with every discrete argument} x 2 status contents x 6 RAM contents (ordinary, constant, constant pixels only), alone on the bus and with a second camera at the complementary address; (2) every call after every other call and after every failing transaction of it (one address); (2b) every call and pair of calls, failing or not, repeated 300 times, every cycle of 3 (thorough: 4) out of ten or eleven actions 100 times; (3) the low-level readers for every address, pattern and subpage");
    // (1)
    par(ctx, 256 * 4, |j| {
        let addr = (j / 4) as u8;
        let m = Model::BOTH[j & 1];
        let user = j & 2 != 0;
        let what = format!("{} at {addr:#04x} {}", m.name(), if user { "user calibration" } else { "own calibration" });
        let mut d = camera(m, (addr & 1) ^ 1, 2);
        d.addr = addr;
        d.status = ST_NEW | 1;
        let mut other = camera(m, 1, 2);
        other.addr = !addr;
        let other0 = other.clone();
        let mut w = World::new(d);
        w.devs.push(other);
        w.log_on = true;
        install(w);
        let o = if user { Oracle::user(m) } else { Oracle::real(m) };
        let r = guard(|| o.build(addr));
        let mut w = take();
        let mut drv = match r {
            Ok(Ok(d)) => d,
            e => return ctx.fail(format!("{what}: construction: {:?}", e.err())),
        };
        if let Err(e) = audit(&w.log, addr, None, !user) {
            return ctx.fail(format!("{what}: construction: {e}"));
        }
        let mut buf = vec![0f32; m.pixels()];
        for op in Op::all() {
            for (st, fill) in [(0x0000u16, None), (0xFFDF, None), (0x0008, Some(0u16)), (0x0009, Some(0x8000)), (0x0008, Some(0x7FFF)), (0x0009, Some(0xFFFF)), (0x0009, Some(0x0001))] {
                w.dev().ram = frame_ram(m, 5);
                if let Some(x) = fill {
                    // All words, or only those of the pixels.
                    let n = if x == 1 { 0 } else { m.pixels() * if m == Model::M640 { 1 } else { 2 } };
                    let all = x == 0x8000;
                    for (i, r) in w.dev().ram.iter_mut().enumerate() {
                        if all || i < n || x == 1 {
                            *r = if x == 1 { 0 } else { x };
                        }
                    }
                }
                w.log.clear();
                w.ntx = 0;
                w.horizon = 3000;
                w.dev().status = st;
                install(w);
                let r = guard(|| drv.op(op, &mut buf));
                w = take();
                let e = r.err().or_else(|| audit(&w.log, addr, may_write(op), false).err());
                if let Some(e) = e {
                    return ctx.fail(format!("{what}: {op:?} status {st:#06x}: {e}"));
                }
                ctx.tr(1);
            }
        }
        let o = &w.devs[1];
        if (o.status, o.control, o.i2creg, o.ram) != (other0.status, other0.control, other0.i2creg, other0.ram) {
            ctx.fail(format!("{what}: the other camera was changed"));
        }
        ctx.st(1);
        ctx.tv(1);
    });
    // (2)
    for m in Model::BOTH {
        let o = Oracle::user(m);
        let visit = |_: &Node, s: &Step| -> Result<(), String> {
            match s.node.path.last() {
                Some(Act::Call(op) | Act::Fault(op, _, _)) => audit(&s.log, 0x33, may_write(*op), false),
                _ => Ok(()),
            }
        };
        let ops = Op::all();
        let mut acts: Vec<Act> = ops.iter().map(|o| Act::Call(*o)).collect();
        acts.push(Act::Env(Event::Publish(1, 0)));
        acts.push(Act::Env(Event::SetControl(0x0D9F)));
        let faults = ops.iter().map(|o| (*o, vec![Fault::Fail, Fault::Partial])).collect();
        let starts = match (0..2).map(|p| o.start(camera(m, p, 2))).collect::<Result<Vec<_>, _>>() {
            Ok(s) => s,
            Err(e) => return ctx.fail(e),
        };
        let cfg = Config {
                oracle: &o,
                acts,
                faults,
                partial_writes: true,
                depth: if ctx.thorough { 4 } else { 3 },
                max_states: 100_000,
                tags: vec![Tag::Map],
                visit: Some(&visit),
                merge: true,
                name: format!("{} sequences", m.name()),
            };
        bfs(ctx, &cfg, starts.clone());
        let cfg = Config { name: format!("{} long histories", m.name()), ..cfg };
        longrun(ctx, &cfg, &starts[..1], 300, if ctx.thorough { 70_000 } else { 5000 });
        let mut turn = [Op::IfReady, Op::Temp(0), Op::Raw(1), Op::SetPat(0), Op::SetPat(1), Op::DataAvailable, Op::Sync].map(Act::Call).to_vec();
        turn.extend([Act::Env(Event::Publish(1, 0)), Act::Env(Event::Publish(2, 1)), Act::Fault(Op::Temp(0), 2, Fault::Fail)]);
        cycles(ctx, &cfg, &starts[0], &turn, if ctx.thorough { 4 } else { 3 }, 100);
    }
    // (3)
    par(ctx, 512, |j| {
        let addr = (j / 2) as u8;
        let m = Model::BOTH[j & 1];
        let mut d = camera(m, 1, 2);
        d.addr = addr;
        let mut w = World::new(d);
        w.log_on = true;
        let run = |name: String, eeprom: bool, f: &mut dyn FnMut() -> bool| {
            install(w.clone());
            let r = guard(f);
            let w = take();
            let e = match r {
                Err(e) => Some(e),
                Ok(false) => Some("failed".to_string()),
                Ok(true) => audit(&w.log, addr, None, eeprom).err(),
            };
            if let Some(e) = e {
                ctx.fail(format!("{} at {addr:#04x}: {name}: {e}", m.name()));
            }
            ctx.tr(1);
            ctx.tv(1);
        };
        use mlx9064x::common::FromI2C;
        for s in 0..2u8 {
            for p in 0..2u8 {
                let mut buf = vec![0u8; m.pixels() * 2];
                run(format!("read_ram pattern {p} subpage {s}"), false, &mut || match m {
                    Model::M640 => read_ram::<Mlx90640, _, 24>(&mut Bus, addr, pat(p), sp(s), &mut buf).is_ok(),
                    Model::M641 => read_ram::<Mlx90641, _, 12>(&mut Bus, addr, pat(p), sp(s), &mut buf).is_ok(),
                });
            }
            run(format!("RamData subpage {s}"), false, &mut || match m {
                Model::M640 => RamData::from_i2c::<_, Mlx90640>(&mut Bus, addr, sp(s)).is_ok(),
                Model::M641 => RamData::from_i2c::<_, Mlx90641>(&mut Bus, addr, sp(s)).is_ok(),
            });
        }
        run("calibration".into(), true, &mut || match m {
            Model::M640 => Mlx90640Calibration::from_i2c(&mut Bus, addr).is_ok(),
            Model::M641 => Mlx90641Calibration::from_i2c(&mut Bus, addr).is_ok(),
        });
        ctx.st(1);
    });
    ctx.sample("MLX90641 at 0x7f: construction reads the EEPROM and the control register; GetRate reads 2 bytes at 0x800d");
}
