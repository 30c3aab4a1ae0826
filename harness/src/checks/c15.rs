//! C15: a bus error is reported as such, stops the call and leaves the driver usable.
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::explore::*;
use crate::util::*;
use mlx9064x::calculations::RamData;
use mlx9064x::common::{read_ram, FromI2C, ToI2C};
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::{ControlRegister, I2cRegister, StatusRegister};

const BATTERY: [Op; 15] = [
    Op::Temp(0),
    Op::Temp(1),
    Op::Raw(0),
    Op::Raw(1),
    Op::Image,
    Op::IfReady,
    Op::SetPat(0),
    Op::SetPat(1),
    Op::SetRes(1),
    Op::SetOverwrite(true),
    Op::ResetData,
    Op::GetRes,
    Op::DataAvailable,
    Op::Emissivity,
    Op::Reflected,
];

pub fn run(ctx: &Ctx) {
    ctx.bound("(1) every driver call with every discrete argument x every transaction of it x {fails without effect, read fails half way, status write fails after taking effect} x 3 start states x both models x {user-defined, own} calibration: error kind and identity, no further transaction, and 15 calls compared with a freshly constructed driver; (2) sequences of two (thorough: three) such faults and calls, same comparison; (2b) every such call and pair of calls, failing or not, repeated 300 times, every cycle of 3 (thorough: 4) out of ten or eleven actions 100 times; (3) construction of a driver with every transaction failing; (4) the low-level reads and writes with every transaction failing; (5) the source() of each of these errors is the bus error (std build)");
    ctx.assume("a write of the control register that the camera accepted although the bus reported an error is left to C13");
    for m in Model::BOTH {
        for real in [false, true] {
            let o = if real { Oracle::real(m) } else { Oracle::user(m) };
            let mut starts = vec![];
            for (p, res, st) in [(1, 2, 0x0009), (0, 3, 0xFFDE), (0, 1, 0x0010)] {
                let mut d = camera(m, p, res);
                d.status = st;
                let mut n = match o.start(d) {
                    Ok(n) => n,
                    Err(e) => return ctx.fail(e),
                };
                if p == 0 {
                    // With user settings.
                    n = o.exec(&n, Act::Call(Op::Override(0.75))).node;
                    n = o.exec(&n, Act::Call(Op::SetReflected(Some(30.5)))).node;
                }
                starts.push(n);
            }
            let visit = |_: &Node, s: &Step| -> Result<(), String> {
                if s.node.path.iter().any(|a| matches!(a, Act::Fault(..))) {
                    return battery(&o, &s.node, &BATTERY);
                }
                Ok(())
            };
            let all = vec![Fault::Fail, Fault::Partial];
            let cfg = Config {
                oracle: &o,
                acts: Op::all().into_iter().map(Act::Call).collect(),
                faults: Op::all().into_iter().map(|o| (o, all.clone())).collect(),
                partial_writes: false,
                depth: 1,
                max_states: usize::MAX,
                tags: vec![Tag::BusErr],
                visit: Some(&visit),
                merge: false,
                name: format!("{} {}", m.name(), if real { "own calibration" } else { "user calibration" }),
            };
            bfs(ctx, &cfg, starts.clone());
            if real {
                continue;
            }
            // Sequences.
            let few = [
                Op::IfReady,
                Op::Temp(0),
                Op::Raw(1),
                Op::Image,
                Op::SetPat(0),
                Op::SetPat(1),
                Op::SetRes(0),
                Op::SetRes(3),
                Op::SetOverwrite(false),
                Op::ResetData,
                Op::GetRate,
                Op::Sync,
            ];
            let cfg = Config {
                acts: few.into_iter().map(Act::Call).collect(),
                faults: few.into_iter().map(|o| (o, all.clone())).collect(),
                depth: if ctx.thorough { 6 } else { 2 },
                max_states: 20_000,
                merge: true,
                ..cfg
            };
            bfs(ctx, &cfg, starts.clone());
            let cfg = Config { name: format!("{} long histories", m.name()), ..cfg };
            longrun(ctx, &cfg, &starts[..1], 300, if ctx.thorough { 70_000 } else { 5000 });
            let mut turn = [Op::IfReady, Op::Temp(0), Op::SetPat(0), Op::SetPat(1), Op::ResetData].map(Act::Call).to_vec();
            turn.extend([Act::Env(Event::Publish(1, 0)), Act::Env(Event::Publish(2, 1))]);
            turn.extend([(Op::IfReady, 0), (Op::IfReady, 3), (Op::Temp(0), 1), (Op::SetPat(0), 1)].map(|(o, k)| Act::Fault(o, k, Fault::Fail)));
            cycles(ctx, &cfg, &starts[0], &turn, if ctx.thorough { 4 } else { 3 }, 100);
        }
        construct(ctx, m);
        low_level(ctx, m);
    }
    if let Some(e) = SOURCE_LOST.lock().unwrap().take() {
        ctx.fail(format!("the error does not carry the bus error as its source: {e}"));
    }
}

fn construct(ctx: &Ctx, m: Model) {
    let ee = base_ee(m);
    for user in [false, true] {
        let build = |w: World| {
            install(w);
            let t = user_tables(m);
            let r = guard(|| {
                if !user {
                    return Drv::new(m, 0x33);
                }
                match m {
                    Model::M640 => Drv::user640(0x33, crate::cal::UserCal(std::sync::Arc::new(t))),
                    Model::M641 => Drv::user641(0x33, crate::cal::UserCal(std::sync::Arc::new(t))),
                }
            });
            (r, take())
        };
        let mut w = World::new(dev(m, &ee));
        w.log_on = true;
        let (r, w1) = build(w.clone());
        if !matches!(r, Ok(Ok(_))) {
            ctx.fail(format!("{}: constructing a driver fails", m.name()));
            continue;
        }
        let total = w1.log.len();
        ctx.max("transactions_to_construct_a_driver", total as u64);
        par(ctx, total * 2, |j| {
            let (k, f) = (j / 2, [Fault::Fail, Fault::Partial][j % 2]);
            let mut w = w.clone();
            w.faults = vec![(k, f)];
            let (r, w2) = build(w);
            let what = format!("{} user calibration {user}: constructing with transaction {k} failing ({f:?})", m.name());
            match r {
                Err(e) => ctx.fail(format!("{what}: {e}")),
                Ok(Ok(_)) => ctx.fail(format!("{what}: succeeded")),
                Ok(Err(e)) => {
                    ctx.check(e == Ret::Read(k as u32), || format!("{what}: returned {e:?}"));
                }
            }
            ctx.check(w2.log.len() == k + 1, || format!("{what}: went on after the error"));
            ctx.st(1);
            ctx.tr(1);
            ctx.tv(1);
        });
    }
}

fn low_level(ctx: &Ctx, m: Model) {
    type F<'a> = (String, Box<dyn Fn() -> Option<Ret> + 'a>);
    let mut calls: Vec<F> = vec![];
    for p in 0..2 {
        for s in 0..2 {
            calls.push((
                format!("read_ram({:?}, {:?})", pat(p), sp(s)),
                Box::new(move || {
                    let mut buf = vec![0u8; m.pixels() * 2];
                    let r = match m {
                        Model::M640 => read_ram::<Mlx90640, _, 24>(&mut Bus, 0x33, pat(p), sp(s), &mut buf),
                        Model::M641 => read_ram::<Mlx90641, _, 12>(&mut Bus, 0x33, pat(p), sp(s), &mut buf),
                    };
                    r.err().map(|e| err_ret(&e))
                }),
            ));
        }
    }
    for s in 0..2 {
        calls.push((
            format!("RamData::from_i2c({:?})", sp(s)),
            Box::new(move || {
                let r = match m {
                    Model::M640 => RamData::from_i2c::<_, Mlx90640>(&mut Bus, 0x33, sp(s)),
                    Model::M641 => RamData::from_i2c::<_, Mlx90641>(&mut Bus, 0x33, sp(s)),
                };
                r.err().map(|e| Ret::Read(e.0))
            }),
        ));
    }
    calls.push((
        "calibration from_i2c".into(),
        Box::new(move || match m {
            Model::M640 => Mlx90640Calibration::from_i2c(&mut Bus, 0x33).err().map(|e| err_ret(&e)),
            Model::M641 => Mlx90641Calibration::from_i2c(&mut Bus, 0x33).err().map(|e| err_ret(&e)),
        }),
    ));
    macro_rules! reg {
        ($t:ty) => {
            calls.push((
                concat!(stringify!($t), " from_i2c").into(),
                Box::new(|| <$t>::from_i2c(&mut Bus, 0x33).err().map(|e: mlx9064x::Error<Bus>| err_ret(&e))),
            ));
            calls.push((
                concat!(stringify!($t), " to_i2c").into(),
                Box::new(|| <$t>::from(&[0x12u8, 0x34][..]).to_i2c(&mut Bus, 0x33).err().map(|e: mlx9064x::Error<Bus>| err_ret(&e))),
            ));
        };
    }
    reg!(StatusRegister);
    reg!(ControlRegister);
    reg!(I2cRegister);
    for (name, f) in &calls {
        let mut w = World::new(dev(m, &base_ee(m)));
        w.log_on = true;
        install(w.clone());
        let r = guard(f);
        let total = take().log.len();
        if !matches!(r, Ok(None)) || total == 0 {
            ctx.fail(format!("{} {name}: {r:?} without a fault", m.name()));
            continue;
        }
        for k in 0..total {
            for fault in [Fault::Fail, Fault::Partial] {
                let mut w = w.clone();
                w.faults = vec![(k, fault)];
                install(w);
                let r = guard(f);
                let w = take();
                let want = if w.log.get(k).is_some_and(|t| t.write) { Ret::Write(k as u32) } else { Ret::Read(k as u32) };
                let ok = r == Ok(Some(want)) && w.log.len() == k + 1;
                ctx.check(ok, || {
                    format!("{} {name} with transaction {k} failing: {r:?} after {} transactions", m.name(), w.log.len())
                });
                ctx.st(1);
                ctx.tr(1);
                ctx.tv(1);
            }
        }
    }
}
