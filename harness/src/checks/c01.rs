//! C01: an image call writes exactly the pixels of its subpage.
use crate::ctx::{par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::util::*;
use mlx9064x::common::MelexisCamera;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;

/// How the access pattern became current.
const ROUTES: [&str; 3] = ["found at construction", "set by the driver", "noticed by a getter"];

pub fn run(ctx: &Ctx) {
    ctx.bound("both models x both patterns x 3 routes to the pattern x both subpages x 4 image calls x every destination length 0..=pixels+70 and about 60 lengths up to 400000 (powers of two, multiples of the image size and their neighbours); every pair of image calls (either subpage, either pattern) repeated 300 times by one driver; every image call with destinations holding 13 special values, 10 ordinary ones and 60 variations of the image itself; every image call with 20 frames that are not ordinary (no gain, saturated and undefined pixels, ...) x 6 emissivities x 4 reflected temperatures; every content of the control register (quick: a third of those with unusual bits set), found at construction or noticed later; the two status-driven calls with every 16-bit status register value; the sequence pixels_in_subpage of both models stepped through with next, nth, step_by, last, count and internal iteration");
    ctx.assume("written elements are recognised by running every call with two different destination contents");
    let mut jobs = vec![];
    for m in Model::BOTH {
        for p in 0..2u8 {
            for route in 0..3 {
                for s in 0..2u8 {
                    for call in 0..4 {
                        jobs.push((m, p, route, s, call));
                    }
                }
            }
        }
    }
    par(ctx, jobs.len(), |j| {
        let (m, p, route, s, call) = jobs[j];
        let ee = base_ee(m);
        let mut d = dev(m, &ee);
        let with = |c: u16, p: u8| c & !0x1000 | (p as u16) << 12;
        d.control = with(d.control, if route == 0 { p } else { 1 - p });
        d.status = s as u16 | ST_NEW;
        let (mut drv, w) = match attach(d) {
            Ok(x) => x,
            Err(e) => return ctx.fail(e),
        };
        let r = match route {
            0 => Ok(w),
            1 => run_ops(&mut drv, w, &[Op::SetPat(p)]),
            _ => {
                let mut w = w;
                let c = w.dev().control;
                w.dev().control = with(c, p);
                run_ops(&mut drv, w, &[Op::GetRate])
            }
        };
        let w = match r {
            Ok(w) => w,
            Err(e) => return ctx.fail(e),
        };
        let op = [Op::Raw(s), Op::Temp(s), Op::Image, Op::IfReady][call];
        let what = |len: usize| {
            format!("{} pattern {p} ({}) subpage {s} {op:?} destination length {len}", m.name(), ROUTES[route])
        };
        let n = m.pixels();
        let full = match image(&drv, &w, op, n) {
            Ok((i, _, _)) => i,
            Err(e) => return ctx.fail(format!("{}: {e}", what(n))),
        };
        let mut count = 0;
        // Powers of two and multiples of the image, the row and the column, with their neighbours.
        let mut far: Vec<usize> = (10..18).map(|k| 1 << k).chain((2..12).map(|k| n << (k - 1))).flat_map(|l| [l - 1, l, l + 1]).collect();
        far.extend((2..18).map(|k| k * n));
        if ctx.thorough {
            far.extend((18..300).map(|k| k * n));
        }
        for len in (0..=n + 70).chain(far) {
            if ctx.stopped() {
                return;
            }
            let img = match image(&drv, &w, op, len) {
                Ok((i, _, _)) => i,
                Err(e) => return ctx.fail(format!("{}: {e}", what(len))),
            };
            count += 1;
            if img.ret != Ret::Unit && img.ret != Ret::Bool(true) {
                return ctx.fail(format!("{}: returned {:?}", what(len), img.ret));
            }
            for (i, v) in img.px.iter().enumerate() {
                let want = i < n && m.in_subpage(p, s, i);
                if v.is_some() != want {
                    return ctx.fail(format!(
                        "{}: element {i} was {}",
                        what(len),
                        if want { "not written" } else { "written" }
                    ));
                }
                if want && !same_bits(v.unwrap(), full.px[i].unwrap()) {
                    return ctx.fail(format!(
                        "{}: element {i} is {} but {} with a full-size destination",
                        what(len),
                        f32::from_bits(v.unwrap()),
                        f32::from_bits(full.px[i].unwrap())
                    ));
                }
            }
        }
        ctx.st(count);
        ctx.tr(2 * count);
        ctx.tv(count);
        if j % 37 == 0 {
            ctx.sample(format!("{}: {} elements written", what(n), full.mask().iter().filter(|x| **x).count()));
        }
    });
    // What is written does not depend on the values: odd frames, saturated pixels, settings without a
    // meaningful result.
    const EM: [f32; 6] = [1.0, 0.87, 0.0, -0.5, f32::NAN, f32::INFINITY];
    let frames: Vec<Vec<crate::dev::Frame>> = Model::BOTH.iter().map(|m| {
        let mut v = odd_frames(*m);
        for x in [0x7FFFu16, 0x8000, 0x8AD0, 0xFFFF] {
            // Every third pixel is extreme.
            let mut ram = frame_ram(*m, 0);
            (0..m.pixels() * if *m == Model::M641 { 2 } else { 1 }).step_by(3).for_each(|i| ram[i] = x);
            v.push(crate::dev::Frame { ram });
        }
        v
    }).collect();
    par(ctx, 2 * 2 * 2 * 4 * EM.len() * 4, |j| {
        let m = Model::BOTH[j & 1];
        let (p, s) = ((j >> 1 & 1) as u8, (j >> 2 & 1) as u8);
        let op = [Op::Raw(s), Op::Temp(s), Op::Image, Op::IfReady][j >> 3 & 3];
        let e = EM[j / 32 % EM.len()];
        let tr = [None, Some(-400.0), Some(f32::NAN), Some(1e30)][j / 32 / EM.len()];
        let mut d = dev(m, &base_ee(m));
        set_control(&mut d, p, 2);
        announce(&mut d, s);
        let (mut drv, mut w) = match attach(d) {
            Ok(x) => x,
            Err(e) => return ctx.fail(e),
        };
        drv.q(Op::Override(e));
        drv.q(Op::SetReflected(tr));
        for (k, f) in frames[j & 1].iter().enumerate() {
            w.dev().ram = f.ram;
            let what = || format!("{} pattern {p} {op:?} subpage {s} frame {k} emissivity {e} reflected {tr:?}", m.name());
            let x = match image(&drv, &w, op, m.pixels() + 3) {
                Ok(x) => x.0,
                Err(e) => return ctx.fail(format!("{}: {e}", what())),
            };
            for (i, v) in x.px.iter().enumerate() {
                let want = i < m.pixels() && m.in_subpage(p, s, i);
                if v.is_some() != want {
                    return ctx.fail(format!("{}: element {i} was {}", what(), if want { "not written" } else { "written" }));
                }
            }
            ctx.st(1);
            ctx.tr(2);
            ctx.tv(1);
        }
    });
    // What the destination holds does not matter, and what is not stored stays as it is, to the bit.
    par(ctx, 2 * 2 * 2 * 4 * 2, |j| {
        let m = Model::BOTH[j & 1];
        let (p, s) = ((j >> 1 & 1) as u8, (j >> 2 & 1) as u8);
        let op = [Op::Raw(s), Op::Temp(s), Op::Image, Op::IfReady][j >> 3 & 3];
        let o = if j >> 5 == 0 { crate::explore::Oracle::real(m) } else { crate::explore::Oracle::user(m) };
        let mut d = dev(m, &base_ee(m));
        set_control(&mut d, p, 2);
        announce(&mut d, s);
        let n = m.pixels();
        let mut node = match o.start(d) {
            Ok(n) => n,
            Err(e) => return ctx.fail(e),
        };
        if j % 3 == 0 {
            node.drv.q(Op::Override(0.93));
        }
        for f in 0..3u64 + if ctx.thorough { 8 } else { 2 } {
            let dev = node.world.dev();
            dev.ram = if f < 3 { frame_ram(m, f) } else { frames[j & 1][(f as usize + j) % frames[j & 1].len()].ram };
            let raw = matches!(op, Op::Raw(_));
            // The image of both subpages.
            let both: Vec<_> = (0..2).map(|s| shot(&node.drv, &node.world, if raw { Op::Raw(s) } else { Op::Temp(s) }, n)).collect();
            let (Ok(a), Ok(b)) = (&both[s as usize], &both[1 - s as usize]) else {
                return ctx.fail(format!("{} {op:?}: {:?}", m.name(), both.iter().find_map(|x| x.as_ref().err())));
            };
            let mut like: Vec<f32> = (0..n).map(|i| if m.in_subpage(p, s, i) { a.px[i] } else { b.px[i] }).collect();
            like.extend([20.0, f32::NAN, -0.0, 0.0, 1.0]);
            for (name, fill) in contents(&like) {
                let mut d = node.drv.clone();
                let mut buf = fill.clone();
                install(node.world.clone());
                let r = crate::ctx::guard(|| d.op(op, &mut buf));
                take();
                let what = || format!("{} pattern {p} {op:?} subpage {s} frame {f}, destination holding {name}", m.name());
                if !matches!(r, Ok(Ret::Unit | Ret::Bool(true))) {
                    return ctx.fail(format!("{}: {r:?}", what()));
                }
                for i in 0..buf.len() {
                    let ok = if i < n && m.in_subpage(p, s, i) {
                        same_bits(buf[i].to_bits(), a.px[i].to_bits())
                    } else {
                        buf[i].to_bits() == fill[i].to_bits()
                    };
                    if !ok {
                        return ctx.fail(format!("{}: element {i} held {:?} ({:#010x}) and holds {:?} ({:#010x})", what(), fill[i], fill[i].to_bits(), buf[i], buf[i].to_bits()));
                    }
                }
                ctx.st(1);
                ctx.tr(1);
                ctx.tv(1);
            }
        }
    });
    // Every content of the status register.
    par(ctx, 2 * 2 * 2 * 16, |j| {
        let m = Model::BOTH[j & 1];
        let p = (j >> 1 & 1) as u8;
        let op = if j >> 2 & 1 == 0 { Op::Image } else { Op::IfReady };
        let mut d = dev(m, &base_ee(m));
        set_control(&mut d, p, 2);
        let (drv, mut w) = match attach(d) {
            Ok(x) => x,
            Err(e) => return ctx.fail(e),
        };
        let n = m.pixels();
        let refs: Vec<_> = (0..2).map(|s| shot(&drv, &w, Op::Temp(s), n)).collect();
        for st in (j >> 3) as u16 * 4096..=(j >> 3) as u16 * 4096 + 4095 {
            w.dev().status = st;
            let s = (st & 1) as u8;
            let ready = op == Op::Image || st & ST_NEW != 0;
            let what = || format!("{} pattern {p} {op:?} status {st:#06x}", m.name());
            let x = match shot(&drv, &w, op, n) {
                Ok(x) => x,
                Err(e) => return ctx.fail(format!("{}: {e}", what())),
            };
            let want = &refs[s as usize];
            for i in 0..n {
                let v = match want {
                    Ok(r) if ready && m.in_subpage(p, s, i) => r.px[i],
                    _ => S1,
                };
                if x.px[i].to_bits() != v.to_bits() && !(x.px[i].is_nan() && v.is_nan() && v.to_bits() != S1.to_bits()) {
                    return ctx.fail(format!("{}: element {i} is {} instead of {v}", what(), x.px[i]));
                }
            }
        }
        ctx.st(4096);
        ctx.tr(4096);
        ctx.tv(4096);
    });
    // Long histories: what a call writes does not depend on how many calls came before.
    let acts: Vec<(u8, u8, Op)> = (0..4u8).flat_map(|k| [Op::Raw(k & 1), Op::Temp(k & 1), Op::Image, Op::IfReady].map(|o| (k & 1, k >> 1, o))).collect();
    par(ctx, 2 * acts.len() * acts.len(), |j| {
        let m = Model::BOTH[j % 2];
        let pair = [acts[j / 2 / acts.len()], acts[j / 2 % acts.len()]];
        let n = m.pixels();
        let d = dev(m, &base_ee(m));
        let (mut drv, mut w) = match attach(d) {
            Ok(x) => x,
            Err(e) => return ctx.fail(e),
        };
        let mut buf = vec![S1; n];
        for i in 0..if ctx.thorough { 3000 } else { 300 } {
            for (s, p, op) in pair {
                let mut o = Some(w);
                o.as_mut().unwrap().ntx = 0;
                let r = drv.q_in(&mut o, Op::SetPat(p));
                w = o.unwrap();
                announce(w.dev(), s);
                let what = || format!("{} after {i} repetitions of {:?}: pattern {p} subpage {s} {op:?}", m.name(), pair);
                if r != Some(Ret::Unit) {
                    return ctx.fail(format!("{}: setting the pattern: {r:?}", what()));
                }
                buf.iter_mut().for_each(|x| *x = S1);
                install(w);
                let r = crate::ctx::guard(|| drv.op(op, &mut buf));
                w = take();
                match r {
                    Ok(Ret::Unit | Ret::Bool(true)) => {}
                    r => return ctx.fail(format!("{}: {r:?}", what())),
                }
                for (k, x) in buf.iter().enumerate() {
                    let want = m.in_subpage(p, s, k);
                    if (x.to_bits() != S1.to_bits()) != want {
                        return ctx.fail(format!("{}: element {k} was {}", what(), if want { "not written" } else { "written" }));
                    }
                }
                ctx.tr(2);
            }
        }
        ctx.st(1);
        ctx.tv(600);
    });
    // The same sequence, as the flags the low-level functions take, however it is stepped through.
    par(ctx, 8, |j| {
        let m = Model::BOTH[j & 1];
        let (p, s) = ((j >> 1 & 1) as u8, (j >> 2 & 1) as u8);
        let want: Vec<bool> = (0..m.pixels()).map(|i| m.in_subpage(p, s, i)).collect();
        let r = crate::ctx::guard(|| match m {
            Model::M640 => iterator("pixels_in_subpage", || Mlx90640::pixels_in_subpage(sp(s), pat(p)).into_iter(), |x| x, &want, ctx.thorough),
            Model::M641 => iterator("pixels_in_subpage", || Mlx90641::pixels_in_subpage(sp(s), pat(p)).into_iter(), |x| x, &want, ctx.thorough),
        });
        match r {
            Ok(Ok(n)) => {
                ctx.st(1);
                ctx.tr(n);
                ctx.tv(n);
            }
            r => ctx.fail(format!("{} pattern {p} subpage {s}: {r:?}", m.name())),
        }
    });
    ctx.check(
        (Mlx90640::HEIGHT, Mlx90640::WIDTH, Mlx90640::NUM_PIXELS) == (24, 32, 768)
            && (Mlx90641::HEIGHT, Mlx90641::WIDTH, Mlx90641::NUM_PIXELS) == (12, 16, 192),
        || "the published sensor dimensions are wrong".into(),
    );
    crate::checks::c03::controls(ctx, crate::checks::c03::Look::Stored);
    // The two MLX90640 subpages partition the image, and a driver used for both leaves both halves in
    // place.
    for m in Model::BOTH {
        for p in 0..2u8 {
            let ee = base_ee(m);
            let mut d = dev(m, &ee);
            d.control = d.control & !0x1000 | (p as u16) << 12;
            let Ok((drv, w)) = attach(d) else { continue };
            let n = m.pixels();
            let mut buf = vec![S1; n];
            let mut dr = drv.clone();
            install(w.clone());
            let r = crate::ctx::guard(|| (dr.op(Op::Temp(0), &mut buf), dr.op(Op::Temp(1), &mut buf)));
            take();
            if let Err(e) = r {
                ctx.fail(e);
                continue;
            }
            let i0 = image(&drv, &w, Op::Temp(0), n).unwrap().0;
            let i1 = image(&drv, &w, Op::Temp(1), n).unwrap().0;
            for i in 0..n {
                let (a, b) = (i0.px[i], i1.px[i]);
                if m == Model::M640 && a.is_some() == b.is_some() {
                    ctx.fail(format!("{} pattern {p}: pixel {i} is not in exactly one subpage", m.name()));
                    break;
                }
                let want = b.or(a).unwrap_or(S1.to_bits());
                if !same_bits(buf[i].to_bits(), want) {
                    ctx.fail(format!("{} pattern {p}: pixel {i} after both subpages is {}", m.name(), buf[i]));
                    break;
                }
            }
            ctx.tv(1);
        }
    }
}
