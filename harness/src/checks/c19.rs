//! C19: drivers sharing a bus do not influence each other.
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::explore::*;
use crate::util::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};

/// What a thread does: optionally attach to the camera first, then these calls.
type Prog = Vec<Op>;

#[derive(Clone, Debug, PartialEq)]
struct Outcome {
    rets: Vec<Ret>,
    imgs: Vec<Vec<u32>>,
    ambient: Option<u32>,
    /// Status, control, I²C register and RAM of the own camera afterwards.
    regs: (u16, u16, u16),
    ram: Vec<u16>,
    /// Own transactions.
    log: Vec<Tx>,
}
fn nan(x: f32) -> u32 {
    if x.is_nan() {
        0x7FC0_0000
    } else {
        x.to_bits()
    }
}
fn outcome(rets: Vec<Ret>, imgs: Vec<Vec<f32>>, drv: Option<&mut Drv>, w: &World, addr: u8) -> Outcome {
    let d = w.devs.iter().find(|d| d.addr == addr).unwrap();
    Outcome {
        rets,
        imgs: imgs.iter().map(|v| v.iter().map(|x| nan(*x)).collect()).collect(),
        ambient: drv.and_then(|d| d.ambient()).map(nan),
        regs: (d.status, d.control, d.i2creg),
        ram: d.ram.to_vec(),
        log: w.log.iter().filter(|t| t.addr == addr).cloned().collect(),
    }
}
fn differ(a: &Outcome, b: &Outcome) -> String {
    if a.rets != b.rets {
        return format!("calls return {:?}, alone {:?}", a.rets, b.rets);
    }
    for (i, (x, y)) in a.imgs.iter().zip(&b.imgs).enumerate() {
        if let Some(p) = (0..x.len()).find(|p| x[*p] != y[*p]) {
            return format!(
                "element {p} of image {i} is {}, alone {}",
                f32::from_bits(x[p]),
                f32::from_bits(y[p])
            );
        }
    }
    if a.ambient != b.ambient {
        return format!("ambient temperature {:?}, alone {:?}", a.ambient.map(f32::from_bits), b.ambient.map(f32::from_bits));
    }
    if a.regs != b.regs {
        return format!("leaves the registers at {:x?}, alone {:x?}", a.regs, b.regs);
    }
    for (i, (x, y)) in a.log.iter().zip(&b.log).enumerate() {
        if x != y {
            return format!("own transaction {i} is {x:?}, alone {y:?}");
        }
    }
    format!("{} own transactions, alone {}", a.log.len(), b.log.len())
}

/// One participant.
#[derive(Clone)]
struct Part {
    /// A driver, or nothing if the thread attaches to the camera by itself.
    drv: Option<Drv>,
    addr: u8,
    oracle: Arc<Oracle>,
    prog: Prog,
    /// The world it lives in.
    world: usize,
    key: Option<Key>,
}

fn body(p: &Part, drv: &mut Option<Drv>) -> (Vec<Ret>, Vec<Vec<f32>>) {
    let mut rets = vec![];
    let mut imgs = vec![];
    if drv.is_none() {
        match p.oracle.build(p.addr) {
            Ok(d) => *drv = Some(d),
            Err(e) => return (vec![e], imgs),
        }
    }
    let d = drv.as_mut().unwrap();
    for op in &p.prog {
        let mut buf = if op.is_image() { vec![S2; p.oracle.model.pixels()] } else { vec![] };
        rets.push(d.op(*op, &mut buf));
        if op.is_image() {
            imgs.push(buf);
        }
    }
    (rets, imgs)
}

/// What a participant does without the other one.
fn alone(p: &Part, worlds: &[World]) -> Result<Outcome, String> {
    let o = alone_here(p, worlds)?;
    if let (Some(_), Some(key)) = (&p.drv, p.key) {
        let h = pristine(key, &p.prog)?;
        if h != digest(&o) {
            return Err(format!(
                "{:?}: the calls {:?} of a driver that is alone on its bus give something else than in a process in which no other driver exists",
                p.oracle.model, p.prog
            ));
        }
    }
    Ok(o)
}
fn digest(o: &Outcome) -> u64 {
    format!("{o:?}").bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// Part, frame and calibration kind of a scene: what a process needs to make the participant anew.
type Key = (usize, bool, usize, usize);

/// The digest of what a program does in a process of its own.
fn pristine(k: Key, prog: &[Op]) -> Result<u64, String> {
    static MEMO: Mutex<Option<std::collections::HashMap<String, u64>>> = Mutex::new(None);
    let arg = format!("{},{},{},{};{}", k.0, k.1 as u8, k.2, k.3, prog.iter().map(|o| names(o)).collect::<Vec<_>>().join(","));
    if let Some(h) = MEMO.lock().unwrap().get_or_insert_with(Default::default).get(&arg) {
        return Ok(*h);
    }
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe).args(["C19", "--alone", &arg]).output().map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let h = text.trim().strip_prefix("digest ").and_then(|h| h.parse().ok());
    let Some(h) = h else { return Err(format!("{prog:?} in a process of its own: {text}{}", String::from_utf8_lossy(&out.stderr))) };
    MEMO.lock().unwrap().get_or_insert_with(Default::default).insert(arg, h);
    Ok(h)
}
fn vocabulary() -> Vec<Op> {
    let mut v = Op::all();
    v.extend([Op::Override(0.5), Op::Override(0.7), Op::SetReflected(Some(-3.0)), Op::SetReflected(Some(7.0)), Op::SetReflected(Some(-40.0))]);
    v
}
fn names(o: &Op) -> String {
    vocabulary().iter().position(|x| x == o).expect("an operation of the vocabulary").to_string()
}
/// The other end of `pristine`.
fn serve_alone(arg: &str) -> Result<u64, String> {
    let (k, prog) = arg.split_once(';').ok_or("argument")?;
    let k: Vec<usize> = k.split(',').map(|x| x.parse().unwrap()).collect();
    let voc = vocabulary();
    let prog: Vec<Op> = prog.split(',').map(|x| voc[x.parse::<usize>().unwrap()]).collect();
    let mut sc = scene(k[0], k[1] != 0, k[3], Some(k[2]))?;
    let mut p = sc.parts.remove(0);
    p.prog = prog;
    alone_here(&p, &sc.worlds).map(|o| digest(&o))
}

fn alone_here(p: &Part, worlds: &[World]) -> Result<Outcome, String> {
    install(worlds[p.world].clone());
    let mut drv = p.drv.clone();
    let r = guard(|| body(p, &mut drv));
    let w = take();
    let (rets, imgs) = r?;
    Ok(outcome(rets, imgs, drv.as_mut(), &w, p.addr))
}

/// Run the participants in threads of their own.  `switches` as in `SchedState`.
fn threads(parts: &[Part], worlds: &[World], first: usize, switches: &[(usize, usize)]) -> (Vec<Result<Outcome, String>>, Vec<u8>) {
    let s = Arc::new(Sched {
        m: Mutex::new(SchedState {
            worlds: worlds.to_vec(),
            lives: parts.iter().map(|p| p.world).collect(),
            turn: first,
            alive: vec![true; parts.len()],
            switches: switches.to_vec(),
            global: 0,
            trace: vec![],
            arrived: vec![false; parts.len()],
        }),
        cv: Condvar::new(),
    });
    let res: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = parts
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let s = s.clone();
                sc.spawn(move || {
                    install_shared(s.clone(), i);
                    let mut drv = p.drv.clone();
                    let r = guard(|| body(p, &mut drv));
                    uninstall();
                    finish(&s, i);
                    (r, drv)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let st = s.m.lock().unwrap();
    let out = res
        .into_iter()
        .zip(parts)
        .map(|((r, mut drv), p)| r.map(|(rets, imgs)| outcome(rets, imgs, drv.as_mut(), &st.worlds[p.world], p.addr)))
        .collect();
    (out, st.trace.clone())
}

fn show(trace: &[u8]) -> String {
    trace.iter().map(|t| (b'A' + t) as char).collect()
}

/// All orders of `n[0]` and `n[1]` transactions, as switches.
fn orders(n: [usize; 2]) -> Vec<(usize, Vec<(usize, usize)>)> {
    let t = n[0] + n[1];
    let mut v = vec![];
    for mask in 0u64..1 << t {
        if mask.count_ones() as usize != n[1] {
            continue;
        }
        let at = |i: usize| (mask >> i & 1) as usize;
        let mut sw = vec![];
        for i in 1..t {
            if at(i) != at(i - 1) {
                sw.push((i, at(i)));
            }
        }
        v.push((at(0), sw));
    }
    v
}
/// All schedules with at most `k` preemptions of programs with `t` transactions in total.
fn bounded(t: usize, k: usize) -> Vec<(usize, Vec<(usize, usize)>)> {
    let mut v = vec![];
    for first in 0..2usize {
        v.push((first, vec![]));
        let mut cur: Vec<(Vec<(usize, usize)>, usize)> = vec![(vec![], 0)];
        for _ in 0..k {
            let mut next = vec![];
            for (sw, from) in &cur {
                for i in from + 1..t {
                    let mut n = sw.clone();
                    n.push((i, (first + n.len() + 1) % 2));
                    v.push((first, n.clone()));
                    next.push((n, i));
                }
            }
            cur = next;
        }
    }
    v
}

struct Scene {
    name: String,
    parts: Vec<Part>,
    worlds: Vec<World>,
}

fn cam(m: Model, addr: u8, k: u64, pat: u8, res: u8) -> Dev {
    let mut d = camera(m, pat, res);
    d.addr = addr;
    d.on_start = Some((1 + k as u32 % 2, (2 - k % 2) as u8, (k % 2) as u8));
    d.ram = frame_ram(m, 3 + k);
    d.status = ST_NEW | (k as u16 & 1);
    if k > 0 {
        // A different calibration for the second camera.
        let mut e = (*d.eeprom).clone();
        match m {
            Model::M640 => {
                e[0x30] = e[0x30].wrapping_add(0x57);
                e[0x11] = e[0x11].wrapping_add(0x31);
            }
            Model::M641 => {
                e[0x24] = ham((e[0x24] & 0x7FF) ^ 0x0C);
                e[0x23] = ham(0x1D3);
            }
        }
        d.eeprom = Arc::new(e);
    }
    d
}

/// Frames that a camera may deliver, ordinary and degenerate.
const FILLS: usize = 8;
fn fill(d: &mut Dev, k: usize) {
    let m = d.model;
    match k {
        0 => {}
        1 => d.set_word(m.vdd(), 0),
        2 => d.set_word(m.gain(), 0),
        3 => d.set_word(m.ptat(), 0),
        4 => {
            d.set_word(m.vbe(), 0);
            d.set_word(m.cp(0), 0);
            d.set_word(m.cp(1), 0);
        }
        5 => d.ram = [0; RAM_MAX],
        6 => d.ram = [0x8000; RAM_MAX],
        _ => d.ram = [0x7FFF; RAM_MAX],
    }
}

/// Two cameras on a bus, or a driver and its clone; or only one of the participants.
fn scene(kind: usize, user: bool, frame: usize, only: Option<usize>) -> Result<Scene, String> {
    let (a, b) = [(Model::M640, Model::M640), (Model::M641, Model::M641), (Model::M640, Model::M641), (Model::M640, Model::M640), (Model::M641, Model::M641)][kind];
    let mk = |m: Model| Arc::new(if user { Oracle::user(m) } else { Oracle::real(m) });
    let (oa, ob) = (mk(a), mk(b));
    let want = |i: usize| only.is_none() || only == Some(i);
    if kind < 3 {
        let (mut da, mut db) = (cam(a, 0x33, 0, 1, 2), cam(b, 0x34, 1, 0, 1));
        fill(&mut da, frame % FILLS);
        fill(&mut db, frame / FILLS);
        let mut w = World::new(da);
        w.devs.push(db);
        w.log_on = true;
        install(w);
        let r = guard(|| [(&oa, 0x33), (&ob, 0x34)].into_iter().enumerate().map(|(i, (o, a))| want(i).then(|| o.build(a))).collect::<Vec<_>>());
        let mut w = take();
        w.log.clear();
        let mut parts = vec![];
        for (i, (r, o)) in r?.into_iter().zip([oa, ob]).enumerate() {
            if let Some(r) = r {
                parts.push(Part {
                    drv: Some(r.map_err(|e| format!("attaching to two cameras: {e:?}"))?),
                    addr: 0x33 + i as u8,
                    oracle: o,
                    prog: vec![],
                    world: 0,
                    key: Some((kind, user, i, frame)),
                });
            }
        }
        Ok(Scene { name: format!("{} and {} on one bus", a.name(), b.name()), parts, worlds: vec![w] })
    } else {
        // A clone talks to a copy of the camera, so that what it does shows only in its own results.
        let mut d = cam(a, 0x33, 0, 1, 2);
        fill(&mut d, frame % FILLS);
        let (drv, mut w) = oa.fresh(&d, Some(0.9), Some(12.0))?;
        w.log_on = true;
        let mut w2 = w.clone();
        fill(w2.dev(), frame / FILLS);
        let v = w2.devs[0].word(a.vdd());
        w2.dev().set_word(a.vdd(), v.wrapping_add(60));
        let part = |i: usize, drv: Drv, o: Arc<Oracle>| Part { drv: Some(drv), addr: 0x33, oracle: o, prog: vec![], world: i, key: Some((kind, user, i, frame)) };
        let mut parts = vec![];
        if want(0) {
            parts.push(part(0, drv.clone(), oa));
        }
        if want(1) {
            parts.push(part(1, drv, ob));
        }
        Ok(Scene { name: format!("{} driver and its clone", a.name()), parts, worlds: vec![w, w2] })
    }
}

const SHORT: [&[Op]; 11] = [
    &[Op::IfReady],
    &[Op::Image],
    &[Op::Temp(0)],
    &[Op::Raw(1)],
    &[Op::SetRes(3)],
    &[Op::SetPat(0)],
    &[Op::SetPat(1)],
    &[Op::GetPat],
    &[Op::ResetData],
    &[Op::Sync],
    &[Op::Override(0.5), Op::SetReflected(Some(-3.0)), Op::Temp(1)],
];

fn judge(name: &str, sched: &str, parts: &[Part], got: &[Result<Outcome, String>], want: &[Outcome]) -> Result<(), String> {
    for (i, g) in got.iter().enumerate() {
        let who = (b'A' + i as u8) as char;
        let d = match g {
            Ok(g) if *g == want[i] => continue,
            Ok(g) => differ(g, &want[i]),
            Err(e) => e.clone(),
        };
        return Err(format!(
            "{name}: A: {:?}, B: {:?}, order {sched}: {who}: {d}",
            parts[0].prog, parts[1].prog
        ));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    if let Some(i) = std::env::args().position(|a| a == "--alone") {
        match serve_alone(&std::env::args().nth(i + 1).unwrap_or_default()) {
            Ok(h) => println!("digest {h}"),
            Err(e) => println!("{e}"),
        }
        std::process::exit(0);
    }
    let q = !ctx.thorough;
    let k = if q { 2 } else { 3 };
        ctx.bound(format!("both models and mixed pairs, own and user-defined calibrations, two cameras on one bus and a driver with its clone; what a driver does alone is determined in a process of its own: (0) 8 x 8 ordinary and degenerate RAM contents of the two cameras x every order of 5 image calls of each in one thread; (1) every pair of 11 short programs in two threads x every order of their bus transactions (programs with more than {} transactions: at most {k} preemptions); (2) programs of 8 to 14 calls, also attaching to the camera meanwhile, x every schedule with at most {k} preemptions at transactions; (3) in one thread, every two-call program of each driver x every order of the calls{}; (4) one driver making {} calls of one kind, another one as many of another kind, one after the other and alternating; (5) a clone made after every two actions out of {} calls, unusual session values, failing calls and frames (quick: a third, own calibration a 24th) goes on as a driver with the same history does, while the cloned one does something else", if q { 8 } else { 14 }, if q { " (quick: a third of the combinations in each order, each scene at least once per pair)" } else { "" }, if q { 280 } else { 1100 }, Op::all().len()));
    ctx.assume("threads are switched at bus transactions only: between two transactions a driver shares nothing with another one through safe code except through statics, which every schedule exposes at the next transaction");
    let scheds = AtomicU64::new(0);
    let mut scenes = vec![];
    for kind in 0..5 {
        for user in [false, true] {
            match scene(kind, user, 0, None) {
                Ok(s) => scenes.push(s),
                Err(e) => return ctx.fail(e),
            }
        }
    }
    let explore = |sc: &Scene, parts: Vec<Part>, plan: &dyn Fn([usize; 2]) -> Vec<(usize, Vec<(usize, usize)>)>| {
        let want: Vec<_> = parts.iter().map(|p| alone(p, &sc.worlds)).collect();
        let want = match want.into_iter().collect::<Result<Vec<_>, _>>() {
            Ok(w) => w,
            Err(e) => return ctx.fail(format!("{}: {e}", sc.name)),
        };
        let n = [want[0].log.len(), want[1].log.len()];
        let plan = plan(n);
        for (i, (first, sw)) in plan.iter().enumerate() {
            let (got, trace) = threads(&parts, &sc.worlds, *first, sw);
            if let Err(e) = judge(&sc.name, &show(&trace), &parts, &got, &want) {
                return ctx.fail(e);
            }
            // A schedule determines the execution.
            if i % 97 == 5 {
                let (_, t2) = threads(&parts, &sc.worlds, *first, sw);
                if t2 != trace {
                    return ctx.fail(format!(
                        "{}: A: {:?}, B: {:?}: repeating order {} with new cameras and drivers leads to {}: something outlives a driver",
                        sc.name, parts[0].prog, parts[1].prog, show(&trace), show(&t2)
                    ));
                }
            }
        }
        scheds.fetch_add(plan.len() as u64, Relaxed);
        ctx.st(plan.len() as u64);
        ctx.tv(2 * plan.len() as u64);
        ctx.tr((parts[0].prog.len() + parts[1].prog.len()) as u64 * plan.len() as u64);
    };
    // (0)
    par(ctx, 10 * FILLS * FILLS, |j| {
        let (kind, user, frame) = (j % 5, j / 5 % 2 == 1, j / 10);
        if q && user && frame % 3 != 0 {
            return;
        }
        let sc = match scene(kind, user, frame, None) {
            Ok(s) => s,
            Err(e) => return ctx.fail(e),
        };
        let mut parts = sc.parts.clone();
        let prog = vec![Op::Temp(0), Op::Raw(1), Op::IfReady, Op::Ambient, Op::Image];
        parts[0].prog = prog.clone();
        parts[1].prog = prog;
        let want = match parts.iter().map(|p| alone(p, &sc.worlds)).collect::<Result<Vec<_>, _>>() {
            Ok(w) => w,
            Err(e) => return ctx.fail(format!("{}: {e}", sc.name)),
        };
        for seq in orders([5, 5]) {
            let mut order = vec![];
            for i in 0..10 {
                let flips = seq.1.iter().filter(|(k, _)| *k <= i).count();
                order.push((seq.0 + flips) % 2);
            }
            match serial(&parts, &sc.worlds, &order) {
                Err(e) => return ctx.fail(format!("{}: {e}", sc.name)),
                Ok(got) => {
                    let got: Vec<_> = got.into_iter().map(Ok).collect();
                    let name: Vec<u8> = order.iter().map(|x| *x as u8).collect();
                    if let Err(e) = judge(&format!("{}, contents {frame}, one thread", sc.name), &show(&name), &parts, &got, &want) {
                        return ctx.fail(e);
                    }
                }
            }
            ctx.st(1);
            ctx.tv(2);
            ctx.tr(10);
        }
    });
    // (1)
    par(ctx, scenes.len() * SHORT.len() * SHORT.len(), |j| {
        let sc = &scenes[j % scenes.len()];
        let (a, b) = (j / scenes.len() / SHORT.len(), j / scenes.len() % SHORT.len());
        if q && j % scenes.len() % 2 == 1 && (a + b) % 3 != 0 {
            return;
        }
        let mut parts = sc.parts.clone();
        parts[0].prog = SHORT[a].to_vec();
        parts[1].prog = SHORT[b].to_vec();
        explore(sc, parts, &|n| {
            if n[0] + n[1] <= if q { 8 } else { 14 } {
                orders(n)
            } else {
                bounded(n[0] + n[1], k)
            }
        });
    });
    // (2)
    let long: [(bool, &[Op]); 4] = [
        (false, &[Op::IfReady, Op::SetPat(0), Op::Temp(1), Op::SetRes(1), Op::Raw(0), Op::Override(0.7), Op::Image, Op::Ambient]),
        (false, &[Op::SetReflected(Some(7.0)), Op::Sync, Op::IfReady, Op::Ambient, Op::GetRes, Op::SetPat(1), Op::Temp(0), Op::Emissivity, Op::DataAvailable]),
        (true, &[Op::IfReady, Op::Raw(1), Op::SetRes(0), Op::Image, Op::Ambient]),
        (true, &[Op::Sync, Op::SetPat(1), Op::Temp(0), Op::IfReady, Op::Emissivity]),
    ];
    par(ctx, scenes.len() * 16, |j| {
        let sc = &scenes[j / 16];
        let (a, b) = (j / 4 % 4, j % 4);
        if q && (a + 3 * b + j / 16) % 13 != 0 {
            return;
        }
        let mut parts = sc.parts.clone();
        for (p, l) in parts.iter_mut().zip([a, b]) {
            p.prog = long[l].1.to_vec();
            if long[l].0 {
                p.drv = None;
            }
        }
        explore(sc, parts, &|n| bounded(n[0] + n[1], k));
    });
    ctx.count("schedules", scheds.load(Relaxed));
    // (3)
    let ops = [
        Op::IfReady,
        Op::Temp(0),
        Op::Raw(1),
        Op::SetRes(1),
        Op::SetPat(0),
        Op::SetPat(1),
        Op::Override(0.7),
        Op::SetReflected(Some(-40.0)),
        Op::DefaultEmissivity,
        Op::Sync,
    ];
    let n = ops.len();
    let order: Vec<Vec<usize>> = vec![vec![0, 0, 1, 1], vec![0, 1, 0, 1], vec![0, 1, 1, 0], vec![1, 0, 0, 1], vec![1, 0, 1, 0], vec![1, 1, 0, 0]];
    par(ctx, scenes.len() * n * n, |j| {
        let sc = &scenes[j % scenes.len()];
        if q && j % 2 != 0 {
            // Only user-defined calibrations are skipped; statics do not depend on them.
            return;
        }
        let (a1, a2) = (ops[j / scenes.len() / n], ops[j / scenes.len() % n]);
        // Every program ends with an image so that what was disturbed shows.
        let pa = vec![a1, a2, Op::Image, Op::Ambient, Op::Emissivity, Op::Reflected];
        let mut parts = sc.parts.clone();
        parts[0].prog = pa;
        let want_a = match alone(&parts[0], &sc.worlds) {
            Ok(w) => w,
            Err(e) => return ctx.fail(format!("{}: {e}", sc.name)),
        };
        for b in 0..n * n {
            parts[1].prog = vec![ops[b / n], ops[b % n], Op::Image, Op::Ambient, Op::Emissivity, Op::Reflected];
            let want_b = match alone(&parts[1], &sc.worlds) {
                Ok(w) => w,
                Err(e) => return ctx.fail(format!("{}: {e}", sc.name)),
            };
            for o in &order {
                if q && (b + j / 2) % 3 != 0 && *o != order[1] {
                    continue;
                }
                // The two drivers' last calls come alternately, too.
                let mut seq = o.clone();
                seq.extend([o[3] ^ 1, o[3], o[3] ^ 1, o[3], 0, 1, 0, 1]);
                match serial(&parts, &sc.worlds, &seq) {
                    Err(e) => return ctx.fail(format!("{}: {e}", sc.name)),
                    Ok(got) => {
                        let got: Vec<_> = got.into_iter().map(Ok).collect();
                        let name: Vec<u8> = seq.iter().map(|x| *x as u8).collect();
                        if let Err(e) = judge(&format!("{}, one thread", sc.name), &show(&name), &parts, &got, &[want_a.clone(), want_b.clone()]) {
                            return ctx.fail(e);
                        }
                    }
                }
                ctx.st(1);
                ctx.tv(2);
                ctx.tr(12);
            }
        }
    });
    // (4)
    let ops = [Op::IfReady, Op::Temp(0), Op::Raw(1), Op::Image, Op::GetRes, Op::SetPat(0), Op::Sync];
    let times = if q { 280 } else { 1100 };
    par(ctx, scenes.len() * ops.len() * ops.len(), |j| {
        let sc = &scenes[j % scenes.len()];
        if q && j % scenes.len() % 2 == 1 {
            return;
        }
        let (a, b) = (ops[j / scenes.len() / ops.len()], ops[j / scenes.len() % ops.len()]);
        let tail = [Op::Image, Op::Ambient, Op::Temp(1), Op::GetPat, Op::Emissivity];
        let mut parts = sc.parts.clone();
        for (p, o) in parts.iter_mut().zip([a, b]) {
            p.prog = vec![o; times];
            p.prog.extend(tail);
        }
        let want = match parts.iter().map(|p| alone(p, &sc.worlds)).collect::<Result<Vec<_>, _>>() {
            Ok(w) => w,
            Err(e) => return ctx.fail(format!("{}: {e}", sc.name)),
        };
        let n = times + tail.len();
        for kind in 0..3 {
            let order: Vec<usize> = match kind {
                0 => (0..2 * n).map(|i| i % 2).collect(),
                1 => (0..2 * n).map(|i| i / n).collect(),
                _ => (0..2 * n).map(|i| 1 - i / n).collect(),
            };
            match serial(&parts, &sc.worlds, &order) {
                Err(e) => return ctx.fail(format!("{}: {e}", sc.name)),
                Ok(got) => {
                    for (i, g) in got.iter().enumerate() {
                        if *g != want[i] {
                            return ctx.fail(format!(
                                "{}, one thread: {times} x {a:?} of one driver and {times} x {b:?} of the other ({}): {}: {}",
                                sc.name,
                                ["alternating", "A before B", "B before A"][kind],
                                ["A", "B"][i],
                                differ(g, &want[i])
                            ));
                        }
                    }
                }
            }
            ctx.st(1);
            ctx.tv(2);
            ctx.tr(2 * n as u64);
        }
    });
    clones(ctx);
    ctx.sample("MLX90640 and MLX90641 on one bus: A: [IfReady], B: [SetRes(3)], order AABABA: as alone");
}

/// Run the calls of both participants in one thread, in the given order.
fn serial(parts: &[Part], worlds: &[World], seq: &[usize]) -> Result<Vec<Outcome>, String> {
    let mut drv: Vec<Drv> = parts.iter().map(|p| p.drv.clone().unwrap()).collect();
    let mut worlds = worlds.to_vec();
    let mut at = vec![0; parts.len()];
    let mut rets = vec![vec![]; parts.len()];
    let mut imgs = vec![vec![]; parts.len()];
    for &i in seq {
        let op = parts[i].prog[at[i]];
        at[i] += 1;
        let w = parts[i].world;
        let mut buf = if op.is_image() { vec![S2; parts[i].oracle.model.pixels()] } else { vec![] };
        install(std::mem::take(&mut worlds[w]));
        let r = guard(|| drv[i].op(op, &mut buf));
        worlds[w] = take();
        rets[i].push(r?);
        if op.is_image() {
            imgs[i].push(buf);
        }
    }
    let mut out = vec![];
    for (i, p) in parts.iter().enumerate() {
        let (r, g) = (std::mem::take(&mut rets[i]), std::mem::take(&mut imgs[i]));
        out.push(outcome(r, g, Some(&mut drv[i]), &worlds[p.world], p.addr));
    }
    Ok(out)
}

/// A clone made at any point of a history goes on exactly as the original would.
fn clones(ctx: &Ctx) {
    const ODD_VALUES: [f32; 12] =
        [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, -0.0, 1.0, f32::MAX, -273.15, -300.0, 1e-42, 1.5, -0.5];
    // Each history is made by two drivers; one is replaced by its clone.
    #[derive(Clone, Copy, Debug)]
    enum Do {
        Call(Op),
        Fail(Op, usize),
        Publish(u8, u8),
    }
    let mut acts: Vec<Do> = Op::all().into_iter().map(Do::Call).collect();
    for v in ODD_VALUES {
        acts.extend([Do::Call(Op::Override(v)), Do::Call(Op::SetReflected(Some(v)))]);
    }
    for op in [Op::Temp(0), Op::Raw(1), Op::IfReady, Op::Image, Op::SetPat(0), Op::SetRes(3), Op::Sync] {
        acts.extend((0..4).map(|k| Do::Fail(op, k)));
    }
    acts.extend((0..3 + ODD).map(|f| Do::Publish(f, f & 1)));
    let go = |d: &mut Drv, w: World, a: Do, n: usize| -> Result<(Option<Ret>, Vec<u32>, World), String> {
        let mut w = World { ntx: 0, log_on: false, horizon: 3000, faults: vec![], ..w };
        let op = match a {
            Do::Publish(f, s) => {
                w.dev().publish(f, s);
                return Ok((None, vec![], w));
            }
            Do::Call(op) => op,
            Do::Fail(op, k) => {
                w.faults = vec![(k, Fault::Fail)];
                op
            }
        };
        let mut buf = if op.is_image() { vec![S2; n] } else { vec![] };
        install(w);
        let r = guard(|| d.op(op, &mut buf));
        let w = take();
        Ok((Some(r?), buf.into_iter().map(f32::to_bits).collect(), w))
    };
    // What is asked afterwards; the first question differs, so that each one meets the clone as it was.
    let asks: Vec<Op> = Op::all();
    let pairs = acts.len() * acts.len();
    for m in Model::BOTH {
        for real in [false, true] {
            let o = if real { Oracle::real(m) } else { Oracle::user(m) };
            let every = if ctx.thorough { 1 } else if real { 24 } else { 3 };
            par(ctx, pairs / every, |j| {
                let j = j * every + j % every;
                let hist = [acts[j % acts.len()], acts[j / acts.len() % acts.len()]];
                let p = (j & 1) as u8;
                let mut both = vec![];
                for _ in 0..2 {
                    let mut d = camera(m, p, 2);
                    d.status = ST_NEW | (j as u16 >> 1 & 1);
                    let (mut d, mut w) = match o.fresh(&d, None, None) {
                        Ok(x) => x,
                        Err(e) => return ctx.fail(format!("{}: {e}", m.name())),
                    };
                    for a in hist {
                        match go(&mut d, w, a, m.pixels()) {
                            Ok(r) => w = r.2,
                            Err(e) => return ctx.fail(format!("{}: {hist:?}: {e}", m.name())),
                        }
                    }
                    both.push((d, w));
                }
                let (cd, cw) = both.pop().unwrap();
                // The clone is made, then the driver that it was made of does something else.
                let (mut a, mut aw) = both.pop().unwrap();
                let (mut b, mut bw) = match guard(|| cd.clone()) {
                    Ok(b) => (b, cw.clone()),
                    Err(e) => return ctx.fail(format!("{}: clone: {e}", m.name())),
                };
                let mut cd = cd;
                for op in [Op::Override(0.123), Op::SetReflected(Some(77.0)), Op::SetPat(1 - p), Op::Temp(0)] {
                    let mut w = cw.clone();
                    w.dev().publish(2, 1);
                    if let Err(e) = go(&mut cd, w, Do::Call(op), m.pixels()) {
                        return ctx.fail(format!("{}: {hist:?}, clone, {op:?}: {e}", m.name()));
                    }
                }
                drop(cd);
                let local = [Op::Emissivity, Op::Reflected, Op::Ambient];
                for i in 0..asks.len() + local.len() {
                    let op = if i < local.len() { local[i] } else { asks[(i * 7 + j) % asks.len()] };
                    let (x, y) = match (go(&mut a, aw, Do::Call(op), m.pixels()), go(&mut b, bw, Do::Call(op), m.pixels())) {
                        (Ok(x), Ok(y)) => (x, y),
                        (Err(e), _) | (_, Err(e)) => return ctx.fail(format!("{}: {hist:?}, clone, {op:?}: {e}", m.name())),
                    };
                    let same_px = x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(x, y)| same_bits(*x, *y));
                    let same_dev = format!("{:?}", (x.2.devs[0].status, x.2.devs[0].control, x.2.devs[0].i2creg))
                        == format!("{:?}", (y.2.devs[0].status, y.2.devs[0].control, y.2.devs[0].i2creg));
                    let same_ret = match (&x.0, &y.0) {
                        (Some(Ret::F(x)), Some(Ret::F(y))) => same_bits(*x, *y),
                        (Some(Ret::OptF(Some(x))), Some(Ret::OptF(Some(y)))) => same_bits(*x, *y),
                        (x, y) => x == y,
                    };
                    if !same_ret || !same_px || !same_dev || x.2.ntx != y.2.ntx {
                        return ctx.fail(format!(
                            "{} {}: after {hist:?} a clone's {op:?} returns {:?}, the driver's {:?}; {}",
                            m.name(),
                            if real { "own calibration" } else { "user-defined calibration" },
                            y.0,
                            x.0,
                            if same_px { "" } else { "the images differ" }
                        ));
                    }
                    (aw, bw) = (x.2, y.2);
                }
                ctx.st(1);
                ctx.tr(2 * asks.len() as u64);
                ctx.tv(2);
            });
        }
    }
}
