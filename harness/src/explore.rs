//! Explicit-state exploration of the real driver together with the simulated camera.
//!
//! A node is a driver (the real one), its camera, and the state of a small specification.  Executing an
//! action runs the real driver and predicts, from the specification and the transactions that were
//! seen on the bus, everything that the call may do; differences are reported by category, and each
//! property looks at its categories.
use crate::cal::{Tables, UserCal};
use crate::checks::c12::{expect, place, value};
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::util::*;
use std::collections::HashMap;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

#[derive(Clone)]
pub enum CalKind {
    /// The driver reads the camera's EEPROM.
    Real,
    User(Arc<Tables>),
}

/// What the user of a driver knows about it.
#[derive(Clone, Copy, Debug)]
pub struct Spec {
    /// The last control register value that was successfully read or written.
    pub last: u16,
    pub em: f32,
    pub default_em: f32,
    pub tr: Option<f32>,
    pub amb: Option<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Call(Op),
    /// The bus fails at the given transaction of the call.
    Fault(Op, usize, Fault),
    Env(Event),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tag {
    /// Panics and calls that never end.
    Crash,
    /// A getter's result, or the success of a call.
    Ret,
    /// A bus error is not reported, or not as what it is, or the call went on.
    BusErr,
    /// The image (which elements, which values).
    Image,
    /// Emissivity, reflected or ambient temperature.
    Session,
    /// Registers of the camera that a call must not change or change differently.
    Device,
    /// Poll: the flag and the delivery do not belong together.
    Poll,
    /// The memory map.
    Map,
}

#[derive(Clone)]
pub struct Node {
    pub drv: Drv,
    pub world: World,
    pub spec: Spec,
    pub path: Vec<Act>,
}

pub struct Step {
    pub node: Node,
    pub log: Vec<Tx>,
    pub bad: Vec<(Tag, String)>,
    pub ret: Option<Ret>,
    pub img: Option<Img>,
}

type ImgKey = (u64, u16, u32, Option<u32>, bool, u8);
pub struct Oracle {
    pub model: Model,
    pub kind: CalKind,
    memo: Mutex<HashMap<ImgKey, Arc<Img>>>,
}

fn hash<T: Hash>(t: T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Oracle {
    pub fn new(model: Model, kind: CalKind) -> Oracle {
        Oracle { model, kind, memo: Mutex::new(HashMap::new()) }
    }
    pub fn user(model: Model) -> Oracle {
        Oracle::new(model, CalKind::User(Arc::new(user_tables(model))))
    }
    pub fn real(model: Model) -> Oracle {
        Oracle::new(model, CalKind::Real)
    }
    /// A driver attached to the camera in the installed world.
    pub fn build(&self, addr: u8) -> Result<Drv, Ret> {
        match &self.kind {
            CalKind::Real => Drv::new(self.model, addr),
            CalKind::User(t) => match self.model {
                Model::M640 => Drv::user640(addr, UserCal(t.clone())),
                Model::M641 => Drv::user641(addr, UserCal(t.clone())),
            },
        }
    }
    /// A freshly constructed driver for a camera, with the given user settings.
    pub fn fresh(&self, d: &Dev, em: Option<f32>, tr: Option<f32>) -> Result<(Drv, World), String> {
        let a = d.addr;
        install(World::new(d.clone()));
        let r = guard(|| -> Result<Drv, Ret> {
            let mut d = self.build(a)?;
            if let Some(e) = em {
                d.q(Op::Override(e));
            }
            if tr.is_some() {
                d.q(Op::SetReflected(tr));
            }
            Ok(d)
        });
        let mut w = take();
        w.ntx = 0;
        match r? {
            Ok(d) => Ok((d, w)),
            Err(e) => Err(format!("constructing a driver failed: {e:?}")),
        }
    }
    pub fn fresh_for(&self, n: &Node) -> Result<(Drv, World), String> {
        let s = n.spec;
        let em = (s.em.to_bits() != s.default_em.to_bits()).then_some(s.em);
        self.fresh(&n.world.devs[0], em, s.tr)
    }
    /// The starting node for a camera.
    pub fn start(&self, d: Dev) -> Result<Node, String> {
        let (drv, world) = self.fresh(&d, None, None)?;
        let default_em = match (&self.kind, self.model) {
            (CalKind::User(t), _) => t.emissivity.unwrap_or(1.0),
            (CalKind::Real, Model::M640) => 1.0,
            (CalKind::Real, Model::M641) => crate::refdec::ref641(&d.eeprom, false).emissivity.unwrap_or(1.0) as f32,
        };
        Ok(Node {
            drv,
            world,
            spec: Spec { last: d.control, em: default_em, default_em, tr: None, amb: None },
            path: vec![],
        })
    }
    /// The image a freshly constructed driver produces from a camera's content, had its control
    /// register the given value.
    pub fn image(&self, d: &Dev, control: u16, em: Option<f32>, tr: Option<f32>, raw: bool, sp: u8) -> Result<Arc<Img>, String> {
        let key = (
            hash(d.ram),
            control & 0x1C00,
            em.map_or(u32::MAX, f32::to_bits),
            tr.map(f32::to_bits),
            raw,
            sp,
        );
        if let Some(i) = self.memo.lock().unwrap().get(&key) {
            return Ok(i.clone());
        }
        let mut d = d.clone();
        d.control = control;
        d.measuring = None;
        let (drv, w) = self.fresh(&d, em, tr)?;
        let op = if raw { Op::Raw(sp) } else { Op::Temp(sp) };
        let (img, _, _) = image(&drv, &w, op, self.model.pixels())?;
        let img = Arc::new(img);
        self.memo.lock().unwrap().insert(key, img.clone());
        Ok(img)
    }

    /// Execute an action and compare it with the specification.
    pub fn exec(&self, n: &Node, act: Act) -> Step {
        let mut path = n.path.clone();
        path.push(act);
        let (op, fault) = match act {
            Act::Env(e) => {
                let mut w = n.world.clone();
                w.apply(e);
                return Step {
                    node: Node { drv: n.drv.clone(), world: w, spec: n.spec, path },
                    log: vec![],
                    bad: vec![],
                    ret: None,
                    img: None,
                };
            }
            Act::Call(o) => (o, None),
            Act::Fault(o, k, f) => (o, Some((k, f))),
        };
        let mut bad = vec![];
        let mut w = n.world.clone();
        w.ntx = 0;
        w.log.clear();
        w.log_on = true;
        w.horizon = 3000;
        w.faults = fault.into_iter().collect();
        let d0 = n.world.devs[0].clone();
        let px = self.model.pixels();
        let run = if op.is_image() {
            image(&n.drv, &w, op, px).map(|(i, d, w)| (i.ret, Some(i), d, w))
        } else {
            let mut d = n.drv.clone();
            install(w);
            let r = guard(|| d.q(op));
            let w = take();
            r.map(|r| (r, None, d, w))
        };
        let (ret, img, mut drv, mut w) = match run {
            Ok(x) => x,
            Err(e) => {
                bad.push((Tag::Crash, e));
                return Step {
                    node: Node { path, ..n.clone() },
                    log: vec![],
                    bad,
                    ret: None,
                    img: None,
                };
            }
        };
        let log = std::mem::take(&mut w.log);
        w.faults.clear();
        w.log_on = false;
        let mut spec = n.spec;
        // Follow the transactions with the camera's reference.
        let mut d = d0.clone();
        let mut first_status = None;
        let mut seen = (d0.status, d0.control);
        let mut wrote = vec![];
        for (i, t) in log.iter().enumerate() {
            if let Some(b) = t.bad {
                bad.push((Tag::Map, format!("transaction {i}: {b}: {t:?}")));
            }
            if t.addr != d0.addr {
                bad.push((Tag::Map, format!("transaction {i} goes to another address: {t:?}")));
            }
            if t.reg >= EE_BASE && t.reg < STATUS && t.bad.is_none() {
                bad.push((Tag::Map, format!("transaction {i} reads the EEPROM")));
            }
            if !t.write {
                if t.ok && t.reg == STATUS {
                    seen.0 = d.follow(STATUS, None);
                    first_status.get_or_insert(seen.0);
                } else if t.ok && t.reg == CONTROL {
                    seen.1 = d.control;
                    spec.last = d.control;
                }
                continue;
            }
            wrote.push(t.reg);
            if let Err(e) = legal_write(op, &d, t) {
                // Writes by calls that may not write break the access rules, too.
                if e.1 {
                    bad.push((Tag::Map, e.0.clone()));
                }
                bad.push((Tag::Device, e.0));
            }
            if t.ok || matches!(fault, Some((k, Fault::Partial)) if k == i) {
                d.follow(t.reg, Some(t.value));
            }
            if t.ok && t.reg == CONTROL {
                spec.last = t.value;
            }
        }
        {
            let (a, b) = (&w.devs[0], &d);
            if (a.status, a.control, a.i2creg, a.ram) != (b.status, b.control, b.i2creg, b.ram) {
                // Cannot happen: the simulated camera only changes by transactions.
                eprintln!("internal error: the camera and its reference differ after {op:?}");
                std::process::exit(2);
            }
        }
        let hit = matches!(fault, Some((k, _)) if log.len() > k);
        let st0 = first_status.unwrap_or(d0.status);
        // The result.
        if hit {
            let k = fault.unwrap().0;
            let want = if log[k].write { Ret::Write(k as u32) } else { Ret::Read(k as u32) };
            if ret != want {
                bad.push((Tag::BusErr, format!("returned {ret:?} although transaction {k} failed")));
            }
            if log.len() != k + 1 {
                bad.push((Tag::BusErr, format!("went on with {} after transaction {k} failed", show(&log[k + 1]))));
            }
        } else {
            let want = match op {
                Op::Emissivity => Ret::F(n.spec.em.to_bits()),
                Op::Reflected => Ret::OptF(n.spec.tr.map(f32::to_bits)),
                Op::Ambient => Ret::OptF(n.spec.amb),
                Op::Dims => Ret::Dims(self.model.height(), self.model.width()),
                Op::IfReady => Ret::Bool(st0 & ST_NEW != 0),
                _ => expect(op, seen.0, seen.1).unwrap_or(Ret::Unit),
            };
            if ret != want {
                let t = match op {
                    Op::Emissivity | Op::Reflected | Op::Ambient => Tag::Session,
                    Op::IfReady => Tag::Poll,
                    _ => Tag::Ret,
                };
                bad.push((t, format!("returned {ret:?} instead of {want:?}")));
            }
            // The camera after a successful call.
            if !ret.is_err() {
                let post = match op {
                    Op::ResetData => d.status & ST_NEW == 0,
                    Op::IfReady if ret == Ret::Bool(true) => d.status & ST_NEW == 0 || log.is_empty(),
                    Op::Sync => d.status & ST_NEW != 0,
                    _ => match value(op) {
                        Some(v) => {
                            let (r, s, wd) = place(op).unwrap();
                            let c = if r == STATUS { d.status } else { d.control };
                            let c0 = if r == STATUS { d0.status } else { d0.control };
                            if c0 >> s & ((1 << wd) - 1) == v && !wrote.is_empty() {
                                bad.push((Tag::Device, "wrote although nothing had to be changed".into()));
                            }
                            c >> s & ((1 << wd) - 1) == v
                        }
                        None => true,
                    },
                };
                if !post {
                    let t = if op == Op::IfReady { Tag::Poll } else { Tag::Device };
                    bad.push((t, format!("left status {:#06x} control {:#06x}", d.status, d.control)));
                }
            }
        }
        // No frame is acknowledged by a poll that failed (before the acknowledgement took effect).
        if op == Op::IfReady {
            let acked = d0.status & ST_NEW != 0 && d.status & ST_NEW == 0;
            let partial_ack = hit && log.last().map(|t| t.write).unwrap_or(false) && fault.unwrap().1 == Fault::Partial;
            if acked && !partial_ack && ret != Ret::Bool(true) {
                bad.push((Tag::Poll, format!("cleared the new-data flag but returned {ret:?}")));
            }
        }
        // The image.
        if let Some(i) = &img {
            let sp = match op {
                Op::Raw(s) | Op::Temp(s) => s,
                _ => (st0 & 1) as u8,
            };
            let delivers = match op {
                Op::IfReady => st0 & ST_NEW != 0,
                _ => true,
            };
            let raw = matches!(op, Op::Raw(_));
            let em = (spec.em.to_bits() != spec.default_em.to_bits()).then_some(spec.em);
            match self.image(&d0_ram(&d0, &d), spec.last, em, spec.tr, raw, sp) {
                Err(e) => bad.push((Tag::Crash, format!("reference: {e}"))),
                Ok(want) => {
                    if ret.is_err() {
                        if i.px.iter().zip(&want.px).any(|(a, b)| a.is_some() && b.is_none()) {
                            bad.push((Tag::Image, "a failed call stored pixels of the other subpage".into()));
                        }
                        // Only when nothing but the acknowledgement failed the frame was processed.
                        let ack_only = hit && log.last().map(|t| t.write).unwrap_or(false);
                        let same = |a: Option<u32>, b: Option<u32>| a.is_some() == b.is_some() && same_bits(a.unwrap_or(0), b.unwrap_or(0));
                        if same(i.ambient, n.spec.amb) {
                        } else if ack_only && same(i.ambient, want.ambient) {
                            spec.amb = i.ambient;
                        } else {
                            bad.push((Tag::Session, "a failed call changed the ambient temperature".into()));
                        }
                    } else if !delivers {
                        if let Some(p) = i.px.iter().position(|p| p.is_some()) {
                            bad.push((Tag::Poll, format!("stored element {p} although there was no new data")));
                        }
                    } else {
                        if let Err(e) = same_px(&i.px, &want.px) {
                            bad.push((Tag::Image, format!("subpage {sp}: {e}")));
                        }
                        spec.amb = want.ambient;
                        if i.ambient.is_none() {
                            bad.push((Tag::Session, "a frame was processed, but there is no ambient temperature".into()));
                        }
                    }
                }
            }
        }
        // User settings.
        match op {
            Op::Override(e) => spec.em = e,
            Op::DefaultEmissivity => spec.em = spec.default_em,
            Op::SetReflected(t) => spec.tr = t,
            _ => {}
        }
        let now = (drv.q(Op::Emissivity), drv.q(Op::Reflected), drv.q(Op::Ambient));
        let (em, tr) = (Ret::F(spec.em.to_bits()), Ret::OptF(spec.tr.map(f32::to_bits)));
        let amb = match now.2 {
            Ret::OptF(a) => a.is_some() == spec.amb.is_some() && same_bits(a.unwrap_or(0), spec.amb.unwrap_or(0)),
            _ => false,
        };
        if now.0 != em || now.1 != tr || !amb {
            bad.push((
                Tag::Session,
                format!(
                    "emissivity {:?}, reflected {:?}, ambient {:?} instead of {em:?}, {tr:?}, {:?}",
                    now.0, now.1, now.2, spec.amb
                ),
            ));
        }
        w.ntx = 0;
        Step { node: Node { drv, world: w, spec, path }, log, bad, ret: Some(ret), img }
    }
}

/// The camera's content as read during a call: what was there before, or what a measurement that
/// completed during the call left.
fn d0_ram(d0: &Dev, d: &Dev) -> Dev {
    if d.published != d0.published {
        d.clone()
    } else {
        d0.clone()
    }
}

fn show(t: &Tx) -> String {
    if t.write {
        format!("a write of {:#06x} to {:#06x}", t.value, t.reg)
    } else {
        format!("a read of {} bytes at {:#06x}", t.len, t.reg)
    }
}

/// Whether an operation may write this word.  The flag of the error tells whether the call may not
/// write to that register at all.
fn legal_write(op: Op, d: &Dev, t: &Tx) -> Result<(), (String, bool)> {
    let cur = match t.reg {
        STATUS => d.status,
        CONTROL => d.control,
        _ => return Err((format!("{} ", show(t)), true)),
    };
    let mut after = d.clone();
    after.follow(t.reg, Some(t.value));
    let new = if t.reg == STATUS { after.status } else { after.control };
    let (reg, want) = match op {
        Op::ResetData | Op::IfReady => (STATUS, cur & !ST_NEW),
        Op::Sync => (STATUS, cur & !ST_NEW | ST_OVR | ST_START),
        _ => match (value(op), place(op)) {
            (Some(v), Some((r, s, w))) => (r, cur & !(((1 << w) - 1) << s) | v << s),
            _ => return Err((format!("{} by a call that changes nothing", show(t)), true)),
        },
    };
    if reg != t.reg {
        return Err((format!("{} by {op:?}", show(t)), true));
    }
    if new != want {
        return Err((format!("{} changes the register from {cur:#06x} to {new:#06x} instead of {want:#06x}", show(t)), false));
    }
    Ok(())
}

pub struct Config<'a> {
    pub oracle: &'a Oracle,
    pub acts: Vec<Act>,
    /// For which calls, and with which kinds of faults, every transaction is made to fail.
    pub faults: Vec<(Op, Vec<Fault>)>,
    /// Whether writes of the control register that take effect but are reported as failed are explored.
    pub partial_writes: bool,
    pub depth: usize,
    pub max_states: usize,
    pub tags: Vec<Tag>,
    /// Extra check of every new state and of the step that led to it.
    pub visit: Option<&'a (dyn Fn(&Node, &Step) -> Result<(), String> + Sync)>,
    /// Whether states are merged (drivers must have a complete fingerprint).
    pub merge: bool,
    pub name: String,
}

pub fn key(n: &Node) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    n.drv.fingerprint().hash(&mut h);
    n.world.devs[0].hash_into(&mut h);
    n.world.devs[0].published.min(1).hash(&mut h);
    let s = n.spec;
    (s.last, s.em.to_bits(), s.tr.map(f32::to_bits), s.amb).hash(&mut h);
    h.finish()
}

/// Breadth-first search.  Returns whether the whole state space was covered below the depth bound.
pub fn bfs(ctx: &Ctx, cfg: &Config, start: Vec<Node>) -> bool {
    let mut seen: HashSet<u64> = HashSet::new();
    let mut frontier: Vec<Node> = vec![];
    for n in start {
        if !cfg.merge || seen.insert(key(&n)) {
            frontier.push(n);
        }
    }
    let mut total = frontier.len();
    let mut complete = false;
    let mut depth = 0;
    while depth < cfg.depth {
        let out: Vec<Mutex<Vec<(u64, Act)>>> = frontier.iter().map(|_| Mutex::new(vec![])).collect();
        let last = depth + 1 == cfg.depth;
        par(ctx, frontier.len(), |j| {
            let n = &frontier[j];
            let mut res = vec![];
            let mut steps = 0;
            let mut go = |act: Act| -> Vec<Tx> {
                let s = cfg.oracle.exec(n, act);
                steps += 1;
                let mut failed = false;
                for (t, what) in &s.bad {
                    failed = true;
                    if *t == Tag::Crash || cfg.tags.contains(t) {
                        ctx.fail(format!("{}: {} | {what}", cfg.name, trace(&s.node.path)));
                    }
                }
                if !failed {
                    if let Some(v) = cfg.visit {
                        if let Err(e) = v(n, &s) {
                            ctx.fail(format!("{}: {} | {e}", cfg.name, trace(&s.node.path)));
                            failed = true;
                        }
                    }
                }
                if !failed && !last {
                    let k = if cfg.merge { key(&s.node) } else { 0 };
                    if !cfg.merge || !seen.contains(&k) && !res.iter().any(|(x, _)| *x == k) {
                        res.push((k, act));
                    }
                }
                s.log
            };
            for a in &cfg.acts {
                let log = go(*a);
                if let Act::Call(op) = a {
                    if let Some((_, kinds)) = cfg.faults.iter().find(|(o, _)| o == op) {
                        for (k, t) in log.iter().enumerate() {
                            for f in kinds {
                                if *f == Fault::Partial && t.write && t.reg == CONTROL && !cfg.partial_writes {
                                    continue;
                                }
                                go(Act::Fault(*op, k, *f));
                            }
                        }
                    }
                }
            }
            ctx.tr(steps);
            ctx.tv(steps);
            *out[j].lock().unwrap() = res;
        });
        if ctx.stopped() {
            return false;
        }
        depth += 1;
        // Nodes are made anew for the states that turned out to be new, to save memory.
        let mut picks = vec![];
        for (j, o) in out.into_iter().enumerate() {
            for (k, a) in o.into_inner().unwrap() {
                if (!cfg.merge || seen.insert(k)) && total < cfg.max_states {
                    total += 1;
                    picks.push((j, a));
                }
            }
        }
        let made: Vec<Mutex<Option<Node>>> = picks.iter().map(|_| Mutex::new(None)).collect();
        par(ctx, picks.len(), |i| {
            let (j, a) = picks[i];
            *made[i].lock().unwrap() = Some(cfg.oracle.exec(&frontier[j], a).node);
        });
        if ctx.stopped() {
            return false;
        }
        let next: Vec<Node> = made.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect();
        ctx.max("depth", depth as u64);
        if let Some(n) = next.last() {
            if depth + 2 >= cfg.depth || next.len() < 3 {
                ctx.sample(format!("{}: {} (as specified)", cfg.name, trace(&n.path)));
            }
        }
        if next.is_empty() {
            complete = !last && total < cfg.max_states;
            break;
        }
        if total >= cfg.max_states {
            ctx.bound(format!("{}: stopped adding states at the cap of {} states", cfg.name, cfg.max_states));
        }
        frontier = next;
    }
    ctx.st(total as u64);
    if complete {
        ctx.count("searches_that_reached_a_fixpoint", 1);
    }
    complete
}

/// Long histories: every action, and every pair of actions, repeated many times (bus faults at the
/// first and at the last transaction of a call are actions, too).  Every step is compared with the
/// specification; `cfg.visit` looks at the last steps.
pub fn longrun(ctx: &Ctx, cfg: &Config, starts: &[Node], pairs: usize, single: usize) {
    let mut jobs = vec![];
    for n in starts {
        let mut acts = cfg.acts.clone();
        for (op, kinds) in &cfg.faults {
            let log = cfg.oracle.exec(n, Act::Call(*op)).log;
            let mut at = vec![0, log.len().saturating_sub(1)];
            at.dedup();
            for k in at {
                if kinds.contains(&Fault::Fail) && !log.is_empty() {
                    acts.push(Act::Fault(*op, k, Fault::Fail));
                }
            }
        }
        for (i, a) in acts.iter().enumerate() {
            for (j, b) in acts.iter().enumerate() {
                if i != j {
                    jobs.push((n, *a, *b, pairs));
                }
            }
            jobs.push((n, *a, *a, single));
        }
    }
    par(ctx, jobs.len(), |j| {
        let (start, a, b, times) = jobs[j];
        let mut n = start.clone();
        let mut steps = 0;
        for i in 0..times {
            for act in [a, b] {
                n.path.clear();
                let s = cfg.oracle.exec(&n, act);
                steps += 1;
                let e = s
                    .bad
                    .iter()
                    .find(|b| b.0 == Tag::Crash || cfg.tags.contains(&b.0))
                    .map(|b| b.1.clone())
                    .or_else(|| if i + 1 == times { cfg.visit.and_then(|v| v(&n, &s).err()) } else { None });
                if let Some(e) = e {
                    return ctx.fail(format!("{}: {} x ({}): {e}", cfg.name, i + 1, trace(&[a, b])));
                }
                n = s.node;
            }
            if i % 256 == 0 && ctx.stopped() {
                return;
            }
        }
        ctx.tr(steps);
        ctx.tv(steps);
        ctx.st(1);
    });
    ctx.count("long_histories", jobs.len() as u64);
}

/// Every cycle of a length out of some actions, gone through many times.
pub fn cycles(ctx: &Ctx, cfg: &Config, start: &Node, acts: &[Act], len: u32, times: usize) {
    let k = acts.len();
    par(ctx, k.pow(len), |j| {
        let cycle: Vec<Act> = (0..len).map(|i| acts[j / k.pow(i) % k]).collect();
        // One action again and again, or two in turn, is what longrun does.
        if len > 2 && len % 2 == 0 && cycle[2..] == cycle[..len as usize - 2] {
            return;
        }
        let mut n = start.clone();
        for i in 0..times {
            for act in &cycle {
                n.path.clear();
                let s = cfg.oracle.exec(&n, *act);
                if let Some(b) = s.bad.iter().find(|b| b.0 == Tag::Crash || cfg.tags.contains(&b.0)) {
                    return ctx.fail(format!("{}: {} x ({}): {}", cfg.name, i + 1, trace(&cycle), b.1));
                }
                n = s.node;
            }
            if i % 16 == 0 && ctx.stopped() {
                return;
            }
        }
        ctx.st(1);
        ctx.tr(times as u64 * len as u64);
        ctx.tv(times as u64 * len as u64);
    });
    ctx.count("long_cycles", k.pow(len) as u64);
}

/// Calls that leave everything as their first execution left it, repeated millions of times: the next one
/// and what follows is what the specification says.
pub fn endure(ctx: &Ctx, o: &Oracle, start: &Node, name: &str, tags: &[Tag], ops: &[Op], after: &[Act]) {
    let times: usize = if ctx.thorough { 40_000_000 } else { 2_000_000 };
    par(ctx, ops.len(), |j| {
        let op = ops[j];
        let mut n = start.clone();
        let mut acts = vec![Act::Call(op), Act::Call(op)];
        acts.extend(after);
        for (i, act) in acts.iter().enumerate() {
            n.path.clear();
            let s = o.exec(&n, *act);
            if let Some(b) = s.bad.iter().find(|b| b.0 == Tag::Crash || tags.contains(&b.0)) {
                return ctx.fail(format!("{name}: {op:?} {} times, {} | {}", if i > 0 { times } else { 0 }, trace(&acts[1..=i.max(1)]), b.1));
            }
            n = s.node;
            if i == 0 {
                let mut w = n.world.clone();
                (w.log_on, w.words_on, w.ntx, w.horizon) = (false, false, 0, usize::MAX);
                install(w);
                let r = guard(|| {
                    let first = n.drv.q(op);
                    (1..times).find(|_| n.drv.q(op) != first)
                });
                let mut w = take();
                (w.log_on, w.words_on, w.ntx, w.horizon) = (n.world.log_on, n.world.words_on, 0, n.world.horizon);
                n.world = w;
                if r != Ok(None) {
                    return ctx.fail(format!("{name}: {op:?} again and again: another result after {r:?} times"));
                }
                ctx.tr(times as u64);
                ctx.tv(times as u64);
            }
        }
        ctx.st(1);
    });
    ctx.bound(format!("{name}: each of {} calls {times} times, then {} further calls and events", ops.len(), after.len()));
    ctx.count("endurance_runs", ops.len() as u64);
}

/// Every content of the control register, found at construction or noticed later: what a program does
/// is what the specification says.
pub fn controls(ctx: &Ctx, o: &Oracle, name: &str, tags: &[Tag], programs: &[&[Act]]) {
    let m = o.model;
    let every = if ctx.thorough { 1 } else { 3 };
    par(ctx, 256, |j| {
        for lo in 0..256u16 {
            let c = (j as u16) << 8 | lo;
            // In the quick tier the reserved bits only follow some of the others.
            if c & 0xE060 != 0 && mix(c as u64) % every != 0 {
                continue;
            }
            for late in [false, true] {
                let mut d = camera(m, 1, 2);
                if !late {
                    d.control = c;
                }
                d.status &= !0xF;
                let mut n = match o.start(d) {
                    Ok(n) => n,
                    Err(e) => return ctx.fail(e),
                };
                if late {
                    for a in [Act::Env(Event::SetControl(c)), Act::Call(Op::GetRate)] {
                        n = o.exec(&n, a).node;
                    }
                }
                let prog = programs[(c as usize + late as usize + (c >> 8) as usize) % programs.len()];
                for act in prog {
                    let s = o.exec(&n, *act);
                    if let Some(b) = s.bad.iter().find(|b| b.0 == Tag::Crash || tags.contains(&b.0)) {
                        return ctx.fail(format!(
                            "{} {name}: control register {c:#06x} {}: {} | {}",
                            m.name(),
                            if late { "noticed later" } else { "found at construction" },
                            trace(&s.node.path),
                            b.1
                        ));
                    }
                    n = s.node;
                }
                ctx.st(1);
                ctx.tr(prog.len() as u64);
                ctx.tv(1);
            }
            if ctx.stopped() {
                return;
            }
        }
    });
}

pub fn trace(p: &[Act]) -> String {
    p.iter()
        .map(|a| match a {
            Act::Call(o) => format!("{o:?}"),
            Act::Fault(o, k, f) => format!("{o:?}[bus {f:?} at {k}]"),
            Act::Env(e) => format!("<{e:?}>"),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// A camera with two recorded frames that answers measurement requests.
pub fn camera(m: Model, pat: u8, res: u8) -> Dev {
    let mut d = dev(m, &base_ee(m));
    d.frames = Arc::new((0..3).map(|k| Frame { ram: frame_ram(m, k) }).chain(odd_frames(m)).collect());
    d.on_start = Some((1, 1, 1));
    set_control(&mut d, pat, res);
    d
}

/// Compare the driver of a node with a freshly constructed one, call by call.
pub fn battery(o: &Oracle, n: &Node, ops: &[Op]) -> Result<(), String> {
    let (f, fw) = o.fresh_for(n)?;
    for op in ops {
        let mut w = n.world.clone();
        w.ntx = 0;
        w.log_on = false;
        if op.is_image() {
            let len = o.model.pixels();
            let (a, _, wa) = image(&n.drv, &w, *op, len)?;
            let (b, _, wb) = image(&f, &fw, *op, len)?;
            let (mut a, mut b) = (a, b);
            if a.ret.is_err() || a.ret == Ret::Bool(false) {
                a.ambient = None;
                b.ambient = None;
            }
            same_img(&a, &b).map_err(|e| format!("then {op:?} differs from a fresh driver: {e}"))?;
            same_dev(&wa, &wb).map_err(|e| format!("then {op:?} differs from a fresh driver: {e}"))?;
        } else {
            let one = |d: &Drv, w: &World| {
                let mut d = d.clone();
                install(w.clone());
                let r = guard(|| d.q(*op));
                let w = take();
                r.map(|r| (r, w))
            };
            let (a, wa) = one(&n.drv, &w)?;
            let (b, wb) = one(&f, &fw)?;
            if a != b && *op != Op::Ambient {
                return Err(format!("then {op:?} returns {a:?}, with a fresh driver {b:?}"));
            }
            same_dev(&wa, &wb).map_err(|e| format!("then {op:?} differs from a fresh driver: {e}"))?;
        }
    }
    Ok(())
}
fn same_dev(a: &World, b: &World) -> Result<(), String> {
    let (a, b) = (&a.devs[0], &b.devs[0]);
    if (a.status, a.control, a.i2creg) != (b.status, b.control, b.i2creg) {
        return Err(format!(
            "the camera is left with status {:#06x} control {:#06x} instead of {:#06x} {:#06x}",
            a.status, a.control, b.status, b.control
        ));
    }
    Ok(())
}
