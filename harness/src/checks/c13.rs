//! C13: frames are processed with the settings the camera was last known to use.
use crate::ctx::Ctx;
use crate::dev::*;
use crate::drv::*;
use crate::explore::*;
use crate::checks::c18::formulas;
use crate::util::*;

pub fn run(ctx: &Ctx) {
    ctx.bound("explicit-state search over the real driver and the camera: {both models} x {user-defined calibration with state merging, the camera's own calibration by sequences}; alphabet: 2 image calls per subpage, polling, status-driven image, raw image, every getter, setters of pattern and resolution (every value) and of every other field, synchronize, external changes of the control register (pattern x resolution), a new frame; every transaction of every call that touches the control register, and of the image calls, failing without effect, after half of a read, or (writes) after taking effect; every action and every pair of actions (also failing at the first or the last transaction) repeated 300 times; for every calibrated resolution and every pattern and resolution at the start, all sequences of 3 (thorough: 5) image calls, settings and external changes, with the images compared with the documented formulas for the settings last known; every cycle of 3 (thorough: 4) out of ten or eleven actions 100 times");
    ctx.assume("'last known' is defined by the transactions that succeeded on the simulated bus; a write reported as failed does not count even when the camera accepted it");
    let ex = |pat: u16, res: u16| Act::Env(Event::SetControl(0x0901 & !0x1C00 | pat << 12 | res << 10));
    for m in Model::BOTH {
        let d = m.default_control() >> 10 & 3;
        let mut acts: Vec<Act> = [
            Op::Temp(0),
            Op::Temp(1),
            Op::Raw(1),
            Op::IfReady,
            Op::Image,
            Op::GetRate,
            Op::GetPat,
            Op::GetRes,
            Op::DataAvailable,
            Op::SetPat(0),
            Op::SetPat(1),
            Op::SetRes(0),
            Op::SetRes(1),
            Op::SetRes(2),
            Op::SetRes(3),
            Op::SetRate(7),
            Op::SetHold(true),
            Op::SetOverwrite(true),
            Op::GetSubpages,
            Op::GetHold,
            Op::GetRepeat,
            Op::GetSel,
            Op::GetOverwrite,
            Op::LastSubpage,
            Op::SetSubpages(false),
            Op::SetRepeat(true),
            Op::SetSel(0),
            Op::SetSel(1),
            Op::ResetData,
            Op::Sync,
        ]
        .into_iter()
        .map(Act::Call)
        .collect();
        acts.push(Act::Env(Event::Publish(1, 0)));
        acts.push(Act::Env(Event::Publish(2, 1)));
        acts.extend([ex(0, d), ex(1, d), ex(0, 0), ex(1, 3)]);
        let all = vec![Fault::Fail, Fault::Partial];
        let faults: Vec<(Op, Vec<Fault>)> = acts
            .iter()
            .filter_map(|a| match a {
                Act::Call(o) if !matches!(o, Op::Temp(_) | Op::Raw(_) | Op::Image) => Some((*o, all.clone())),
                Act::Call(o) => Some((*o, vec![Fault::Partial])),
                _ => None,
            })
            .collect();
        // Faults in image calls are many (one per transaction); they are explored from every state
        // in the thorough tier, and from the first levels in the quick tier.
        let o = Oracle::user(m);
        let mut starts = vec![];
        for p in 0..2 {
            for r in [2, 0] {
                match o.start(camera(m, p, r)) {
                    Ok(n) => starts.push(n),
                    Err(e) => return ctx.fail(e),
                }
            }
        }
        let cfg = |name: &str, depth: usize, faults: Vec<(Op, Vec<Fault>)>, cap: usize| Config {
            oracle: &o,
            acts: acts.clone(),
            faults,
            partial_writes: true,
            depth,
            max_states: cap,
            tags: vec![Tag::Image],
            visit: None,
            merge: true,
            name: format!("{} {name}", m.name()),
        };
        let few: Vec<_> = faults
            .iter()
            .filter(|(o, _)| !matches!(o, Op::Temp(_) | Op::Raw(_) | Op::Image | Op::IfReady))
            .cloned()
            .collect();
        let cap = 150_000;
        let (d1, d2) = if ctx.thorough { (12, 6) } else { (5, 3) };
        bfs(ctx, &cfg("user calibration, faults in every call", d2, faults.clone(), cap), starts.clone());
        bfs(ctx, &cfg("user calibration, faults in settings", d1, few.clone(), cap), starts.clone());
        longrun(ctx, &cfg("user calibration, long histories", 0, few.clone(), cap), &starts[..1], 300, if ctx.thorough { 70_000 } else { 5000 });
        let settings = [Op::SetPat(0), Op::SetPat(1), Op::SetRes(0), Op::SetRes(3), Op::GetPat, Op::GetRes, Op::GetRate, Op::SetRate(5), Op::SetSel(1)];
        let then = [Act::Call(Op::Temp(0)), Act::Call(Op::SetPat(0)), Act::Call(Op::Raw(1)), Act::Call(Op::SetRes(1)), Act::Call(Op::Image), ex(0, 3), Act::Call(Op::Temp(1)), Act::Call(Op::GetRate), Act::Call(Op::Temp(1))];
        endure(ctx, &o, &starts[1], m.name(), &[Tag::Image], &settings, &then);
        let mut turn = [Op::SetPat(0), Op::SetPat(1), Op::SetRes(0), Op::SetRes(3), Op::IfReady, Op::Temp(0), Op::Raw(1)].map(Act::Call).to_vec();
        turn.extend([Act::Env(Event::Publish(1, 0)), Act::Env(Event::Publish(2, 1)), Act::Fault(Op::SetPat(0), 1, Fault::Fail), ex(0, 3)]);
        cycles(ctx, &cfg("user calibration, cycles", 0, vec![], cap), &starts[1], &turn, if ctx.thorough { 4 } else { 3 }, 100);
        // Every calibrated resolution; the images are those of the formulas for the settings.
        for res in 0..4 {
            let mut t = user_tables(m);
            t.res = res;
            let cal = cal_of(m, &t);
            let o = Oracle::new(m, CalKind::User(std::sync::Arc::new(t)));
            let visit = |_: &Node, s: &Step| formulas(&o, &cal, s);
            let mut small: Vec<Act> = acts.iter().filter(|a| matches!(a, Act::Call(Op::Temp(_) | Op::Raw(_) | Op::IfReady | Op::Image | Op::SetPat(_) | Op::SetRes(_) | Op::GetRate))).copied().collect();
            for r in 0..4 {
                small.push(ex(r & 1, r));
            }
            let starts: Vec<Node> = match (0..8u8).map(|k| o.start(camera(m, k & 1, k >> 1))).collect() {
                Ok(s) => s,
                Err(e) => return ctx.fail(e),
            };
            let depth = if ctx.thorough { 5 } else { 3 };
            let c = Config { oracle: &o, acts: small, visit: Some(&visit), ..cfg("", depth, few.clone(), cap) };
            bfs(ctx, &Config { name: format!("{} calibrated resolution {res}", m.name()), ..c }, starts);
        }
        // The camera's own calibration, unmerged.
        let o = Oracle::real(m);
        let starts: Vec<Node> = match (0..2).map(|p| o.start(camera(m, p, 2))).collect() {
            Ok(s) => s,
            Err(e) => return ctx.fail(e),
        };
        let c = Config { oracle: &o, merge: false, ..cfg("own calibration", 1, vec![], usize::MAX) };
        let depth = if ctx.thorough { 3 } else { 2 };
        bfs(ctx, &Config { depth, faults: few, name: format!("{} own calibration", m.name()), ..c }, starts);
    }
}
