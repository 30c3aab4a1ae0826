//! C24: the std and libm builds compute the same results.
use crate::ctx::{par, Ctx};
use crate::twin::{jobs, serve, Val};
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::Mutex;

/// The checks that the libm build has to pass as well, in the quick tier.
const QUICK: [&str; 11] = ["C01", "C02", "C07", "C08", "C10", "C11", "C12", "C16", "C17", "C06", "C04"];

pub fn run(ctx: &Ctx) {
    if std::env::args().any(|a| a == "--serve") {
        serve(ctx.thorough);
        std::process::exit(0);
    }
    ctx.bound("(1) a freestanding library around the libm build is compiled (no standard library may be linked); (2) both builds decode every EEPROM of the collection with each header word varied, buffers of all lengths and corrupted words, and process images for every calibration x pattern x resolution x subpage x settings over the range of the pixel words, of the shared words and all combinations of extremes of the shared words, and every call with every transaction failing, and call the exported calculation functions on grids that reach far beyond what a camera delivers; errors, stored elements and presence of values are identical, numbers differ by rounding only; (3) the libm build passes the checks of the other properties");
    ctx.assume("the rounding allowed between the builds is twice the running error bound of C03, for decoded values 16 roundings");
    let env = |k: &str| std::env::var(k).unwrap_or_default();
    match env("VERIF_NOSTD").as_str() {
        "ok" => ctx.count("freestanding_builds", 1),
        log => return ctx.fail(format!("the crate does not build without the standard library: {}", tail(log))),
    }
    let libm = env("VERIF_LIBM");
    if !std::path::Path::new(&libm).is_file() {
        return ctx.fail(format!("the libm build does not compile: {}", tail(&libm)));
    }
    twin(ctx, &libm);
    let list: Vec<&str> = match ctx.thorough {
        false => QUICK.to_vec(),
        true => super::ALL.iter().map(|x| x.0).filter(|x| *x != "C24").collect(),
    };
    for id in list {
        let (code, out) = other(&libm, id);
        ctx.tv(1);
        ctx.count("checks_run_on_the_libm_build", 1);
        if code == 0 {
            continue;
        }
        // A defect that both builds have is not a difference between them.
        let me = std::env::current_exe().unwrap();
        if code == 1 && other(me.to_str().unwrap(), id).0 == 1 {
            continue;
        }
        if code != 1 {
            eprintln!("internal error: {id} on the libm build ended with {code}: {out}");
            std::process::exit(2);
        }
        ctx.fail(format!("the libm build violates {id} and the std build does not: {}", out.lines().nth(2).unwrap_or("")));
    }
}

fn tail(log: &str) -> String {
    let t = std::fs::read_to_string(log.strip_prefix("log:").unwrap_or("")).unwrap_or_default();
    t.lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join("; ")
}

/// Run a check of one of the builds, its evidence out of the way.
fn other(exe: &str, id: &str) -> (i32, String) {
    let dir = std::env::temp_dir().join(format!("mc-{}-{id}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let o = Command::new(exe).arg(id).env("VERIF_EVIDENCE", &dir).env("VERIF_TIER", "quick").output();
    let _ = std::fs::remove_dir_all(&dir);
    match o {
        Ok(o) => (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into_owned()),
        Err(e) => (-1, e.to_string()),
    }
}

fn twin(ctx: &Ctx, libm: &str) {
    let js = jobs(ctx.thorough);
    let mut child = Command::new(libm)
        .args(["C24", "--serve"])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("the libm build starts");
    let pipe = Mutex::new((std::io::BufReader::new(child.stdout.take().unwrap()), 0usize));
    // Jobs arrive in any order; each worker takes the next one that arrives and evaluates it.
    par(ctx, js.len(), |_| {
        let (j, theirs) = {
            let mut p = pipe.lock().unwrap();
            let mut h = [0u8; 16];
            if p.0.read_exact(&mut h).is_err() {
                eprintln!("internal error: the libm process ended early");
                std::process::exit(2);
            }
            let j = u64::from_le_bytes(h[..8].try_into().unwrap()) as usize;
            let mut b = vec![0; u64::from_le_bytes(h[8..].try_into().unwrap()) as usize];
            if p.0.read_exact(&mut b).is_err() {
                std::process::exit(2);
            }
            p.1 += 1;
            (j, b)
        };
        let mut pos = 0;
        let mut failed = false;
        let (mut n, mut nums, mut exact) = (0, 0, 0);
        js[j].run(&mut |what, mine| {
            n += 1;
            if failed {
                return;
            }
            let mut bad = |d: String| {
                failed = true;
                ctx.fail(format!("{}, {what}: {d}", js[j].name));
            };
            let mut take = |k: usize| {
                let s = theirs.get(pos..pos + k).map(|s| s.to_vec()).unwrap_or(vec![0xEE; k]);
                pos += k;
                s
            };
            let len = u32::from_le_bytes(take(4).try_into().unwrap()) as usize;
            let mut vals = vec![];
            for _ in 0..len.min(1 << 20) {
                vals.push(match take(1)[0] {
                    0 => Val::Same(u64::from_le_bytes(take(8).try_into().unwrap())),
                    _ => Val::Near(f32::from_bits(u32::from_le_bytes(take(4).try_into().unwrap())), 0.0),
                });
            }
            if len != mine.len() {
                return bad(format!("{} values in the std build, {len} in the libm build", mine.len()));
            }
            for (i, (a, b)) in mine.iter().zip(&vals).enumerate() {
                match (a, b) {
                    (Val::Same(x), Val::Same(y)) if x == y => {}
                    (Val::Near(x, tol), Val::Near(y, _)) => {
                        nums += 1;
                        exact += (x.to_bits() == y.to_bits()) as u64;
                        let (dx, dy) = (*x as f64, *y as f64);
                        let ok = x == y || x.is_nan() && y.is_nan() || !tol.is_finite() || (dx - dy).abs() <= *tol;
                        if !ok {
                            return bad(format!("value {i} is {x} in the std build, {y} in the libm build (tolerance {tol:e})"));
                        }
                    }
                    _ => return bad(format!("value {i} is {a:?} in the std build, {b:?} in the libm build")),
                }
            }
        });
        ctx.st(n);
        ctx.tr(2 * n);
        ctx.tv(n);
        ctx.count("numbers_compared", nums);
        ctx.count("numbers_identical", exact);
        if j % 101 == 0 {
            ctx.sample(format!("{}: {n} inputs, {nums} numbers", js[j].name));
        }
    });
    let _ = child.kill();
    let _ = child.wait();
}
