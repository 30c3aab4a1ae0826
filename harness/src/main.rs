#![allow(dead_code)]
mod cal;
mod checks;
mod ctx;
mod dev;
mod drv;
mod explore;
mod num;
mod refdec;
mod twin;
mod util;

pub fn verif_root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| {
        concat!(env!("CARGO_MANIFEST_DIR"), "/..").to_string()
    })
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    ctx::install_hook();
    let Some((id, f)) = checks::ALL.iter().find(|(n, _)| *n == id) else {
        eprintln!("usage: mc <property id>");
        std::process::exit(2);
    };
    let c = ctx::Ctx::new(id);
    // The code under test may use deep stacks in unoptimised builds.
    let code = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                f(&c);
            })
            .unwrap()
            .join()
            .is_ok()
    });
    if !code {
        eprintln!("internal error: the check panicked");
        std::process::exit(2);
    }
    std::process::exit(c.finish());
}
