//! The inputs that C24 evaluates in two builds of the crate, and what they give.
use crate::cal::{self, Cal};
use crate::checks::c03::{apply, effective, rigs, SETTINGS};
use crate::ctx::guard;
use crate::dev::*;
use crate::drv::*;
use crate::num::{self, Ev};
use crate::util::*;
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::mlx90641::Mlx90641Calibration;
use mlx9064x::LibraryError;
use std::sync::Arc;

/// One value of a result: numbers have to be close, everything else the same.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
    Same(u64),
    /// A number and the difference that rounding can explain.
    Near(f32, f64),
}

pub struct Job {
    pub name: String,
    run: Box<dyn Fn(&mut dyn FnMut(&str, Vec<Val>)) + Send + Sync>,
}
impl Job {
    /// Report every result of the job together with the input that gave it.
    pub fn run(&self, f: &mut dyn FnMut(&str, Vec<Val>)) {
        (self.run)(f)
    }
}

fn text(s: &str) -> Val {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    Val::Same(h)
}
fn ret(r: &Ret) -> Val {
    text(&format!("{r:?}"))
}
fn near(x: f64) -> Val {
    // A decoded value is a few operations away from integers.
    Val::Near(x as f32, 16.0 * 6e-8 * x.abs() + 1e-35)
}
/// A computed number.  Where the formula has no value, neither build may deliver one.
fn val(got: f32, e: Ev) -> Val {
    Val::Near(got, if e.v.is_nan() { 0.0 } else { 2.0 * e.e })
}
fn near_opt(x: Option<f64>, v: &mut Vec<Val>) {
    v.push(Val::Same(x.is_some() as u64));
    if let Some(x) = x {
        v.push(near(x));
    }
}
fn cal_vals(c: &Cal, pixels: bool) -> Vec<Val> {
    let mut v = vec![Val::Same(c.res as u64), text(&format!("{:?} {:?}", c.failed, c.outlier))];
    v.push(Val::Same(c.failed_any as u64 | (c.outlier_any as u64) << 1));
    v.extend([
        c.k_v_dd, c.v_dd_25, c.v_dd_0, c.k_v_ptat, c.k_t_ptat, c.v_ptat_25, c.alpha_ptat, c.gain, c.k_s_ta,
    ].map(near));
    for l in [&c.ct, &c.k_s_to, &c.alpha_corr] {
        v.push(Val::Same(l.len() as u64));
        v.extend(l.iter().map(|x| near(*x)));
    }
    near_opt(c.emissivity, &mut v);
    near_opt(c.tgc, &mut v);
    for a in [c.offset_cp, c.alpha_cp, c.kv_cp, c.kta_cp] {
        v.extend(a.map(near));
    }
    for a in c.il_cp.iter().flatten() {
        near_opt(*a, &mut v);
    }
    if pixels {
        for s in 0..2 {
            for l in [&c.offset[s], &c.alpha[s], &c.kv[s], &c.kta[s]] {
                v.push(Val::Same(l.len() as u64));
                v.extend(l.iter().map(|x| near(*x)));
            }
            for x in &c.il[s] {
                near_opt(*x, &mut v);
            }
        }
    }
    v
}
fn decode(m: Model, b: &[u8], pixels: bool) -> Vec<Val> {
    let r = guard(|| -> Result<Cal, LibraryError> {
        Ok(match m {
            Model::M640 => cal::extract(m, &Mlx90640Calibration::from_data(b)?),
            Model::M641 => cal::extract(m, &Mlx90641Calibration::from_data(b)?),
        })
    });
    match r {
        Err(_) => vec![Val::Same(1)],
        Ok(Err(e)) => vec![Val::Same(2), ret(&lib_ret(&e))],
        Ok(Ok(c)) => cal_vals(&c, pixels),
    }
}

pub fn jobs(thorough: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    // Decoding: every EEPROM of the collection, each header word varied.
    for m in Model::BOTH {
        let list: Vec<(&'static str, Vec<u16>)> = match m {
            Model::M640 => crate::checks::c05::backgrounds(),
            Model::M641 => crate::checks::c06::backgrounds()
                .into_iter()
                .map(|(n, e)| (n, e.into_iter().map(ham).collect()))
                .collect(),
        };
        for (bi, (name, ee)) in list.into_iter().enumerate() {
            for w in 0x10..0x40usize {
                let ee = ee.clone();
                let step = if thorough { 1 } else if m == Model::M640 { 64 } else { 8 };
                if !thorough && bi > 2 && (bi + w) % 3 > 0 {
                    continue;
                }
                v.push(Job {
                    name: format!("{} calibration, EEPROM '{name}', word {w:#04x}", m.name()),
                    run: Box::new(move |f| {
                        let mut e = ee.clone();
                        let n = if m == Model::M640 { 65536 } else { 2048 };
                        let first = (w * 7 + bi) % step;
                        for x in (first..n).step_by(step) {
                            e[w] = if m == Model::M640 { x as u16 } else { ham(x as u16) };
                            f(&format!("{:#06x}", e[w]), decode(m, &bytes(&e), x / step % 8 == 0));
                        }
                    }),
                });
            }
        }
        // Buffers of all lengths and single corrupted words.
        v.push(Job {
            name: format!("{} calibration buffers", m.name()),
            run: Box::new(move |f| {
                let b = bytes(&base_ee(m));
                for n in 0..=b.len() {
                    f(&format!("length {n}"), decode(m, &b[..n], false));
                }
                for n in (1..=9).chain([63, 64, 512, 831, 832, 1663, 1664, 1665, 4095, 63872, 65536]) {
                    for fill in [0u8, 0xFF, 0x5A] {
                        let mut b = b.clone();
                        b.resize(b.len() + n, fill);
                        f(&format!("{n} bytes {fill:#04x} beyond the EEPROM"), decode(m, &b, true));
                    }
                }
                for w in 0..832 {
                    for x in [0u16, 0xFFFF, 0x0003, 0x8001] {
                        let mut e = base_ee(m).to_vec();
                        e[w] ^= x;
                        f(&format!("word {w:#05x} ^ {x:#06x}"), decode(m, &bytes(&e), false));
                    }
                }
            }),
        });
        // Images.
        for pat in 0..2u8 {
            for res in 0..4u8 {
                let Ok(Ok(list)) = guard(|| rigs(m, pat, res)) else {
                    v.push(Job {
                        name: format!("{} drivers", m.name()),
                        run: Box::new(|f| f("construction", vec![Val::Same(0)])),
                    });
                    continue;
                };
                for (i, r) in list.into_iter().enumerate() {
                    for sp in 0..2u8 {
                        for (k, set) in SETTINGS.into_iter().enumerate() {
                            if !thorough && res != 2 && (i + k + res as usize) % 4 > 0 {
                                continue;
                            }
                            let r = r.clone();
                            v.push(Job {
                                name: format!("{} pattern {pat} resolution {res} subpage {sp} settings {set:?}", r.name),
                                run: Box::new(move |f| images(&r, sp, set, k, thorough, f)),
                            });
                        }
                    }
                }
            }
        }
        // Failing transactions.
        for pat in 0..2u8 {
            v.push(Job {
                name: format!("{} bus faults, pattern {pat}", m.name()),
                run: Box::new(move |f| {
                    let Ok(r) = rig(m, "", &base_ee(m), |d| set_control(d, pat, 2)) else { return };
                    for op in Op::all() {
                        for k in 0..40 {
                            let mut w = r.world.clone();
                            w.dev().status = 0x0008 | pat as u16;
                            w.ntx = 0;
                            w.faults = vec![(k, Fault::Fail)];
                            let len = if op.is_image() { m.pixels() } else { 0 };
                            let out = match shot(&r.drv, &w, op, len) {
                                Err(_) => vec![Val::Same(1)],
                                Ok(s) => {
                                    let mut v = vec![ret(&s.ret), Val::Same(s.ambient.is_some() as u64)];
                                    for p in &s.px {
                                        v.push(Val::Same((p.to_bits() == S1.to_bits()) as u64));
                                    }
                                    v
                                }
                            };
                            f(&format!("{op:?}, transaction {k} fails"), out);
                        }
                    }
                }),
            });
        }
    }
    functions(thorough, &mut v);
    v
}

/// The exported building blocks, also far from what a camera delivers.
fn functions(thorough: bool, v: &mut Vec<Job>) {
    use mlx9064x::calculations as calc;
    let x = |v: f32| Ev::x(v as f64);
    let steps = if thorough { 4001 } else { 401 };
    const ALPHA: [f32; 8] = [1e-7, 1.4e-7, 3e-8, 1e-6, -2e-8, 1e-3, 1.0, 0.0];
    const T_AR: [f32; 9] = [7e9, 1e10, 5.6e9, 0.0, -1e9, 1e6, 81.0, f32::MAX, f32::NAN];
    const K: [f32; 9] = [0.0002, -0.0008, 0.0, 0.003, -0.003, 0.00366, 0.1, -1.0, f32::NAN];
    for (i, alpha) in ALPHA.into_iter().enumerate() {
        v.push(Job {
            name: format!("per_pixel_temperature, alpha {alpha}"),
            run: Box::new(move |f| {
                for t_ar in T_AR {
                    for k in K {
                        // The scale at which both roots change their sign.
                        let scale = (alpha * t_ar).abs();
                        let mut list: Vec<f32> = (0..steps).map(|s| scale * (s as f32 * 4.0 / steps as f32 - 2.0)).collect();
                        list.extend((0..steps).map(|s| -scale * (0.9 + 0.2 * s as f32 / steps as f32)));
                        list.extend((0..64).map(|s| (s as f32 - 32.0) * 1024.0));
                        list.extend([f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, -0.0, f32::MAX]);
                        let mut out = vec![];
                        for ir in &list {
                            let e = num::pixel_t(x(*ir), x(alpha), x(t_ar), x(k));
                            match guard(|| calc::per_pixel_temperature(*ir, alpha, t_ar, k)) {
                                Ok(t) => out.push(val(t, e)),
                                Err(_) => out.push(Val::Same(1)),
                            }
                        }
                        f(&format!("t_ar {t_ar} k_s_to {k} IR values from {}", list[0]), out);
                    }
                }
                let _ = i;
            }),
        });
    }
    v.push(Job {
        name: "t_ar".into(),
        run: Box::new(move |f| {
            for i in 0..120 {
                let t_a = i as f32 * 5.5 - 300.0;
                let mut out = vec![];
                for k in 0..240 {
                    let t_r = k as f32 * 3.25 - 300.0;
                    for em in [1.0f32, 0.99999994, 1.0000001, 0.95, 0.5, 0.01, 1.5, -0.5, 0.0, f32::NAN] {
                        let e = num::t_ar(x(t_a), x(t_r), x(em), em == 1.0);
                        out.push(match guard(|| calc::t_ar(t_a, t_r, em)) {
                            Ok(t) => val(t, e),
                            Err(_) => Val::Same(1),
                        });
                    }
                }
                f(&format!("ambient temperature {t_a}"), out);
            }
        }),
    });
    for m in Model::BOTH {
        v.push(Job {
            name: format!("{} functions of RAM words", m.name()),
            run: Box::new(move |f| {
                let t = user_tables(m);
                let clb = cal::UserCal::<0>(Arc::new(t.clone()));
                for a in (0..65536usize).step_by(if thorough { 7 } else { 97 }) {
                    let a = a as u16 as i16;
                    let mut out = vec![];
                    let r = guard(|| {
                        let dv = calc::delta_v(&clb, a);
                        out.push(val(dv, (x(a as f32) - x(t.v_dd_25 as f32)) / x(t.k_v_dd as f32)));
                        for b in [0i16, 1, -1, 1711, 12273, -12273, i16::MIN, i16::MAX] {
                            let p = calc::v_ptat_art(&clb, a, b);
                            let e = x(a as f32) / (x(a as f32) * x(t.alpha_ptat) + x(b as f32)) * Ev::x(262144.0);
                            out.push(val(p, e));
                        }
                        for px in [0i16, 1, -1, 609, i16::MIN, i16::MAX] {
                            let c = calc::CommonIrData { gain: a as f32 / 6000.0, v_dd: 3.3 + a as f32 / 1e5, emissivity: 0.95, t_a: a as f32 / 500.0 };
                            let g = calc::per_pixel_v_ir(px, &c, -69, 0.5, 0.00457, None);
                            let one = Ev::x(1.0);
                            let e = (Ev::x(px as f64) * x(c.gain)
                                - Ev::x(-69.0) * (one + x(0.00457) * (x(c.t_a) - Ev::x(25.0))) * (one + x(0.5) * (x(c.v_dd) - Ev::c(3.3))))
                                / x(0.95);
                            out.push(val(g, e));
                        }
                    });
                    if r.is_err() {
                        out.push(Val::Same(1));
                    }
                    f(&format!("word {a}"), out);
                }
            }),
        });
    }
}

/// Pixel words over their whole range, then each shared word and combinations of their extremes.
fn images(r: &Rig, sp: u8, set: (Option<f32>, Option<f32>), k: usize, thorough: bool, f: &mut dyn FnMut(&str, Vec<Val>)) {
    let m = r.model;
    let mut drv = r.drv.clone();
    apply(&mut drv, set);
    let mut w = World { horizon: usize::MAX, ..r.world.clone() };
    let shared = [m.vbe(), m.ptat(), m.vdd(), m.gain(), m.cp(sp)];
    let typ = shared.map(|a| r.world.devs[0].word(a));
    let frames = if thorough { 1024 } else { 24 };
    let own: Vec<bool> = (0..m.pixels()).map(|p| m.in_subpage(r.world.devs[0].pattern(), sp, p)).collect();
    let mut go = |w: &mut World, what: &str, len: usize, op: Op, f: &mut dyn FnMut(&str, Vec<Val>)| {
        let d = w.devs[0].clone();
        let c = num::common(&r.cal, &ram_of(&d, sp), d.resolution(), effective(&r.cal, set), set.1, sp, d.pattern());
        let out = match shot_mut(&mut drv, std::mem::take(w), op, len) {
            Err(_) => vec![Val::Same(1)],
            Ok((s, w2)) => {
                *w = w2;
                let mut v = vec![ret(&s.ret), Val::Same(s.ambient.is_some() as u64)];
                if let Some(a) = s.ambient {
                    v.push(val(a, c.t_a));
                }
                for (p, x) in s.px.iter().enumerate() {
                    let stored = x.to_bits() != S1.to_bits();
                    v.push(Val::Same(stored as u64));
                    if stored && own.get(p) == Some(&true) {
                        let px = d.word(m.pixel_addr(sp, p)) as i16;
                        let mut e = num::pixel_ir(&r.cal, &c, p, px);
                        if !matches!(op, Op::Raw(_)) {
                            e = num::pixel_temp(&r.cal, &c, p, e);
                        }
                        v.push(val(*x, e));
                    }
                }
                v
            }
        };
        f(what, out);
    };
    for i in 0..frames {
        let base = (i * (65536 / frames) + k * 17) as u16;
        for x in 0..m.ram_words() {
            let a = RAM_BASE + x as u16;
            if x < m.pixels() * if m == Model::M640 { 1 } else { 2 } && !shared.contains(&a) {
                w.dev().ram[x] = base.wrapping_add((x as u16).wrapping_mul(40503));
            }
        }
        for op in [Op::Raw(sp), Op::Temp(sp)] {
            go(&mut w, &format!("{op:?} with frame {base:#06x}"), m.pixels(), op, f);
        }
    }
    let step = if thorough { 16 } else { 2048 };
    for (j, a) in shared.into_iter().enumerate() {
        for x in (k..65536).step_by(step) {
            w.dev().set_word(a, x as u16);
            let op = if x / step & 1 == 0 { Op::Raw(sp) } else { Op::Temp(sp) };
            go(&mut w, &format!("{op:?} with word {a:#06x} = {x:#06x}"), 36, op, f);
        }
        w.dev().set_word(a, typ[j]);
    }
    for i in 0..243usize {
        let mut x = i;
        for (j, a) in shared.into_iter().enumerate() {
            let v = [0, typ[j], 0x8000][x % 3];
            x /= 3;
            w.dev().set_word(a, v);
        }
        go(&mut w, &format!("extremes {i}"), 6, Op::Temp(sp), f);
    }
}

/// Write the results of all jobs, in order: the counterpart of `read`.
pub fn serve(thorough: bool) {
    use std::io::Write;
    let js = Arc::new(jobs(thorough));
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let next = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let (tx, rx) = std::sync::mpsc::sync_channel::<(usize, Vec<u8>)>(2 * n);
    for _ in 0..n {
        let (js, next, tx) = (js.clone(), next.clone(), tx.clone());
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || loop {
                let j = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if j >= js.len() {
                    break;
                }
                let mut b = vec![];
                js[j].run(&mut |_, v| {
                    b.extend((v.len() as u32).to_le_bytes());
                    for x in v {
                        match x {
                            Val::Same(n) => {
                                b.push(0);
                                b.extend(n.to_le_bytes());
                            }
                            Val::Near(x, _) => {
                                b.push(1);
                                b.extend(x.to_bits().to_le_bytes());
                            }
                        }
                    }
                });
                if tx.send((j, b)).is_err() {
                    break;
                }
            })
            .unwrap();
    }
    drop(tx);
    let out = std::io::stdout();
    let mut out = out.lock();
    while let Ok((j, b)) = rx.recv() {
        let ok = out.write_all(&(j as u64).to_le_bytes()).is_ok()
            && out.write_all(&(b.len() as u64).to_le_bytes()).is_ok()
            && out.write_all(&b).is_ok();
        if !ok {
            std::process::exit(3);
        }
    }
    let _ = out.flush();
}
