//! C11: register types decode and modify exactly their own fields.
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::util::*;
use mlx9064x::common::{FromI2C, ToI2C};
use mlx9064x::{ControlRegister, I2cRegister, StatusRegister};

/// The fields of a register value.  `i32` codes: booleans 0/1, enumerations by their documented code.
type Get<R> = (&'static str, fn(&R) -> u32, u32 /* shift */, u32 /* width */, bool /* inverted */);
type SetF<R> = (&'static str, usize /* field */, fn(&mut R, u32), u32 /* number of values */);

fn status_fields() -> (Vec<Get<StatusRegister>>, Vec<SetF<StatusRegister>>) {
    (
        vec![
            ("last_updated_subpage", |r| sp_num(r.last_updated_subpage()) as u32, 0, 1, false),
            ("new_data", |r| r.new_data() as u32, 3, 1, false),
            ("overwrite_enabled", |r| r.overwrite_enabled() as u32, 4, 1, false),
            ("start_measurement", |r| r.start_measurement() as u32, 5, 1, false),
        ],
        vec![("set_overwrite_enabled", 2, |r, v| r.set_overwrite_enabled(v == 1), 2)],
    )
}
fn control_fields() -> (Vec<Get<ControlRegister>>, Vec<SetF<ControlRegister>>) {
    (
        vec![
            ("use_subpages", |r| r.use_subpages() as u32, 0, 1, false),
            ("step_mode", |r| r.step_mode() as u32, 1, 1, false),
            ("data_hold", |r| r.data_hold() as u32, 2, 1, false),
            ("subpage_repeat", |r| r.subpage_repeat() as u32, 3, 1, false),
            ("subpage", |r| sp_num(r.subpage()) as u32, 4, 1, false),
            ("frame_rate", |r| rate_num(r.frame_rate()) as u32, 7, 3, false),
            ("resolution", |r| res_num(r.resolution()) as u32, 10, 2, false),
            ("access_pattern", |r| pat_num(r.access_pattern()) as u32, 12, 1, false),
        ],
        vec![
            ("set_use_subpages", 0, |r, v| r.set_use_subpages(v == 1), 2),
            ("set_step_mode", 1, |r, v| r.set_step_mode(v == 1), 2),
            ("set_data_hold", 2, |r, v| r.set_data_hold(v == 1), 2),
            ("set_subpage_repeat", 3, |r, v| r.set_subpage_repeat(v == 1), 2),
            ("set_subpage", 4, |r, v| r.set_subpage(sp(v as u8)), 2),
            ("set_frame_rate", 5, |r, v| r.set_frame_rate(RATES[v as usize]), 8),
            ("set_resolution", 6, |r, v| r.set_resolution(RESOLUTIONS[v as usize]), 4),
            ("set_access_pattern", 7, |r, v| r.set_access_pattern(pat(v as u8)), 2),
        ],
    )
}
fn i2c_fields() -> (Vec<Get<I2cRegister>>, Vec<SetF<I2cRegister>>) {
    (
        vec![
            ("fast_mode_plus", |r| r.fast_mode_plus() as u32, 0, 1, true),
            ("i2c_threshold_halved", |r| r.i2c_threshold_halved() as u32, 1, 1, false),
            ("sda_current_limiter", |r| r.sda_current_limiter() as u32, 2, 1, true),
        ],
        vec![
            ("set_fast_mode_plus", 0, |r, v| r.set_fast_mode_plus(v == 1), 2),
            ("set_i2c_threshold_halved", 1, |r, v| r.set_i2c_threshold_halved(v == 1), 2),
            ("set_sda_current_limiter", 2, |r, v| r.set_sda_current_limiter(v == 1), 2),
        ],
    )
}

struct Spec<R: 'static> {
    name: &'static str,
    addr: u16,
    mask: u16,
    get: Vec<Get<R>>,
    set: Vec<SetF<R>>,
}

fn word<R: Into<[u8; 2]>>(r: R) -> u16 {
    u16::from_be_bytes(r.into())
}
fn set_reg(d: &mut Dev, a: u16, v: u16) {
    match a {
        STATUS => d.status = v,
        CONTROL => d.control = v,
        _ => d.i2creg = v,
    }
}

/// All checks for one value of a register.
fn one<R>(s: &Spec<R>, v: u16) -> Result<u64, String>
where
    R: Copy
        + PartialEq
        + Into<[u8; 2]>
        + for<'a> From<&'a [u8]>
        + FromI2C<Bus, Ok = R, Error = mlx9064x::Error<Bus>>
        + ToI2C<Bus, Error = mlx9064x::Error<Bus>>,
{
    let n = s.name;
    let mut steps = 0;
    let b = v.to_be_bytes();
    let field = |v: u16, g: &Get<R>| -> u32 {
        let raw = v as u32 >> g.2 & ((1 << g.3) - 1);
        if g.4 {
            1 - raw
        } else {
            raw
        }
    };
    let with = |v: u16, g: &Get<R>, x: u32| -> u16 {
        let m = ((1u32 << g.3) - 1) << g.2;
        let x = if g.4 { 1 - x } else { x };
        (v as u32 & !m | x << g.2) as u16
    };
    // From a slice of exactly two bytes, from a longer one, and over the bus.
    for route in 0..3 {
        let r: R = match route {
            0 => R::from(&b[..]),
            1 => R::from(&[b[0], b[1], !b[0], !b[1]][..]),
            _ => {
                with_dev(|d| set_reg(d, s.addr, v));
                match R::from_i2c(&mut Bus, 0x33) {
                    Ok(r) => r,
                    Err(e) => return Err(format!("{n} {v:#06x}: reading it failed: {:?}", err_ret(&e))),
                }
            }
        };
        let how = ["a two byte slice", "a longer slice", "the bus"][route];
        if word(r) != v {
            return Err(format!("{n} {v:#06x} from {how} converts back to {:#06x}", word(r)));
        }
        for g in &s.get {
            steps += 1;
            if (g.1)(&r) != field(v, g) {
                return Err(format!("{n} {v:#06x} from {how}: {} is {} instead of {}", g.0, (g.1)(&r), field(v, g)));
            }
        }
    }
    // Writing it to the bus (to a camera whose register holds the complement).
    let r = R::from(&b[..]);
    with_dev(|d| set_reg(d, s.addr, !v));
    with_world(|w| w.log.clear());
    if let Err(e) = r.to_i2c(&mut Bus, 0x33) {
        return Err(format!("{n} {v:#06x}: writing it failed: {:?}", err_ret(&e)));
    }
    let log = with_world(|w| std::mem::take(&mut w.log));
    if log.len() != 1 || !log[0].write || log[0].reg != s.addr || log[0].value != v || log[0].len != 4 || log[0].bad.is_some() {
        return Err(format!("{n} {v:#06x}: writing it caused {log:?}"));
    }
    // Setters.
    for f in &s.set {
        for x in 0..f.3 {
            let mut q = r;
            (f.2)(&mut q, x);
            steps += 1;
            let want = with(v, &s.get[f.1], x);
            if word(q) != want {
                return Err(format!("{n} {v:#06x}: {}({x}) gives {:#06x} instead of {want:#06x}", f.0, word(q)));
            }
            for g in &s.get {
                if (g.1)(&q) != field(want, g) {
                    return Err(format!("{n} {v:#06x}: after {}({x}) {} is {}", f.0, g.0, (g.1)(&q)));
                }
            }
            // A second change of another field keeps the first.
            {
                for f2 in &s.set {
                    for x2 in 0..f2.3 {
                        let mut q2 = q;
                        (f2.2)(&mut q2, x2);
                        steps += 1;
                        let want2 = with(want, &s.get[f2.1], x2);
                        if word(q2) != want2 {
                            return Err(format!(
                                "{n} {v:#06x}: {}({x}) then {}({x2}) gives {:#06x} instead of {want2:#06x}",
                                f.0,
                                f2.0,
                                word(q2)
                            ));
                        }
                    }
                }
            }
        }
    }
    // Equality: only documented fields count.
    for bit in 0..17 {
        let o = if bit == 16 { v } else { v ^ 1 << bit };
        let q = R::from(&o.to_be_bytes()[..]);
        let want = (v ^ o) & s.mask == 0;
        steps += 1;
        if (r == q) != want || (q == r) != want || (r != q) == want {
            return Err(format!("{n}: {v:#06x} == {o:#06x} is {}", r == q));
        }
    }
    for o in [v ^ !s.mask, v & s.mask, v ^ s.mask, !v] {
        let q = R::from(&o.to_be_bytes()[..]);
        let want = (v ^ o) & s.mask == 0;
        if (r == q) != want {
            return Err(format!("{n}: {v:#06x} == {o:#06x} is {}", r == q));
        }
    }
    Ok(steps)
}
fn with_world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    with(f)
}
fn with_dev<R>(f: impl FnOnce(&mut Dev) -> R) -> R {
    with(|w| f(w.dev()))
}

/// Methods without an argument.
fn extras(v: u16) -> Result<(), String> {
    let b = v.to_be_bytes();
    let mut r = StatusRegister::from(&b[..]);
    r.reset_new_data();
    if word(r) != v & !ST_NEW {
        return Err(format!("status {v:#06x}: reset_new_data gives {:#06x}", word(r)));
    }
    r.set_start_measurement();
    if word(r) != v & !ST_NEW | ST_START {
        return Err(format!("status {v:#06x}: reset_new_data and set_start_measurement give {:#06x}", word(r)));
    }
    let mut r = StatusRegister::from(&b[..]);
    r.set_start_measurement();
    if word(r) != v | ST_START {
        return Err(format!("status {v:#06x}: set_start_measurement gives {:#06x}", word(r)));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.bound("status, control and I2C configuration registers x all 65536 values x {two byte slice, longer slice, bus} x every getter; x every setter x every argument and every pair of setters; equality against every single-bit difference and four multi-bit differences (thorough tier: every pair of the 65536 values); I2C register ordering: all 64 pairs of fields x reserved patterns");
    let st = {
        let (get, set) = status_fields();
        Spec { name: "status register", addr: STATUS, mask: 0x0039, get, set }
    };
    let co = {
        let (get, set) = control_fields();
        Spec { name: "control register", addr: CONTROL, mask: 0x1F9F, get, set }
    };
    let ic = {
        let (get, set) = i2c_fields();
        Spec { name: "I2C register", addr: I2CREG, mask: 0x0007, get, set }
    };
    par(ctx, 3 * 64, |j| {
        let (k, c) = (j / 64, j % 64);
        let mut w = World::new(dev(Model::M640, &base_ee(Model::M640)));
        w.log_on = true;
        w.horizon = usize::MAX;
        install(w);
        let mut steps = 0;
        for v in (c * 1024) as u32..((c + 1) * 1024) as u32 {
            let v = v as u16;
            // The device's own rules for writing the status register are not the subject here:
            // the log of the transaction is compared.
            let r = guard(|| match k {
                0 => one(&st, v).and_then(|s| extras(v).map(|_| s)),
                1 => one(&co, v),
                _ => one(&ic, v),
            });
            match r {
                Ok(Ok(s)) => steps += s,
                Ok(Err(e)) | Err(e) => {
                    ctx.fail(e);
                    break;
                }
            }
        }
        take();
        ctx.st(1024);
        ctx.tr(steps);
        ctx.tv(1024);
    });
    if ctx.thorough {
        par(ctx, 256, |j| {
            for a in (j * 256) as u32..((j + 1) * 256) as u32 {
                let ab = (a as u16).to_be_bytes();
                let (x, y, z) =
                    (StatusRegister::from(&ab[..]), ControlRegister::from(&ab[..]), I2cRegister::from(&ab[..]));
                for b in 0..=0xFFFFu16 {
                    let bb = b.to_be_bytes();
                    let d = a as u16 ^ b;
                    let e = [
                        x == StatusRegister::from(&bb[..]),
                        y == ControlRegister::from(&bb[..]),
                        z == I2cRegister::from(&bb[..]),
                    ];
                    if e != [d & 0x0039 == 0, d & 0x1F9F == 0, d & 7 == 0] {
                        return ctx.fail(format!("comparing {a:#06x} with {b:#06x} gives {e:?} (status, control, I2C)"));
                    }
                }
            }
            ctx.count("pairs_compared", 256 * 65536 * 3);
        });
    }
    // Defaults.
    let d = [
        ("default_mlx90640", word(ControlRegister::default_mlx90640()), 0x1901),
        ("default_mlx90641", word(ControlRegister::default_mlx90641()), 0x0901),
        ("I2cRegister::default", word(I2cRegister::default()), 0x0000),
    ];
    for (n, a, b) in d {
        ctx.check(a == b, || format!("{n} is {a:#06x} instead of {b:#06x}"));
    }
    // Ordering of the I2C register is total, consistent with equality, and ignores reserved bits.
    for a in 0..8u16 {
        for b in 0..8u16 {
            for (ra, rb) in [(0u16, 0u16), (0xFFF8, 0), (0, 0xFFF8), (0x1230, 0x4568)] {
                let x = I2cRegister::from(&(a | ra).to_be_bytes()[..]);
                let y = I2cRegister::from(&(b | rb).to_be_bytes()[..]);
                let o = x.cmp(&y);
                let ok = (o == std::cmp::Ordering::Equal) == (a == b)
                    && (x == y) == (a == b)
                    && x.partial_cmp(&y) == Some(o)
                    && y.cmp(&x) == o.reverse();
                ctx.check(ok, || {
                    format!("I2C register: comparing {:#06x} with {:#06x} gives {o:?}, equality {}", a | ra, b | rb, x == y)
                });
                ctx.tr(4);
            }
        }
    }
    ctx.sample("status 0xffff: all flags set, subpage one; control 0x1901: subpages on, 2 Hz, 18 bits, chess".to_string());
}
