//! C02: every pixel comes from its own RAM word of the subpage that was read.
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::util::*;
use mlx9064x::calculations::RamData;
use mlx9064x::common::read_ram;
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;

const CALLS: usize = 4;
const CONFIGS: usize = 5;
const NAMES: [&str; CONFIGS] = ["ordinary", "failed and outlier pixels", "resolution 16, user settings, no TGC", "another frame", "saturated and zero pixels"];

fn config_ee(m: Model, config: usize) -> std::sync::Arc<Vec<u16>> {
    let mut e = base_ee(m).to_vec();
    match (config, m) {
        (1, Model::M640) => {
            for px in (0..m.pixels()).step_by(13) {
                e[0x40 + px] = 0;
            }
            for px in (5..m.pixels()).step_by(29) {
                e[0x40 + px] |= 1;
            }
        }
        (1, Model::M641) => {
            for px in (0..m.pixels()).step_by(13) {
                for base in [0x40, 0x100, 0x1C0, 0x280] {
                    e[base + px] = 0;
                }
            }
        }
        (2, Model::M640) => e[0x3C] &= 0xFF00,
        (2, Model::M641) => e[0x33] = ham(e[0x33] & 0x0600),
        _ => {}
    }
    std::sync::Arc::new(e)
}

pub fn run(ctx: &Ctx) {
    ctx.bound("dependence: both models x both patterns x both subpages x 4 image calls x every RAM word x every single-bit flip and the complement of the word x 5 configurations (ordinary, failed and outlier pixels, other settings without TGC, another frame, saturated and zero pixels); every content of the control register (quick: a third of those with unusual bits set), found at construction or noticed later, x 11 sets of words changed (those of no pixel; those of the pixels whose number has a given bit set); low-level read: every 16-bit value of each frame word x both subpages x both patterns x both models, every pixel word taking 4096 values (quick) or all 65536 (thorough)");
    let mut jobs = vec![];
    for m in Model::BOTH {
        for p in 0..2u8 {
            for s in 0..2u8 {
                for call in 0..CALLS {
                    for config in 0..CONFIGS {
                        jobs.push((m, p, s, call, config));
                    }
                }
            }
        }
    }
    crate::checks::c03::controls(ctx, crate::checks::c03::Look::Words);
    let chunk = 64;
    let per = RAM_MAX / chunk;
    par(ctx, jobs.len() * per, |j| {
        let (m, p, s, call, config) = jobs[j / per];
        let lo = (j % per) * chunk;
        if lo >= m.ram_words() {
            return;
        }
        let op = [Op::Raw(s), Op::Temp(s), Op::Image, Op::IfReady][call];
        let r = rig(m, "rich", &config_ee(m, config), |d| {
            set_control(d, p, if config == 2 { 0 } else { 2 });
            announce(d, s);
            match config {
                3 => d.ram = frame_ram(m, 3),
                4 => {
                    // Every fifth pixel saturated, every seventh zero.
                    for px in 0..m.pixels() {
                        let a = (m.pixel_addr(s, px) - RAM_BASE) as usize;
                        match px % 35 {
                            k if k % 5 == 0 => d.ram[a] = [0x7FFF, 0x8000][px % 2],
                            k if k % 7 == 0 => d.ram[a] = 0,
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        });
        let mut r = match r {
            Ok(r) => r,
            Err(e) => return ctx.fail(e),
        };
        if config == 2 {
            let mut w = Some(r.world.clone());
            r.drv.q_in(&mut w, Op::Override(0.85));
            r.drv.q_in(&mut w, Op::SetReflected(Some(-20.0)));
        }
        let n = m.pixels();
        let name = format!("{} {} pattern {p} subpage {s} {op:?}", m.name(), NAMES[config]);
        let base = match image(&r.drv, &r.world, op, n) {
            Ok((i, _, _)) => i,
            Err(e) => return ctx.fail(format!("{name}: {e}")),
        };
        let base_amb = base.ambient;
        // Which pixel a RAM word belongs to.
        let mut owner = vec![None; RAM_MAX];
        for px in 0..n {
            if m.in_subpage(p, s, px) {
                owner[(m.pixel_addr(s, px) - RAM_BASE) as usize] = Some(px);
            }
        }
        let mut count = 0;
        for i in lo..(lo + chunk).min(m.ram_words()) {
            if ctx.stopped() {
                return;
            }
            let a = RAM_BASE + i as u16;
            let shared = [m.vbe(), m.ptat(), m.vdd(), m.gain(), m.cp(s)].contains(&a);
            let temperature = [m.vbe(), m.ptat(), m.vdd()].contains(&a);
            let mut any = false;
            for b in 0..17 {
                let mut w = r.world.clone();
                w.dev().ram[i] ^= if b < 16 { 1 << b } else { 0xFFFF };
                let v = w.dev().ram[i];
                let x = match shot(&r.drv, &w, op, n) {
                    Ok(x) => x,
                    Err(e) => return ctx.fail(format!("{name} word {a:#06x} = {v:#06x}: {e}")),
                };
                count += 1;
                let amb = x.ambient.map(f32::to_bits);
                if amb.is_some() != base_amb.is_some()
                    || !temperature && !same_bits(amb.unwrap_or(0), base_amb.unwrap_or(0))
                {
                    return ctx.fail(format!("{name}: RAM word {a:#06x} changes the ambient temperature"));
                }
                for px in 0..n {
                    let old = base.px[px].unwrap_or(S1.to_bits());
                    let new = x.px[px].to_bits();
                    if same_bits(old, new) {
                        continue;
                    }
                    any = true;
                    let may = owner[i] == Some(px) || shared && base.px[px].is_some();
                    if !may {
                        return ctx.fail(format!(
                            "{name}: RAM word {a:#06x} changed to {v:#06x} changes pixel {px} from {} to {}",
                            f32::from_bits(old),
                            x.px[px]
                        ));
                    }
                }
                if let (Some(px), Op::Raw(_), true) = (owner[i], op, config < 3) {
                    if same_bits(base.px[px].unwrap(), x.px[px].to_bits()) {
                        return ctx.fail(format!(
                            "{name}: pixel {px} does not depend on its word {a:#06x} = {v:#06x}"
                        ));
                    }
                }
            }
            if (owner[i].is_some() || shared) && !any && config == 0 {
                return ctx.fail(format!("{name}: nothing depends on RAM word {a:#06x}"));
            }
        }
        ctx.st(count);
        ctx.tr(count);
        ctx.tv(count);
        if j % 97 == 0 {
            ctx.sample(format!("{name}: RAM words {:#06x}..", RAM_BASE as usize + lo));
        }
    });
    low_level(ctx);
}

/// `RamData::from_i2c` and `read_ram`.
fn low_level(ctx: &Ctx) {
    let mut jobs = vec![];
    for m in Model::BOTH {
        for s in 0..2u8 {
            for w in 0..5usize {
                jobs.push((m, s, w));
            }
        }
    }
    let get = |m: Model, s: u8| -> Result<RamData, RdErr> {
        match m {
            Model::M640 => RamData::from_i2c::<Bus, Mlx90640>(&mut Bus, 0x33, sp(s)),
            Model::M641 => RamData::from_i2c::<Bus, Mlx90641>(&mut Bus, 0x33, sp(s)),
        }
    };
    par(ctx, jobs.len(), |j| {
        let (m, s, w) = jobs[j];
        let addr = |k: usize| [m.vbe(), m.ptat(), m.vdd(), m.gain(), m.cp(s)][k];
        install(World { horizon: usize::MAX, ..World::new(dev(m, &base_ee(m))) });
        for v in 0..=0xFFFFu16 {
            with(|x| {
                for k in 0..5 {
                    x.dev().set_word(addr(k), 0x1111u16.wrapping_mul(k as u16 + 1));
                }
                x.dev().set_word(m.cp(1 - s), 0x7777);
                x.dev().set_word(addr(w), v);
            });
            let want: Vec<i16> = (0..5)
                .map(|k| if k == w { v as i16 } else { 0x1111u16.wrapping_mul(k as u16 + 1) as i16 })
                .collect();
            let r = match guard(|| get(m, s)) {
                Ok(Ok(r)) => r,
                Ok(Err(e)) => {
                    ctx.fail(format!("{} RamData::from_i2c subpage {s}: {e:?}", m.name()));
                    break;
                }
                Err(e) => {
                    ctx.fail(format!("{} RamData::from_i2c subpage {s}: {e}", m.name()));
                    break;
                }
            };
            let got = [r.t_a_v_be, r.t_a_ptat, r.v_dd_pixel, r.gain, r.compensation_pixel];
            if got[..] != want[..] {
                ctx.fail(format!(
                    "{} RamData::from_i2c subpage {s}: read {got:?} instead of {want:?} (V_BE, PTAT, V_DD, gain, CP)",
                    m.name()
                ));
                break;
            }
        }
        take();
        ctx.st(65536);
        ctx.tr(65536);
        ctx.tv(65536);
    });
    // The pixel buffer.
    let mut jobs = vec![];
    for m in Model::BOTH {
        for p in 0..2u8 {
            for s in 0..2u8 {
                jobs.push((m, p, s));
            }
        }
    }
    let step = if ctx.thorough { 1 } else { 16 };
    par(ctx, jobs.len() * 8, |j| {
        let (m, p, s) = jobs[j / 8];
        let n = m.pixels();
        install(World { horizon: usize::MAX, ..World::new(dev(m, &base_ee(m))) });
        let mut f = (j % 8) * step;
        let mut count = 0;
        while f < 65536 {
            let word = |i: usize| (f as u16).wrapping_add((i as u16).wrapping_mul(12347));
            with(|x| {
                for i in 0..m.ram_words() {
                    x.dev().ram[i] = word(i);
                }
            });
            let mut buf = vec![0xEEu8; n * 2];
            let r = guard(|| match m {
                Model::M640 => {
                    read_ram::<Mlx90640, Bus, 24>(&mut Bus, 0x33, pat(p), sp(s), &mut buf).map_err(|e| err_ret(&e))
                }
                Model::M641 => {
                    read_ram::<Mlx90641, Bus, 12>(&mut Bus, 0x33, pat(p), sp(s), &mut buf).map_err(|e| err_ret(&e))
                }
            });
            let name = || format!("{} read_ram pattern {p} subpage {s} content {f}", m.name());
            let r = match r {
                Ok(Ok(r)) => r,
                e => {
                    ctx.fail(format!("{}: {e:?}", name()));
                    break;
                }
            };
            let want: Vec<i16> = [m.vbe(), m.ptat(), m.vdd(), m.gain(), m.cp(s)]
                .iter()
                .map(|a| word((*a - RAM_BASE) as usize) as i16)
                .collect();
            let got = [r.t_a_v_be, r.t_a_ptat, r.v_dd_pixel, r.gain, r.compensation_pixel];
            if got[..] != want[..] {
                ctx.fail(format!("{}: frame words {got:?} instead of {want:?}", name()));
                break;
            }
            for px in 0..n {
                if m.in_subpage(p, s, px) {
                    let want = word((m.pixel_addr(s, px) - RAM_BASE) as usize);
                    let got = u16::from_be_bytes([buf[2 * px], buf[2 * px + 1]]);
                    if got != want {
                        ctx.fail(format!("{}: pixel {px} is {got:#06x} instead of {want:#06x}", name()));
                        f = 65536;
                        break;
                    }
                }
            }
            count += 1;
            f += 8 * step;
        }
        take();
        ctx.st(count);
        ctx.tr(count);
        ctx.tv(count);
    });
}
