//! C20: rates, resolutions and identifiers convert totally and invertibly.
use crate::ctx::{guard, par, Ctx};
use crate::dev::{Dev, Model, CONTROL};
use crate::drv::*;
use crate::util::*;
use mlx9064x::mlx90640::{Mlx90640, RamAddress as Ram640};
use mlx9064x::mlx90641::{Mlx90641, RamAddress as Ram641};
use mlx9064x::{AccessPattern, Address, ControlRegister, FrameRate, LibraryError, MelexisCamera, Resolution, Subpage};
use std::convert::TryFrom;
use std::time::Duration;

const HZ: [f32; 8] = [0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0];
const NANOS: [u64; 8] = [
    2_000_000_000,
    1_000_000_000,
    500_000_000,
    250_000_000,
    125_000_000,
    62_500_000,
    31_250_000,
    15_625_000,
];

fn invalid<T>(r: &Result<T, LibraryError>) -> bool {
    matches!(r, Err(LibraryError::InvalidData(_)))
}

pub fn run(ctx: &Ctx) {
    ctx.bound("all 2^32 single-precision bit patterns and all 256 bytes to a frame rate; all bytes to a resolution; all 65536 words, and the 2^16 numbers below and above every power of two of usize, to subpages, and all bytes to access patterns; all 65536 addresses and RAM addresses of both models; every conversion back; the same values set in and read from a camera's register");
    // Numbers to frame rates.
    par(ctx, 4096, |j| {
        let r = guard(|| {
            for k in 0..1u64 << 20 {
                let bits = ((j as u64) << 20 | k) as u32;
                let x = f32::from_bits(bits);
                let want = HZ.iter().position(|h| h.to_bits() == bits);
                let got = FrameRate::try_from(x);
                let ok = match (&got, want) {
                    (Ok(r), Some(i)) => *r == RATES[i],
                    (Err(LibraryError::InvalidData(_)), None) => true,
                    _ => false,
                };
                if !ok {
                    return Some(format!("FrameRate::try_from({x:?} = {bits:#010x}) is {got:?}"));
                }
            }
            None
        });
        match r {
            Ok(None) => {}
            Ok(Some(e)) => ctx.fail(e),
            Err(e) => ctx.fail(format!("FrameRate::try_from(f32) in block {j:#x}: {e}")),
        }
        ctx.st(1 << 20);
        ctx.tr(1 << 20);
        ctx.tv(1 << 20);
    });
    let one = |what: &str, f: &dyn Fn() -> Result<(), String>| {
        match guard(f) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ctx.fail(format!("{what}: {e}")),
            Err(e) => ctx.fail(format!("{what}: {e}")),
        }
        ctx.st(1);
        ctx.tr(2);
        ctx.tv(1);
    };
    let is = |ok: bool, what: String| if ok { Ok(()) } else { Err(what) };
    for v in 0..=255u8 {
        one(&format!("FrameRate::try_from({v}u8)"), &|| {
            let got = FrameRate::try_from(v);
            match HZ.iter().position(|h| *h == v as f32) {
                Some(i) => is(got == Ok(RATES[i]), format!("{got:?}")),
                None => is(invalid(&got), format!("{got:?}")),
            }
        });
        one(&format!("Resolution::try_from({v}u8)"), &|| {
            let got = Resolution::try_from(v);
            match v {
                16..=19 => {
                    let want = RESOLUTIONS[v as usize - 16];
                    is(got == Ok(want) && u8::from(want) == v, format!("{got:?}, back {}", u8::from(want)))
                }
                _ => is(invalid(&got), format!("{got:?}")),
            }
        });
        one(&format!("AccessPattern::try_from({v}u8)"), &|| {
            let got = AccessPattern::try_from(v);
            match v {
                0 => is(got.as_ref() == Ok(&AccessPattern::Interleave), format!("{got:?}")),
                1 => is(got.as_ref() == Ok(&AccessPattern::Chess), format!("{got:?}")),
                _ => is(got.as_ref().err().map(|e| e.number) == Some(v), format!("{got:?}")),
            }
        });
    }
    for (i, r) in RATES.iter().enumerate() {
        one(&format!("{r:?}"), &|| {
            let f: f32 = (*r).into();
            let d: Duration = (*r).into();
            is(f.to_bits() == HZ[i].to_bits(), format!("is {f} Hz"))?;
            is(d == Duration::from_nanos(NANOS[i]), format!("lasts {d:?}"))?;
            is(FrameRate::try_from(f) == Ok(*r), format!("{f} Hz converts to {:?}", FrameRate::try_from(f)))?;
            for (k, s) in RATES.iter().enumerate() {
                is((r == s) == (i == k) && r.cmp(s) == i.cmp(&k), format!("compared with {s:?}"))?;
            }
            Ok(())
        });
    }
    for (i, r) in RESOLUTIONS.iter().enumerate() {
        one(&format!("{r:?}"), &|| {
            let n: u8 = (*r).into();
            is(n == 16 + i as u8, format!("has {n} bits"))?;
            for (k, s) in RESOLUTIONS.iter().enumerate() {
                is((r == s) == (i == k) && r.cmp(s) == i.cmp(&k), format!("compared with {s:?}"))?;
                // The correction between any two resolutions.
                let want = 2f32.powi(i as i32 - k as i32);
                for (got, m) in [
                    (Mlx90640::resolution_correction(*r, *s), Model::M640),
                    (Mlx90641::resolution_correction(*r, *s), Model::M641),
                ] {
                    is(got == want, format!("{} correction to {s:?} is {got}", m.name()))?;
                }
            }
            Ok(())
        });
    }
    one("defaults", &|| {
        is(FrameRate::default() == FrameRate::Two, format!("{:?}", FrameRate::default()))?;
        is(Resolution::default() == Resolution::Eighteen, format!("{:?}", Resolution::default()))
    });
    // Subpages: all small numbers and those around powers of two.
    let mut around: Vec<(usize, usize)> = vec![(0, 65535)];
    for b in 16..usize::BITS {
        around.push(((1usize << b) - 65536, (1usize << b).saturating_add(65535)));
    }
    around.push((usize::MAX - 65535, usize::MAX));
    par(ctx, around.len(), |j| {
        let (a, b) = around[j];
        let r = guard(|| {
            for v in a..=b {
                let got = Subpage::try_from(v);
                let ok = match v {
                    0 => got == Ok(Subpage::Zero),
                    1 => got == Ok(Subpage::One),
                    _ => got.as_ref().err().map(|e| e.number) == Some(v),
                };
                if !ok {
                    return Some(format!("Subpage::try_from({v}) is {got:?}"));
                }
            }
            None
        });
        match r {
            Ok(None) => {}
            Ok(Some(e)) => ctx.fail(e),
            Err(e) => ctx.fail(format!("Subpage::try_from in {a}..={b}: {e}")),
        }
        ctx.st((b - a) as u64);
        ctx.tr((b - a) as u64);
        ctx.tv((b - a) as u64);
    });
    one("identifiers", &|| {
        is(usize::from(Subpage::Zero) == 0 && usize::from(Subpage::One) == 1, "subpage to number".into())?;
        is(u8::from(AccessPattern::Interleave) == 0 && u8::from(AccessPattern::Chess) == 1, "pattern to number".into())?;
        is(Subpage::Zero < Subpage::One && Subpage::Zero != Subpage::One, "subpage order".into())
    });
    // Addresses.
    fn ram<T>(m: Model, table: &[(u16, T)], a: u16) -> Result<(), String>
    where
        T: Copy + PartialEq + std::fmt::Debug + TryFrom<Address> + TryFrom<u16> + Into<Address> + Into<u16>,
    {
        let want = table.iter().find(|t| t.0 == a).map(|t| t.1);
        let x = T::try_from(a).ok();
        let y = T::try_from(Address::from(a)).ok();
        if x != want || y != want {
            return Err(format!("{} RAM address {a:#06x}: {x:?}, {y:?} instead of {want:?}", m.name()));
        }
        if let Some(w) = want {
            let (n, ad): (u16, Address) = (w.into(), w.into());
            if n != a || ad != Address::new(a) {
                return Err(format!("{} {w:?} converts to {n:#06x}, {ad:?}", m.name()));
            }
        }
        Ok(())
    }
    let t0 = [
        (0x0400, Ram640::Base),
        (0x0700, Ram640::AmbientTemperatureVoltageBe),
        (0x0708, Ram640::CompensationPixelZero),
        (0x070A, Ram640::Gain),
        (0x0720, Ram640::AmbientTemperatureVoltage),
        (0x0728, Ram640::CompensationPixelOne),
        (0x072A, Ram640::PixelSupplyVoltage),
        (0x073F, Ram640::End),
    ];
    let t1 = [
        (0x0400, Ram641::Base),
        (0x0580, Ram641::AmbientTemperatureVoltageBe),
        (0x0588, Ram641::CompensationPixelZero),
        (0x058A, Ram641::Gain),
        (0x05A0, Ram641::AmbientTemperatureVoltage),
        (0x05A8, Ram641::CompensationPixelOne),
        (0x05AA, Ram641::PixelSupplyVoltage),
        (0x05BF, Ram641::End),
    ];
    par(ctx, 65536, |a| {
        let a = a as u16;
        let r = guard(|| {
            let ad = Address::from(a);
            if ad != Address::new(a) || u16::from(ad) != a || usize::from(ad) != a as usize {
                return Err(format!("address {a:#06x}: {ad:?}, {:#x}, {:#x}", u16::from(ad), usize::from(ad)));
            }
            if format!("{ad:?}") != format!("Address({a:#X})") {
                return Err(format!("address {a:#06x} is shown as {ad:?}"));
            }
            for b in [0u16, 1, a.wrapping_sub(1), a, a.wrapping_add(1), a ^ 0x8000, a.swap_bytes(), 0xFFFF] {
                if (ad == Address::new(b)) != (a == b) || ad.cmp(&Address::new(b)) != a.cmp(&b) {
                    return Err(format!("address {a:#06x} compared with {b:#06x}"));
                }
            }
            ram(Model::M640, &t0, a)?;
            ram(Model::M641, &t1, a)
        });
        if let Err(e) | Ok(Err(e)) = r {
            ctx.fail(e);
        }
        ctx.st(1);
        ctx.tr(8);
        ctx.tv(1);
    });
    // The numbers a camera's register uses for these values, for every value of the register.
    par(ctx, 65536, |v| {
        let v = v as u16;
        let r = guard(|| {
            let b = v.to_be_bytes();
            let c = ControlRegister::from(&b[..]);
            let want = (
                RATES[(v >> 7 & 7) as usize],
                RESOLUTIONS[(v >> 10 & 3) as usize],
                sp((v >> 4 & 1) as u8),
                pat((v >> 12 & 1) as u8),
            );
            let got = (c.frame_rate(), c.resolution(), c.subpage(), c.access_pattern());
            if got != want {
                return Err(format!("control register {v:#06x}: {got:?} instead of {want:?}"));
            }
            // The frame rate survives the detour over all numeric representations.
            let f: f32 = got.0.into();
            let d: Duration = got.0.into();
            if FrameRate::try_from(f) != Ok(got.0) || (f as f64 * d.as_secs_f64() - 1.0).abs() > 1e-12 {
                return Err(format!("{:?}: {f} Hz, {d:?}", got.0));
            }
            Ok(())
        });
        if let Err(e) | Ok(Err(e)) = r {
            ctx.fail(e);
        }
        ctx.st(1);
        ctx.tr(6);
        ctx.tv(1);
    });
    for m in Model::BOTH {
        let d: Dev = dev(m, &base_ee(m));
        match attach(d) {
            Err(e) => ctx.fail(e),
            Ok((mut drv, w)) => {
                let mut w = Some(w);
                for i in 0..8u8 {
                    for k in 0..4u8 {
                        drv.q_in(&mut w, Op::SetRate(i));
                        drv.q_in(&mut w, Op::SetRes(k));
                        let a = drv.q_in(&mut w, Op::GetRate);
                        let b = drv.q_in(&mut w, Op::GetRes);
                        let c = w.as_mut().map(|w| w.dev().control);
                        ctx.check(
                            a == Some(Ret::Num(i as u32)) && b == Some(Ret::Num(k as u32)) && c.map(|c| (c >> 7 & 7, c >> 10 & 3)) == Some((i as u16, k as u16)),
                            || format!("{} rate {i} resolution {k} set: {a:?} {b:?}, register {CONTROL:#x} {c:x?}", m.name()),
                        );
                        ctx.tr(4);
                        ctx.tv(1);
                    }
                }
            }
        }
    }
    ctx.sample("FrameRate::try_from(0.5) is Half, of 0x3f000001 an error; Half lasts 2 s");
}
