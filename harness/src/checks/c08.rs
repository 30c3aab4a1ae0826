//! C08: MLX90641 EEPROM corruption is repaired or reported, never silently used.
use crate::checks::c06::backgrounds;
use crate::ctx::{guard, par, Ctx};
use crate::dev::*;
use crate::drv::*;
use crate::util::*;
use mlx9064x::common::FromI2C;
use mlx9064x::mlx90641::Mlx90641Calibration;
use mlx9064x::LibraryError;
use std::sync::Arc;

/// Whether a word holds calibration data.
fn used(i: usize) -> bool {
    i >= 0x10 && i != 0x13 && i != 0x14
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Way {
    Buffer,
    FromI2c,
    Driver,
}

struct Base {
    name: &'static str,
    words: Vec<u16>,
    cal: Mlx90641Calibration,
    images: Vec<Vec<u32>>,
}

fn images(d: &Drv, w: &World) -> Result<Vec<Vec<u32>>, String> {
    let mut v = vec![];
    for s in 0..2 {
        let x = shot(d, w, Op::Temp(s), 192)?;
        v.push(x.px.iter().chain(x.ambient.iter()).map(|f| f.to_bits()).collect());
    }
    Ok(v)
}

/// Load a (corrupted) EEPROM.  `Ok(None)`: it gave the intact calibration.
fn load(b: &Base, words: &[u16], way: Way) -> Result<Option<u16>, String> {
    let bad = |e: LibraryError| match e {
        LibraryError::Checksum(w) => Ok(Some(w)),
        e => Err(format!("rejected with {e:?}")),
    };
    match way {
        Way::Buffer => match guard(|| Mlx90641Calibration::from_data(&bytes(words)))? {
            Ok(c) if c == b.cal => Ok(None),
            Ok(_) => Err("the calibration differs from that of the intact EEPROM".into()),
            Err(e) => bad(e),
        },
        Way::FromI2c => {
            install(World::new(dev(Model::M641, &Arc::new(words.to_vec()))));
            let r = guard(|| Mlx90641Calibration::from_i2c(&mut Bus, 0x33));
            take();
            match r? {
                Ok(c) if c == b.cal => Ok(None),
                Ok(_) => Err("the calibration differs from that of the intact EEPROM".into()),
                Err(mlx9064x::Error::LibraryError(e)) => bad(e),
                Err(e) => Err(format!("rejected with {:?}", err_ret(&e))),
            }
        }
        Way::Driver => {
            install(World::new(dev(Model::M641, &Arc::new(words.to_vec()))));
            let r = guard(|| Drv::new(Model::M641, 0x33));
            let w = take();
            match r? {
                Ok(d) => {
                    if images(&d, &w)? == b.images {
                        Ok(None)
                    } else {
                        Err("the images differ from those with the intact EEPROM".into())
                    }
                }
                Err(Ret::Checksum(w)) => Ok(Some(w)),
                Err(e) => Err(format!("rejected with {e:?}")),
            }
        }
    }
}

const WAYS: [Way; 3] = [Way::Buffer, Way::FromI2c, Way::Driver];

pub fn run(ctx: &Ctx) {
    ctx.bound("5 EEPROM contents: every single bit flip of all 832 words; every pair of flipped bits in each of the 814 calibration words; one flipped bit in every word at once (16 uniform and 1024 mixed choices of bits); one doubly corrupted word while all the others have one flipped bit (all words); one flipped bit in every pair of words, in every contiguous range of words and in every residue class modulo 2..69, and every ordered pair of a word with one and a word with two flipped bits (one EEPROM content, from a buffer; thorough: all, 16 bit choices); from a buffer, with from_i2c and with a new driver");
    ctx.assume("words 0x2400..0x240F and the reserved words 0x2413 and 0x2414 hold no calibration data: their single flips must not matter, their double flips are not explored");
    let bases: Vec<Base> = match backgrounds()
        .into_iter()
        .map(|(name, data)| {
            let words: Vec<u16> = data.iter().map(|w| ham(*w)).collect();
            let cal = guard(|| Mlx90641Calibration::from_data(&bytes(&words)))?
                .map_err(|e| format!("{name} EEPROM: intact content rejected with {e:?}"))?;
            let (d, w) = attach(dev(Model::M641, &Arc::new(words.clone())))?;
            Ok(Base { name, words, cal, images: images(&d, &w)? })
        })
        .collect::<Result<Vec<_>, String>>()
    {
        Ok(b) => b,
        Err(e) => return ctx.fail(e),
    };
    let done = |n: u64| {
        ctx.st(n);
        ctx.tr(n);
        ctx.tv(n);
    };
    // One flipped bit.
    par(ctx, bases.len() * 832, |j| {
        let b = &bases[j / 832];
        let i = j % 832;
        let mut w = b.words.clone();
        let mut n = 0;
        for bit in 0..16 {
            w[i] = b.words[i] ^ 1 << bit;
            for way in WAYS {
                match load(b, &w, way) {
                    Ok(None) => n += 1,
                    Ok(Some(x)) => {
                        return ctx.fail(format!("{} EEPROM, bit {bit} of word {:#06x} flipped, {way:?}: rejected naming {x:#06x}", b.name, 0x2400 + i))
                    }
                    Err(e) => {
                        return ctx.fail(format!("{} EEPROM, bit {bit} of word {:#06x} flipped, {way:?}: {e}", b.name, 0x2400 + i))
                    }
                }
            }
        }
        done(n);
    });
    // Two flipped bits in a word.
    par(ctx, bases.len() * 832, |j| {
        let b = &bases[j / 832];
        let i = j % 832;
        if !used(i) {
            return;
        }
        let mut w = b.words.clone();
        let mut n = 0;
        for x in 0..16 {
            for y in 0..x {
                w[i] = b.words[i] ^ 1 << x ^ 1 << y;
                for way in WAYS {
                    match load(b, &w, way) {
                        Ok(Some(v)) if v == w[i] => n += 1,
                        g => {
                            return ctx.fail(format!(
                                "{} EEPROM, bits {x} and {y} of word {:#06x} flipped (now {:#06x}), {way:?}: {g:?} instead of a checksum error",
                                b.name,
                                0x2400 + i,
                                w[i]
                            ))
                        }
                    }
                }
            }
        }
        done(n);
    });
    // One flipped bit in every word at once.
    par(ctx, bases.len() * 1040, |j| {
        let b = &bases[j / 1040];
        let k = j % 1040;
        let bit = |i: usize| if k < 16 { k } else { mix((i * 1040 + k) as u64) as usize % 16 };
        let w: Vec<u16> = b.words.iter().enumerate().map(|(i, w)| w ^ 1 << bit(i)).collect();
        for way in WAYS {
            match load(b, &w, way) {
                Ok(None) => {}
                g => return ctx.fail(format!("{} EEPROM, one flipped bit in every word (choice {k}), {way:?}: {g:?}", b.name)),
            }
        }
        done(3);
        // ... and two flips in one of them.
        if k < 832 && used(k) {
            let mut w = w;
            w[k] ^= 1 << ((bit(k) + 1 + j % 15) % 16);
            for way in WAYS {
                match load(b, &w, way) {
                    Ok(Some(v)) if v == w[k] => {}
                    g => {
                        return ctx.fail(format!(
                            "{} EEPROM, one flipped bit in every word and two in word {:#06x}, {way:?}: {g:?}",
                            b.name,
                            0x2400 + k
                        ))
                    }
                }
            }
            done(3);
        }
    });
    // One flipped bit in two words, in all words of a range, in all words of a residue class; one word
    // with one and another with two flipped bits.
    par(ctx, (if ctx.thorough { bases.len() } else { 1 }) * 832, |j| {
        let b = &bases[(j / 832 + 1) % bases.len()];
        let i = j % 832;
        let mut n = 0;
        let fine = |w: &[u16], what: &dyn Fn() -> String| match load(b, w, Way::Buffer) {
            Ok(None) => true,
            g => {
                ctx.fail(format!("{} EEPROM, one flipped bit in {}: {g:?}", b.name, what()));
                false
            }
        };
        let mut range = b.words.clone();
        range[i] ^= 1 << (i % 16);
        for k in i + 1..832 {
            let bits = mix((i * 832 + k) as u64);
            // The same bit or another one.
            for x in 0..if ctx.thorough { 16 } else { 2 } {
                let one = (bits % 16) as u32;
                let other = if x == 0 { one } else { (one + x + (bits >> 8) as u32 % 15) % 16 };
                let mut w = b.words.clone();
                w[i] ^= 1 << one;
                w[k] ^= 1 << other;
                if !fine(&w, &|| format!("bit {one} of word {:#06x} and bit {other} of word {:#06x}", 0x2400 + i, 0x2400 + k)) {
                    return;
                }
                n += 1;
            }
            range[k] ^= 1 << (if i % 2 == 0 { i } else { k } % 16);
            if !fine(&range, &|| format!("each of the words {:#06x}..={:#06x}", 0x2400 + i, 0x2400 + k)) {
                return;
            }
            n += 1;
            for (one, two) in [(i, k), (k, i)] {
                if !used(two) {
                    continue;
                }
                let mut w = b.words.clone();
                w[one] ^= 1 << (bits >> 16 & 15);
                w[two] ^= 1 << (bits >> 20 & 15) | 1 << ((bits >> 20) + 1 + (bits >> 24) % 15 & 15);
                match load(b, &w, Way::Buffer) {
                    Ok(Some(v)) if v == w[two] => n += 1,
                    g => {
                        return ctx.fail(format!(
                            "{} EEPROM, one flipped bit in word {:#06x} and two in word {:#06x}: {g:?}",
                            b.name,
                            0x2400 + one,
                            0x2400 + two
                        ))
                    }
                }
            }
        }
        if i > 1 {
            for r in 0..i {
                let w: Vec<u16> = b.words.iter().enumerate().map(|(k, w)| if k % i == r { w ^ 1 << (k / i + r) % 16 } else { *w }).collect();
                if i < 70 && !fine(&w, &|| format!("each word with an offset of {r} modulo {i}")) {
                    return;
                }
                n += (i < 70) as u64;
            }
        }
        done(n);
    });
    ctx.sample("rich EEPROM, bit 3 of word 0x2452 flipped: loads as the intact calibration from a buffer, the bus and a new driver");
    ctx.sample("rich EEPROM, bits 3 and 9 of word 0x2452 flipped: Checksum error naming the corrupted word");
}
