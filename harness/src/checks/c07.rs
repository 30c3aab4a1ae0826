//! C07: the MLX90641 Hamming code corrects one bit error and detects two.
use crate::ctx::{guard, Ctx};
use crate::util::ham;
use mlx9064x::mlx90641::hamming::{add_checksum, validate_checksum};
use mlx9064x::LibraryError;

pub fn run(ctx: &Ctx) {
    ctx.bound("complete: all 65536 inputs of the encoder, all 65536 words given to the decoder, all pairs of code words");
    ctx.assume("the parity table of the reference encoder is the one of the module's documentation");
    // Encoder.
    let mut codes = vec![];
    for w in 0..=65535u16 {
        match guard(|| add_checksum(w)) {
            Err(e) => ctx.fail(format!("add_checksum({w:#06x}): {e}")),
            Ok(Ok(c)) if w < 2048 => {
                ctx.check(c == ham(w), || format!("add_checksum({w:#06x}) is {c:#06x} instead of {:#06x}", ham(w)));
                ctx.check(c & 0x7FF == w, || format!("add_checksum({w:#06x}) = {c:#06x} changes the data"));
                codes.push(c);
            }
            Ok(Err(e)) if w < 2048 => ctx.fail(format!("add_checksum({w:#06x}) is rejected: {e:?}")),
            Ok(Ok(c)) => ctx.fail(format!("add_checksum({w:#06x}) is accepted and gives {c:#06x}")),
            Ok(Err(_)) => {}
        }
    }
    for (i, a) in codes.iter().enumerate() {
        for b in &codes[..i] {
            if (a ^ b).count_ones() < 4 {
                ctx.fail(format!("the code words {a:#06x} and {b:#06x} differ in {} bits", (a ^ b).count_ones()));
                break;
            }
        }
        if ctx.violated() {
            break;
        }
    }
    ctx.count("code_word_pairs", (codes.len() * codes.len().saturating_sub(1) / 2) as u64);
    // What every word has to decode to.
    let mut want: Vec<Option<u16>> = vec![None; 65536];
    for d in 0..2048u16 {
        let c = ham(d);
        want[c as usize] = Some(d);
        for b in 0..16 {
            want[(c ^ 1 << b) as usize] = Some(d);
        }
    }
    let (mut exact, mut fixed, mut bad) = (0, 0, 0);
    for w in 0..=65535u16 {
        let got = match guard(|| validate_checksum(w)) {
            Ok(g) => g,
            Err(e) => {
                ctx.fail(format!("validate_checksum({w:#06x}): {e}"));
                continue;
            }
        };
        match (want[w as usize], got) {
            (Some(d), Ok(g)) if d == g => {
                if ham(d) == w {
                    exact += 1
                } else {
                    fixed += 1
                }
            }
            (None, Err(LibraryError::Checksum(x))) if x == w => {
                bad += 1;
                // The message names the word as well.
                let text = LibraryError::Checksum(x).to_string();
                if !text.to_lowercase().contains(&format!("{w:04x}")) && !text.contains(&w.to_string()) {
                    ctx.fail(format!("validate_checksum({w:#06x}): the error reads \"{text}\""));
                }
            }
            (Some(d), g) => ctx.fail(format!("validate_checksum({w:#06x}) is {g:?} instead of {d:#05x}")),
            (None, g) => ctx.fail(format!("validate_checksum({w:#06x}) is {g:?} instead of a checksum error naming it")),
        }
    }
    ctx.st(65536 * 2);
    ctx.tr(65536 * 2);
    ctx.tv(65536 * 2);
    ctx.count("valid_words", exact);
    ctx.count("corrected_words", fixed);
    ctx.count("rejected_words", bad);
    ctx.sample("validate_checksum(w) for w = 0x0000..0xFFFF against the nearest code word");
}
