//! Camera contents used by the checks, and helpers to run image calls.
use crate::ctx::guard;
use crate::dev::{self, Dev, Model, World, RAM_MAX};
use crate::drv::{Drv, Op, Ret};
use crate::num::Ram;
use std::sync::Arc;

fn words(b: &[u8]) -> Vec<u16> {
    b.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect()
}
pub fn bytes(w: &[u16]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn ee640_datasheet() -> Vec<u16> {
    words(include_bytes!("../data/ee640_datasheet.bin"))
}
pub fn ee640_example() -> Vec<u16> {
    words(include_bytes!("../data/ee640_example.bin"))
}
pub fn ee641_datasheet() -> Vec<u16> {
    words(include_bytes!("../data/ee641_datasheet.bin"))
}
pub fn ram640_f0() -> Vec<u16> {
    words(include_bytes!("../data/ram640_f0.bin"))
}
pub fn ram640_f1() -> Vec<u16> {
    words(include_bytes!("../data/ram640_f1.bin"))
}
pub fn ram640_datasheet() -> Vec<u16> {
    words(include_bytes!("../data/ram640_datasheet.bin"))
}
pub fn ram641_datasheet() -> Vec<u16> {
    words(include_bytes!("../data/ram641_datasheet.bin"))
}

/// A fixed, reproducible scrambling of an index.
pub fn mix(i: u64) -> u64 {
    let mut z = i.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// The datasheet EEPROM with every feature in use: thermal gradient compensation, interleave
/// corrections, different values for all rows, columns and pixels.
pub fn ee640_rich() -> Vec<u16> {
    let mut e = ee640_datasheet();
    for i in 0x12..0x20 {
        e[i] = (mix(i as u64) & 0xFFFF) as u16 & 0x7777;
    }
    for i in 0x22..0x30 {
        e[i] = (mix(i as u64 + 99) & 0x3333) as u16;
    }
    e[0x35] = (5 << 11) | (29 << 6) | 37; // interleave corrections of both signs
    e[0x34] = 0x7B4D; // four different K_V
    e[0x3A] = 0x3CAE; // compensation pixel offset and delta
    e[0x39] = 0x1457;
    e[0x3B] = 0x0B13;
    e[0x3C] = 0x0A1C; // K_S_Ta, TGC
    for p in 0..768 {
        let m = mix(p as u64 + 12345);
        // Offset, sensitivity and K_Ta remainders, never zero.
        e[0x40 + p] = ((m & 0xFC0E) as u16) | 0x0010 | ((m >> 20) as u16 & 0x01E0);
    }
    e
}

/// Reference encoder of the MLX90641 code, written from the parity table of the documentation.
pub fn ham(data: u16) -> u16 {
    let d = |i: u32| (data >> i) & 1;
    let p0 = d(10) ^ d(8) ^ d(6) ^ d(4) ^ d(3) ^ d(1) ^ d(0);
    let p1 = d(10) ^ d(9) ^ d(6) ^ d(5) ^ d(3) ^ d(2) ^ d(0);
    let p2 = d(10) ^ d(9) ^ d(8) ^ d(7) ^ d(3) ^ d(2) ^ d(1);
    let p3 = d(10) ^ d(9) ^ d(8) ^ d(7) ^ d(6) ^ d(5) ^ d(4);
    let w = data | p0 << 11 | p1 << 12 | p2 << 13 | p3 << 14;
    w | ((w.count_ones() as u16 & 1) << 15)
}

/// The datasheet EEPROM of the MLX90641 with different values everywhere.
pub fn ee641_rich() -> Vec<u16> {
    let mut e = ee641_datasheet();
    for p in 0..192 {
        let m = mix(p as u64 + 777);
        e[0x40 + p] = ham(((m & 0x1F) as u16).wrapping_sub(12) & 0x7FF);
        e[0x100 + p] = ham(0x500 + (m >> 8 & 0x1FF) as u16);
        e[0x1C0 + p] = ham((m >> 20 & 0x7FF) as u16 & 0x7FF | 0x20);
        e[0x280 + p] = ham(((m >> 34 & 0x1F) as u16).wrapping_sub(17) & 0x7FF);
    }
    for i in 0..6 {
        e[0x1C + i] = ham(0x480 + 0x31 * i as u16);
    }
    e[0x2F] = ham(0x7FC); // compensation pixel offset, high bits
    e[0x30] = ham(0x11);
    e[0x33] = ham(0x400 | 0x1E5); // TGC -27/64
    for (i, k) in [0x522u16, 0x519, 0x531, 0x527, 0x50F].iter().enumerate() {
        e[0x35 + i] = ham(*k);
    }
    e
}

pub fn eeproms(m: Model) -> Vec<(&'static str, Arc<Vec<u16>>)> {
    match m {
        Model::M640 => vec![
            ("datasheet", Arc::new(ee640_datasheet())),
            ("example", Arc::new(ee640_example())),
            ("rich", Arc::new(ee640_rich())),
        ],
        Model::M641 => vec![
            ("datasheet", Arc::new(ee641_datasheet())),
            ("rich", Arc::new(ee641_rich())),
        ],
    }
}
pub fn base_ee(m: Model) -> Arc<Vec<u16>> {
    match m {
        Model::M640 => Arc::new(ee640_rich()),
        Model::M641 => Arc::new(ee641_rich()),
    }
}
pub fn base_ram(m: Model) -> Vec<u16> {
    let mut r = match m {
        Model::M640 => ram640_f0(),
        Model::M641 => ram641_datasheet(),
    };
    // Make neighbouring pixels and the two subpages clearly different.
    let n = match m {
        Model::M640 => 768,
        Model::M641 => 384,
    };
    for i in 0..n {
        r[i] = r[i].wrapping_add((mix(i as u64) % 600) as u16).wrapping_sub(300);
    }
    // Give both compensation pixels plausible, different values.
    for s in 0..2 {
        let a = (m.cp(s) - dev::RAM_BASE) as usize;
        if r[a] == 0 {
            r[a] = 0xFFCA;
        }
        r[a] = r[a].wrapping_add(23 * s as u16);
    }
    r
}
/// A second and third frame that differ from the first one in every word.
pub fn frame_ram(m: Model, k: u64) -> [u16; RAM_MAX] {
    let mut f = [0u16; RAM_MAX];
    let b = base_ram(m);
    f[..b.len()].copy_from_slice(&b);
    if k > 0 {
        let n = if m == Model::M640 { 768 } else { 384 };
        for (i, w) in f.iter_mut().enumerate().take(n) {
            *w = w.wrapping_add(97 * k as u16 + (mix(i as u64 + 1000 * k) % 64) as u16);
        }
        for a in [m.vbe(), m.ptat(), m.gain(), m.vdd(), m.cp(0), m.cp(1)] {
            let i = (a - dev::RAM_BASE) as usize;
            f[i] = f[i].wrapping_add(11 * k as u16);
        }
    }
    f
}

/// Frames that are not those of an ordinary scene.
pub const ODD: u8 = 16;
pub fn odd_frames(m: Model) -> Vec<dev::Frame> {
    let at = |a: u16| (a - dev::RAM_BASE) as usize;
    let f = |ram: [u16; RAM_MAX]| dev::Frame { ram };
    let with = |l: &[(u16, u16)]| {
        let mut r = frame_ram(m, 1);
        for (a, v) in l {
            r[at(*a)] = *v;
        }
        f(r)
    };
    let near = |a: u16, by: u16| {
        let mut r = frame_ram(m, 1);
        r[at(a)] = r[at(a)].wrapping_add(by);
        f(r)
    };
    let mut hot = frame_ram(m, 1);
    for w in hot.iter_mut().take(300) {
        *w = 0x7FFF;
    }
    let mut dark = frame_ram(m, 1);
    let keep = [m.vbe(), m.ptat(), m.gain(), m.vdd(), m.cp(0), m.cp(1)].map(|a| (a, dark[at(a)]));
    dark = [0; RAM_MAX];
    for (a, v) in keep {
        dark[at(a)] = v;
    }
    let same = frame_ram(m, 1)[at(m.cp(0))];
    let v = vec![
        f([0; RAM_MAX]), // no gain, no PTAT: everything is NaN
        f([0x8000; RAM_MAX]),
        f(hot),
        // One step of one word away from frame 1.
        near(m.ptat(), 1),
        near(m.vdd(), 1),
        near(m.vbe(), 1),
        near(m.gain(), 1),
        near(m.cp(0), 1),
        near(m.cp(1), 1),
        // Single words of zero.
        with(&[(m.gain(), 0)]),
        with(&[(m.ptat(), 0)]),
        with(&[(m.vdd(), 0)]),
        with(&[(m.vbe(), 0)]),
        with(&[(m.cp(0), 0), (m.cp(1), 0)]),
        // Both subpages with the same shared words.
        with(&[(m.cp(0), same), (m.cp(1), same)]),
        // No radiation.
        f(dark),
    ];
    assert_eq!(v.len(), ODD as usize);
    v
}

pub fn dev(m: Model, ee: &Arc<Vec<u16>>) -> Dev {
    Dev::new(m, 0x33, ee.clone(), &base_ram(m))
}

/// The words of the simulated camera that belong to a frame of the given subpage.
pub fn ram_of(d: &Dev, sp: u8) -> Ram {
    let m = d.model;
    Ram {
        vbe: d.word(m.vbe()) as i16,
        ptat: d.word(m.ptat()) as i16,
        vdd: d.word(m.vdd()) as i16,
        gain: d.word(m.gain()) as i16,
        cp: d.word(m.cp(sp)) as i16,
    }
}

pub const S1: f32 = f32::from_bits(0x7FD5_A5A5);
pub const S2: f32 = -12345.678;

/// What an image call did to the destination.
#[derive(Clone, Debug, PartialEq)]
pub struct Img {
    pub ret: Ret,
    /// The bits of each element that was stored, `None` for untouched ones.
    pub px: Vec<Option<u32>>,
    pub ambient: Option<u32>,
}
impl Img {
    pub fn mask(&self) -> Vec<bool> {
        self.px.iter().map(|p| p.is_some()).collect()
    }
}

/// Run an image call on copies of the driver and the world with two different destination
/// contents.  The returned driver and world are those after the call.
pub fn image(drv: &Drv, w: &World, op: Op, len: usize) -> Result<(Img, Drv, World), String> {
    // The second destination lies inside a larger buffer, at another alignment.
    let one = |s: f32, at: usize| -> Result<(Ret, Vec<f32>, Drv, World), String> {
        let mut d = drv.clone();
        let mut buf = vec![s; at + len];
        dev::install(w.clone());
        let r = guard(|| d.op(op, &mut buf[at..]));
        buf.drain(..at);
        let w2 = dev::take();
        Ok((r?, buf, d, w2))
    };
    let (r1, b1, mut d1, w1) = one(S1, 0)?;
    let (r2, b2, mut d2, _) = one(S2, 1 + len % 7)?;
    if r1 != r2 || d1.ambient().map(f32::to_bits) != d2.ambient().map(f32::to_bits) {
        return Err(format!("{op:?}: result depends on the destination's content: {r1:?} vs. {r2:?}"));
    }
    let mut px = Vec::with_capacity(len);
    for i in 0..len {
        let (x, y) = (b1[i].to_bits(), b2[i].to_bits());
        if x == S1.to_bits() && y == S2.to_bits() {
            px.push(None);
        } else if x == y {
            px.push(Some(x));
        } else if f32::from_bits(x).is_nan() && f32::from_bits(y).is_nan() && x != S1.to_bits() {
            px.push(Some(x));
        } else {
            return Err(format!(
                "{op:?}: destination element {i} depends on its previous content ({x:#010x} vs. {y:#010x})"
            ));
        }
    }
    let ambient = d1.ambient().map(f32::to_bits);
    Ok((Img { ret: r1, px, ambient }, d1, w1))
}

/// Equal, where all NaNs count as the same value.
pub fn same_bits(a: u32, b: u32) -> bool {
    a == b || f32::from_bits(a).is_nan() && f32::from_bits(b).is_nan()
}
pub fn same_px(a: &[Option<u32>], b: &[Option<u32>]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err("different lengths".into());
    }
    for i in 0..a.len() {
        let ok = match (a[i], b[i]) {
            (None, None) => true,
            (Some(x), Some(y)) => same_bits(x, y),
            _ => false,
        };
        if !ok {
            let f = |x: Option<u32>| x.map(f32::from_bits);
            return Err(format!("element {i}: {:?} vs. {:?}", f(a[i]), f(b[i])));
        }
    }
    Ok(())
}
pub fn same_img(a: &Img, b: &Img) -> Result<(), String> {
    if a.ret != b.ret {
        return Err(format!("result {:?} vs. {:?}", a.ret, b.ret));
    }
    same_px(&a.px, &b.px)?;
    let ok = match (a.ambient, b.ambient) {
        (None, None) => true,
        (Some(x), Some(y)) => same_bits(x, y),
        _ => false,
    };
    if !ok {
        return Err(format!(
            "ambient temperature {:?} vs. {:?}",
            a.ambient.map(f32::from_bits),
            b.ambient.map(f32::from_bits)
        ));
    }
    Ok(())
}

/// Contents of a destination: special values, and values in the neighbourhood of the given image's.
pub fn contents(like: &[f32]) -> Vec<(String, Vec<f32>)> {
    let mut out: Vec<(String, Vec<f32>)> = vec![];
    let n = like.len();
    for b in [
        0u32, 0x8000_0000, 1, 0x8000_0001, 0x007F_FFFF, 0x7F80_0000, 0xFF80_0000, 0x7F7F_FFFF, 0xFF7F_FFFF, 0x7FA0_0001, 0xFFA0_0001, 0xFFC0_0123,
        0x7FC0_0000,
    ] {
        out.push((format!("bits {b:#010x}"), vec![f32::from_bits(b); n]));
    }
    for v in [0.1f32, 1.0, -1.0, 25.0, 36.6, -40.0, -273.15, 273.15, 1e-3, 1e5] {
        out.push((format!("{v}"), vec![v; n]));
    }
    out.push(("the image".into(), like.to_vec()));
    for d in [-1i32, 1, -3, 3] {
        out.push((format!("the image {d:+} steps"), like.iter().map(|x| f32::from_bits(x.to_bits().wrapping_add(d as u32))).collect()));
    }
    for d in [1e-4f32, 1e-3, 4e-3, 0.015, 0.04, 0.09, 0.2, 0.45, 0.9, 1.8, 4.5, 9.0, 40.0] {
        for d in [d, -d] {
            out.push((format!("the image {d:+}"), like.iter().map(|x| x + d).collect()));
            out.push((format!("the image times {}", 1.0 + d), like.iter().map(|x| x * (1.0 + d)).collect()));
        }
    }
    out.push(("the negated image".into(), like.iter().map(|x| -x).collect()));
    out.push(("the image in part".into(), like.iter().enumerate().map(|(i, x)| if i % 3 == 0 { S2 } else { *x }).collect()));
    out.push(("the image shifted".into(), (0..n).map(|i| like[(i + 1) % n]).collect()));
    out
}

/// Attach a driver to a device inside a fresh world.
pub fn attach(d: Dev) -> Result<(Drv, World), String> {
    let (m, a) = (d.model, d.addr);
    dev::install(World::new(d));
    let r = guard(|| Drv::new(m, a));
    let w = dev::take();
    match r? {
        Ok(d) => Ok((d, w)),
        Err(e) => Err(format!("constructing the driver failed: {e:?}")),
    }
}

/// Run a sequence of calls that produce no image.
pub fn run_ops(drv: &mut Drv, w: World, ops: &[Op]) -> Result<World, String> {
    dev::install(w);
    let r = guard(|| {
        for o in ops {
            let r = drv.q(*o);
            if r.is_err() {
                return Err(format!("{o:?} failed: {r:?}"));
            }
        }
        Ok(())
    });
    let w = dev::take();
    r??;
    Ok(w)
}

/// The result of one run of an image call.
#[derive(Clone, Debug)]
pub struct Shot {
    pub ret: Ret,
    pub px: Vec<f32>,
    pub ambient: Option<f32>,
}
/// Run an image call once on copies of the driver and the world.
pub fn shot(drv: &Drv, w: &World, op: Op, len: usize) -> Result<Shot, String> {
    let mut d = drv.clone();
    shot_mut(&mut d, w.clone(), op, len).map(|x| x.0)
}
pub fn shot_mut(d: &mut Drv, w: World, op: Op, len: usize) -> Result<(Shot, World), String> {
    let mut px = vec![S1; len];
    dev::install(w);
    let r = guard(|| d.op(op, &mut px));
    let w = dev::take();
    Ok((Shot { ret: r?, px, ambient: d.ambient() }, w))
}

/// A calibration, a driver for it attached to a camera, and the calibration's values.
#[derive(Clone)]
pub struct Rig {
    pub name: String,
    pub model: Model,
    pub drv: Drv,
    pub world: World,
    pub cal: Arc<crate::cal::Cal>,
}
fn decode(m: Model, ee: &[u16]) -> crate::cal::Cal {
    let b = bytes(ee);
    match m {
        Model::M640 => crate::cal::extract(
            m,
            &mlx9064x::mlx90640::Mlx90640Calibration::from_data(&b).expect("the EEPROM is valid"),
        ),
        Model::M641 => crate::cal::extract(
            m,
            &mlx9064x::mlx90641::Mlx90641Calibration::from_data(&b).expect("the EEPROM is valid"),
        ),
    }
}
/// The calibration values of a model's base EEPROM.
pub fn base_cal(m: Model) -> crate::cal::Cal {
    decode(m, &base_ee(m))
}
/// A user-defined calibration in which everything differs between pixels and subpages.
pub fn user_tables(m: Model) -> crate::cal::Tables {
    let mut t = crate::cal::Tables::of(&base_cal(m)).vary(m);
    if m == Model::M640 {
        t.emissivity = Some(0.89);
    }
    t
}
/// The values of user-defined tables.
pub fn cal_of(m: Model, t: &crate::cal::Tables) -> crate::cal::Cal {
    use crate::cal::{extract, UserCal};
    let a = Arc::new(crate::cal::Tables { endless: false, ..t.clone() });
    match (m, t.provided) {
        (Model::M640, false) => extract(m, &UserCal::<0>(a)),
        (Model::M641, false) => extract(m, &UserCal::<1>(a)),
        (Model::M640, true) => extract(m, &UserCal::<2>(a)),
        (Model::M641, true) => extract(m, &UserCal::<3>(a)),
    }
}
pub fn attach_user(d: Dev, t: &crate::cal::Tables) -> Result<(Drv, World), String> {
    let (m, a) = (d.model, d.addr);
    dev::install(World::new(d));
    let r = guard(|| Drv::user(m, a, Arc::new(t.clone())));
    let w = dev::take();
    r?.map(|d| (d, w)).map_err(|e| format!("constructing the driver failed: {e:?}"))
}
/// A rig for an EEPROM.
pub fn rig(m: Model, name: &str, ee: &Arc<Vec<u16>>, f: impl FnOnce(&mut Dev)) -> Result<Rig, String> {
    let mut d = dev(m, ee);
    f(&mut d);
    let (drv, world) = attach(d)?;
    let cal = guard(|| decode(m, ee))?;
    Ok(Rig { name: format!("{} {name}", m.name()), model: m, drv, world, cal: Arc::new(cal) })
}
/// A rig for a user-defined calibration.
pub fn rig_user(m: Model, name: &str, t: &crate::cal::Tables, f: impl FnOnce(&mut Dev)) -> Result<Rig, String> {
    let mut d = dev(m, &base_ee(m));
    f(&mut d);
    let (drv, world) = attach_user(d, t)?;
    let cal = guard(|| cal_of(m, t))?;
    Ok(Rig { name: format!("{} {name}", m.name()), model: m, drv, world, cal: Arc::new(cal) })
}
pub fn set_control(d: &mut Dev, pat: u8, res: u8) {
    d.control = d.control & !0x1C00 | (pat as u16) << 12 | (res as u16) << 10;
}
/// The camera announces a subpage.
pub fn announce(d: &mut Dev, sp: u8) {
    d.status = d.status & !7 | sp as u16 | dev::ST_NEW;
}
impl Drv {
    /// Run a call that produces no image in the given world.
    pub fn q_in(&mut self, w: &mut Option<World>, op: Op) -> Option<Ret> {
        dev::install(w.take()?);
        let r = guard(|| self.q(op));
        *w = Some(dev::take());
        r.ok()
    }
}

/// Every way of stepping through an iterator gives the elements that calling `next` gives:
/// `nth` and `step_by` from every one of a number of positions, counting, internal iteration.
/// Returns the number of comparisons.
pub fn iterator<T, K, I>(what: &str, make: impl Fn() -> I, key: impl Fn(T) -> K, want: &[K], full: bool) -> Result<u64, String>
where
    K: PartialEq + std::fmt::Debug,
    I: Iterator<Item = T>,
{
    let n = want.len();
    let mut count = 0;
    // Some sequences go on forever.
    let ends = make().take(n + 1).count() == n;
    let starts: Vec<usize> = (0..=n).filter(|a| full || *a < 5 || a % 32 < 2 || a % 97 == 0 || a + 3 > n).collect();
    for &a in &starts {
        let at = || {
            let mut i = make();
            for w in &want[..a] {
                if i.next().map(&key).as_ref() != Some(w) {
                    return Err(format!("{what}: next gives something else the second time"));
                }
            }
            Ok(i)
        };
        let i = at()?;
        let (lo, hi) = i.size_hint();
        if hi.is_some_and(|h| h < n - a || lo > h) || lo > n - a && hi.is_some() {
            return Err(format!("{what}: size hint ({lo}, {hi:?}) with {} elements left", n - a));
        }
        if hi.is_some() {
            let c = i.count();
            if c != n - a {
                return Err(format!("{what}: {c} elements counted after {a} of {n}"));
            }
            if at()?.last().map(&key).as_ref() != want[a..].last() {
                return Err(format!("{what}: the last element after {a} steps is another one"));
            }
        }
        if ends && at()?.take(n + 1).count() != n - a {
            return Err(format!("{what}: not {} elements left after {a} steps", n - a));
        }
        let mut k = a;
        let mut bad = None;
        at()?.take(n - a).for_each(|x| {
            if want.get(k) != Some(&key(x)) {
                bad.get_or_insert(k);
            }
            k += 1;
        });
        if bad.is_some() || k != n {
            return Err(format!("{what}: internal iteration after {a} steps differs at {bad:?}, {k} of {n} elements"));
        }
        for b in 0..n - a {
            let mut i = at()?;
            if i.nth(b).map(&key).as_ref() != Some(&want[a + b]) {
                return Err(format!("{what}: nth({b}) after {a} steps is not element {}", a + b));
            }
            if a + b + 1 < n && i.next().map(&key).as_ref() != Some(&want[a + b + 1]) {
                return Err(format!("{what}: next after nth({b}) after {a} steps is not element {}", a + b + 1));
            }
            if ends && (a < 2 || full && a % 5 == 0) {
                let left = i.take(n + 1).count() + (a + b + 1 < n) as usize;
                if left != n - a - b - 1 {
                    return Err(format!("{what}: {left} elements left after {a} steps and nth({b})"));
                }
            }
            count += 2;
        }
        if a < 3 {
            for s in 1..=n.min(100) {
                let mut w = want[a..].iter().step_by(s);
                let same = at()?.take(n - a).step_by(s).all(|x| w.next() == Some(&key(x)));
                if !same || w.next().is_some() {
                    return Err(format!("{what}: step_by({s}) after {a} steps"));
                }
                count += 1;
            }
        }
    }
    Ok(count)
}

/// A cyclic sequence over `k` letters in which every three neighbours occur (length k^3).
pub fn de_bruijn3(k: usize) -> Vec<usize> {
    fn go(t: usize, p: usize, k: usize, a: &mut [usize; 4], out: &mut Vec<usize>) {
        if t > 3 {
            if 3 % p == 0 {
                out.extend(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        go(t + 1, p, k, a, out);
        for j in a[t - p] + 1..k {
            a[t] = j;
            go(t + 1, t, k, a, out);
        }
    }
    let mut out = vec![];
    go(1, 1, k, &mut [0; 4], &mut out);
    assert_eq!(out.len(), k * k * k);
    out
}
/// Runs of pixels: from every pixel on, single pixels, pairs, (parts of) rows and whole images.
pub fn runs(width: usize, pixels: usize, all: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for a in 0..pixels {
        for b in a + 1..=pixels {
            let n = b - a;
            if all || n <= 3 || n == width / 2 || n == width - 1 || n == width || n == width + 1 || b == pixels && a % 5 == 0 || a == 0 && b % 5 == 0 || a % width == 0 && b % width == 0 {
                v.push((a, b));
            }
        }
    }
    v
}
