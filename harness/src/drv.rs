//! Drivers, their calls and the results of those calls, independent of the camera model.
use crate::cal::UserCal;
use crate::dev::{Bus, Model, RdErr, WrErr};
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::mlx90641::Mlx90641Calibration;
use mlx9064x::{
    AccessPattern, CameraDriver, Error, FrameRate, LibraryError, Mlx90640Driver, Mlx90641Driver,
    Resolution, Subpage,
};

pub type D640 = Mlx90640Driver<Bus>;
pub type D641 = Mlx90641Driver<Bus>;
pub type U640 = CameraDriver<UserCal<0>, Bus, 24, 1536>;
pub type U641 = CameraDriver<UserCal<1>, Bus, 12, 384>;
pub type P640 = CameraDriver<UserCal<2>, Bus, 24, 1536>;
pub type P641 = CameraDriver<UserCal<3>, Bus, 12, 384>;

#[derive(Clone, Debug)]
pub enum Drv {
    A(Box<D640>),
    B(Box<D641>),
    C(Box<U640>),
    D(Box<U641>),
    E(Box<P640>),
    F(Box<P641>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    LastSubpage,
    DataAvailable,
    ResetData,
    GetOverwrite,
    SetOverwrite(bool),
    GetSubpages,
    SetSubpages(bool),
    GetHold,
    SetHold(bool),
    GetRepeat,
    SetRepeat(bool),
    GetSel,
    SetSel(u8),
    GetRate,
    SetRate(u8),
    GetRes,
    SetRes(u8),
    GetPat,
    SetPat(u8),
    Emissivity,
    Override(f32),
    DefaultEmissivity,
    Reflected,
    SetReflected(Option<f32>),
    Ambient,
    Dims,
    Raw(u8),
    Temp(u8),
    Image,
    IfReady,
    Sync,
}

impl Op {
    pub fn is_image(&self) -> bool {
        matches!(self, Op::Raw(_) | Op::Temp(_) | Op::Image | Op::IfReady)
    }
    pub const GETTERS: [Op; 10] = [
        Op::LastSubpage,
        Op::DataAvailable,
        Op::GetOverwrite,
        Op::GetSubpages,
        Op::GetHold,
        Op::GetRepeat,
        Op::GetSel,
        Op::GetRate,
        Op::GetRes,
        Op::GetPat,
    ];
    pub fn setters() -> Vec<Op> {
        let mut v = vec![];
        for b in [false, true] {
            v.extend([Op::SetOverwrite(b), Op::SetSubpages(b), Op::SetHold(b), Op::SetRepeat(b)]);
        }
        for i in 0..2 {
            v.extend([Op::SetSel(i), Op::SetPat(i)]);
        }
        for i in 0..4 {
            v.push(Op::SetRes(i));
        }
        for i in 0..8 {
            v.push(Op::SetRate(i));
        }
        v
    }
    pub const LOCAL: [Op; 9] = [
        Op::Emissivity,
        Op::Override(0.75),
        Op::Override(1.0),
        Op::DefaultEmissivity,
        Op::Reflected,
        Op::SetReflected(Some(30.5)),
        Op::SetReflected(None),
        Op::Ambient,
        Op::Dims,
    ];
    pub const IMAGES: [Op; 6] =
        [Op::Raw(0), Op::Raw(1), Op::Temp(0), Op::Temp(1), Op::Image, Op::IfReady];
    /// Every call with every discrete argument.
    pub fn all() -> Vec<Op> {
        let mut v = Op::GETTERS.to_vec();
        v.push(Op::ResetData);
        v.extend(Op::setters());
        v.extend(Op::LOCAL);
        v.extend(Op::IMAGES);
        v.push(Op::Sync);
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ret {
    Unit,
    Bool(bool),
    Num(u32),
    Sub(Option<u8>),
    /// Floats are compared by their bits.
    F(u32),
    OptF(Option<u32>),
    Dims(usize, usize),
    Read(u32),
    Write(u32),
    Checksum(u16),
    Invalid,
    Other,
}
impl Ret {
    pub fn is_err(&self) -> bool {
        matches!(self, Ret::Read(_) | Ret::Write(_) | Ret::Checksum(_) | Ret::Invalid | Ret::Other)
    }
    pub fn is_bus_err(&self) -> bool {
        matches!(self, Ret::Read(_) | Ret::Write(_))
    }
}

pub fn sp(i: u8) -> Subpage {
    if i == 0 {
        Subpage::Zero
    } else {
        Subpage::One
    }
}
pub fn sp_num(s: Subpage) -> u8 {
    match s {
        Subpage::Zero => 0,
        Subpage::One => 1,
    }
}
pub fn pat(i: u8) -> AccessPattern {
    if i == 0 {
        AccessPattern::Interleave
    } else {
        AccessPattern::Chess
    }
}
pub fn pat_num(p: AccessPattern) -> u8 {
    match p {
        AccessPattern::Interleave => 0,
        AccessPattern::Chess => 1,
    }
}
pub const RATES: [FrameRate; 8] = [
    FrameRate::Half,
    FrameRate::One,
    FrameRate::Two,
    FrameRate::Four,
    FrameRate::Eight,
    FrameRate::Sixteen,
    FrameRate::ThirtyTwo,
    FrameRate::SixtyFour,
];
pub const RESOLUTIONS: [Resolution; 4] = [
    Resolution::Sixteen,
    Resolution::Seventeen,
    Resolution::Eighteen,
    Resolution::Nineteen,
];
pub fn rate_num(r: FrameRate) -> u8 {
    RATES.iter().position(|x| *x == r).unwrap() as u8
}
pub fn res_num(r: Resolution) -> u8 {
    RESOLUTIONS.iter().position(|x| *x == r).unwrap() as u8
}

pub fn lib_ret(e: &LibraryError) -> Ret {
    match e {
        LibraryError::Checksum(w) => Ret::Checksum(*w),
        LibraryError::InvalidData(_) => Ret::Invalid,
        LibraryError::Other(_) => Ret::Other,
    }
}
/// The first bus error whose `std::error::Error` side does not lead back to it (C15).
pub static SOURCE_LOST: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

#[cfg(feature = "std")]
fn check_source(e: &Error<Bus>) {
    use std::error::Error as _;
    let ok = match e {
        Error::I2cWriteReadError(x) => e.source().and_then(|s| s.downcast_ref::<RdErr>()) == Some(x),
        Error::I2cWriteError(x) => e.source().and_then(|s| s.downcast_ref::<WrErr>()) == Some(x),
        Error::LibraryError(_) => true,
    };
    // Both texts tell which bus error it was.
    let text = match e {
        Error::I2cWriteReadError(RdErr(n)) => n.to_string(),
        Error::I2cWriteError(WrErr(n)) => n.to_string(),
        Error::LibraryError(_) => String::new(),
    };
    let (shown, debug) = (format!("{e}"), format!("{e:?}"));
    if !ok || shown.is_empty() || !shown.contains(&text) || !debug.contains(&text) {
        let mut l = SOURCE_LOST.lock().unwrap();
        l.get_or_insert_with(|| format!("{e:?}: source() gives {:?}, displayed as \"{e}\"", e.source()));
    }
}
#[cfg(not(feature = "std"))]
fn check_source(_: &Error<Bus>) {}

pub fn err_ret(e: &Error<Bus>) -> Ret {
    check_source(e);
    match e {
        Error::I2cWriteReadError(RdErr(n)) => Ret::Read(*n),
        Error::I2cWriteError(WrErr(n)) => Ret::Write(*n),
        Error::LibraryError(l) => lib_ret(l),
    }
}
fn unit(r: Result<(), Error<Bus>>) -> Ret {
    match r {
        Ok(()) => Ret::Unit,
        Err(e) => err_ret(&e),
    }
}
fn map<T>(r: Result<T, Error<Bus>>, f: impl FnOnce(T) -> Ret) -> Ret {
    match r {
        Ok(v) => f(v),
        Err(e) => err_ret(&e),
    }
}

macro_rules! each {
    ($self:expr, $d:ident => $e:expr) => {
        match $self {
            Drv::A($d) => $e,
            Drv::B($d) => $e,
            Drv::C($d) => $e,
            Drv::D($d) => $e,
            Drv::E($d) => $e,
            Drv::F($d) => $e,
        }
    };
}

impl Drv {
    /// Attach to the camera, reading its EEPROM.
    pub fn new(model: Model, addr: u8) -> Result<Drv, Ret> {
        match model {
            Model::M640 => D640::new(Bus, addr).map(|d| Drv::A(Box::new(d))),
            Model::M641 => D641::new(Bus, addr).map(|d| Drv::B(Box::new(d))),
        }
        .map_err(|e| err_ret(&e))
    }
    pub fn with640(addr: u8, c: Mlx90640Calibration) -> Result<Drv, Ret> {
        D640::new_with_calibration(Bus, addr, c)
            .map(|d| Drv::A(Box::new(d)))
            .map_err(|e| err_ret(&e))
    }
    pub fn with641(addr: u8, c: Mlx90641Calibration) -> Result<Drv, Ret> {
        D641::new_with_calibration(Bus, addr, c)
            .map(|d| Drv::B(Box::new(d)))
            .map_err(|e| err_ret(&e))
    }
    pub fn user640(addr: u8, c: UserCal<0>) -> Result<Drv, Ret> {
        U640::new_with_calibration(Bus, addr, c)
            .map(|d| Drv::C(Box::new(d)))
            .map_err(|e| err_ret(&e))
    }
    pub fn user641(addr: u8, c: UserCal<1>) -> Result<Drv, Ret> {
        U641::new_with_calibration(Bus, addr, c)
            .map(|d| Drv::D(Box::new(d)))
            .map_err(|e| err_ret(&e))
    }
    /// A driver for a user-defined calibration.
    pub fn user(model: Model, addr: u8, t: std::sync::Arc<crate::cal::Tables>) -> Result<Drv, Ret> {
        match (model, t.provided) {
            (Model::M640, false) => Drv::user640(addr, UserCal(t)),
            (Model::M641, false) => Drv::user641(addr, UserCal(t)),
            (Model::M640, true) => P640::new_with_calibration(Bus, addr, UserCal(t))
                .map(|d| Drv::E(Box::new(d)))
                .map_err(|e| err_ret(&e)),
            (Model::M641, true) => P641::new_with_calibration(Bus, addr, UserCal(t))
                .map(|d| Drv::F(Box::new(d)))
                .map_err(|e| err_ret(&e)),
        }
    }
    pub fn model(&self) -> Model {
        match self {
            Drv::A(_) | Drv::C(_) | Drv::E(_) => Model::M640,
            Drv::B(_) | Drv::D(_) | Drv::F(_) => Model::M641,
        }
    }
    pub fn op(&mut self, op: Op, dest: &mut [f32]) -> Ret {
        each!(self, d => match op {
            Op::LastSubpage => map(d.last_measured_subpage(), |s| Ret::Sub(Some(sp_num(s)))),
            Op::DataAvailable => map(d.data_available(), |s| Ret::Sub(s.map(sp_num))),
            Op::ResetData => unit(d.reset_data_available()),
            Op::GetOverwrite => map(d.overwrite_enabled(), Ret::Bool),
            Op::SetOverwrite(b) => unit(d.set_overwrite_enabled(b)),
            Op::GetSubpages => map(d.subpages_enabled(), Ret::Bool),
            Op::SetSubpages(b) => unit(d.set_use_subpages(b)),
            Op::GetHold => map(d.data_hold_enabled(), Ret::Bool),
            Op::SetHold(b) => unit(d.set_data_hold(b)),
            Op::GetRepeat => map(d.subpage_repeat(), Ret::Bool),
            Op::SetRepeat(b) => unit(d.set_subpage_repeat(b)),
            Op::GetSel => map(d.selected_subpage(), |s| Ret::Sub(Some(sp_num(s)))),
            Op::SetSel(s) => unit(d.set_subpage(sp(s))),
            Op::GetRate => map(d.frame_rate(), |r| Ret::Num(rate_num(r) as u32)),
            Op::SetRate(r) => unit(d.set_frame_rate(RATES[r as usize])),
            Op::GetRes => map(d.resolution(), |r| Ret::Num(res_num(r) as u32)),
            Op::SetRes(r) => unit(d.set_resolution(RESOLUTIONS[r as usize])),
            Op::GetPat => map(d.access_pattern(), |p| Ret::Num(pat_num(p) as u32)),
            Op::SetPat(p) => unit(d.set_access_pattern(pat(p))),
            Op::Emissivity => Ret::F(d.effective_emissivity().to_bits()),
            Op::Override(e) => {
                d.override_emissivity(e);
                Ret::Unit
            }
            Op::DefaultEmissivity => {
                d.use_default_emissivity();
                Ret::Unit
            }
            Op::Reflected => Ret::OptF(d.reflected_temperature().map(f32::to_bits)),
            Op::SetReflected(t) => {
                d.set_reflected_temperature(t);
                Ret::Unit
            }
            Op::Ambient => Ret::OptF(d.ambient_temperature().map(f32::to_bits)),
            Op::Dims => Ret::Dims(d.height(), d.width()),
            Op::Raw(s) => unit(d.generate_raw_image_subpage_to(sp(s), dest)),
            Op::Temp(s) => unit(d.generate_image_subpage_to(sp(s), dest)),
            Op::Image => unit(d.generate_image_to(dest)),
            Op::IfReady => map(d.generate_image_if_ready(dest), Ret::Bool),
            Op::Sync => unit(d.synchronize()),
        })
    }
    /// A call that does not produce an image.
    pub fn q(&mut self, op: Op) -> Ret {
        self.op(op, &mut [])
    }
    pub fn ambient(&mut self) -> Option<f32> {
        match self.q(Op::Ambient) {
            Ret::OptF(o) => o.map(f32::from_bits),
            _ => None,
        }
    }
    /// A fingerprint of the complete driver state.
    pub fn fingerprint(&self) -> u64 {
        use std::fmt::Write;
        struct H(u64);
        impl Write for H {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                for b in s.as_bytes() {
                    self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
                }
                Ok(())
            }
        }
        let mut h = H(0xcbf29ce484222325);
        each!(self, d => write!(h, "{:?}", d).unwrap());
        h.0
    }
}
