//! Uniform wrapper around the real library objects. Nothing here has behaviour of its own.

use linalg::common::LinalgError;
use open_ahrs::accelerometer::{Accelerometer, AccelerometerConfig};
use open_ahrs::aqua::{Aqua, Mode};
use open_ahrs::ar::AR;
use open_ahrs::common::{NumericalIntegrationMethod as NIM, OpenAHRSError as E};
use open_ahrs::davenport::Davenport;
use open_ahrs::gyrometer::{Gyrometer, GyrometerConfig};
use open_ahrs::magnetometer::{Magnetometer, MagnetometerConfig};
use std::cell::Cell;
use utils::utils::UtilsError;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Kind {
    Ar,
    Marg,
    Am,
    Dav,
    Gyr,
    Acc,
    Mag,
}

pub const KINDS: [Kind; 7] = [Kind::Ar, Kind::Marg, Kind::Am, Kind::Dav, Kind::Gyr, Kind::Acc, Kind::Mag];

impl Kind {
    pub fn is_sensor(self) -> bool {
        matches!(self, Kind::Gyr | Kind::Acc | Kind::Mag)
    }
    pub fn has_attitude(self) -> bool {
        matches!(self, Kind::Ar | Kind::Marg | Kind::Am)
    }
    /// Which of gyrometer, accelerometer, magnetometer the node consumes.
    pub fn uses(self, s: usize) -> bool {
        match self {
            Kind::Ar | Kind::Gyr => s == 0,
            Kind::Marg => true,
            Kind::Am | Kind::Dav => s > 0,
            Kind::Acc => s == 1,
            Kind::Mag => s == 2,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Kind::Ar => "ar",
            Kind::Marg => "marg",
            Kind::Am => "am",
            Kind::Dav => "dav",
            Kind::Gyr => "gyr",
            Kind::Acc => "acc",
            Kind::Mag => "mag",
        }
    }
    pub fn from_name(s: &str) -> Option<Kind> {
        KINDS.iter().copied().find(|k| k.name() == s)
    }
}

/// Calibration: scale x,y,z; cross factors xy,xz,yx,yz,zx,zy; bias x,y,z.
pub type Cal = [f32; 12];
pub const CAL_ID: Cal = [1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];

/// Every argument of an initialisation.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cfg {
    pub kind: Kind,
    pub method: u8,
    pub order: u8,
    pub ts: f32,
    pub q: [Option<f32>; 4],
    pub gyr_cfg: bool,
    pub adaptive: bool,
    pub alpha: f32,
    pub beta: f32,
    pub t1: f32,
    pub t2: f32,
    pub t_acc: f32,
    pub t_mag: f32,
    pub g: Option<f32>,
    pub h: Option<f32>,
    pub w1: f32,
    pub w2: f32,
    pub mdip: Option<f32>,
    pub cal: [Cal; 3],
}

/// One raw sample: gyrometer axes may be missing.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Smp {
    pub g: [Option<f32>; 3],
    pub a: [f32; 3],
    pub m: [f32; 3],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u16)]
pub enum Code {
    GyrNotInit = 1,
    GyrAlreadyInit,
    AccNotInit,
    AccAlreadyInit,
    MagNotInit,
    MagAlreadyInit,
    ArNotInit,
    ArAlreadyInit,
    ArMethod,
    AquaNotInit,
    AquaAlreadyInit,
    NoGyroConfig,
    InvalidQuat,
    InvalidInterp,
    InvalidGainThr,
    NoGyro,
    InvalidGyro,
    DavNotInit,
    DavAlreadyInit,
    DavWeights,
    Nan,
    Inf,
    InvalidAlpha,
    NotInit,
    Linalg,
    Other,
}

pub type Res<T> = Result<T, Code>;

fn lcode(e: LinalgError) -> Code {
    match e {
        LinalgError::UtilsError(UtilsError::Nan) => Code::Nan,
        LinalgError::UtilsError(UtilsError::Inf) => Code::Inf,
        LinalgError::InvalidAlpha => Code::InvalidAlpha,
        LinalgError::NotInit => Code::NotInit,
        _ => Code::Linalg,
    }
}

pub fn code(e: E) -> Code {
    match e {
        E::GyrNotInit => Code::GyrNotInit,
        E::GyrAlreadyInit => Code::GyrAlreadyInit,
        E::AccNotInit => Code::AccNotInit,
        E::AccAlreadyInit => Code::AccAlreadyInit,
        E::MagNotInit => Code::MagNotInit,
        E::MagAlreadyInit => Code::MagAlreadyInit,
        E::ARFilterAlreadyInit => Code::ArAlreadyInit,
        E::ARFilterNotInit => Code::ArNotInit,
        E::ARMethodError => Code::ArMethod,
        E::AquaFilterAlreadyInit => Code::AquaAlreadyInit,
        E::AquaFilterNotInit => Code::AquaNotInit,
        E::NoGyroconfig => Code::NoGyroConfig,
        E::InvalidInitQuaternion => Code::InvalidQuat,
        E::InvalidAquaInterpolationTreshold => Code::InvalidInterp,
        E::InvalidAdaptiveGainTresholds => Code::InvalidGainThr,
        E::NoGyroRawMeasurements => Code::NoGyro,
        E::InvalidGyroRawMeasurements => Code::InvalidGyro,
        E::DavenportFilterAlreadyInit => Code::DavAlreadyInit,
        E::InvalidDavenportWeights => Code::DavWeights,
        E::DavenportFilterNotInit => Code::DavNotInit,
        E::LinalgError(e) => lcode(e),
        _ => Code::Other,
    }
}

thread_local! {
    /// True while library code runs: tells a panic of the library from one of the simulator.
    pub static IN_REAL: Cell<bool> = const { Cell::new(false) };
}

/// Runs library code with the marker set.
pub fn real<T>(f: impl FnOnce() -> T) -> T {
    IN_REAL.with(|c| c.set(true));
    let r = f();
    IN_REAL.with(|c| c.set(false));
    r
}

/// A sensor that needs no correction is given the library's default calibration.
fn plain(c: &Cal) -> bool {
    c.map(f32::to_bits) == CAL_ID.map(f32::to_bits)
}

pub fn gyr_cfg(c: &Cal) -> GyrometerConfig {
    if plain(c) {
        return GyrometerConfig::default();
    }
    GyrometerConfig {
        x_axis_scale_correction: c[0],
        y_axis_scale_correction: c[1],
        z_axis_scale_correction: c[2],
        xy_axes_misalignment_correction: c[3],
        xz_axes_misalignment_correction: c[4],
        yx_axes_misalignment_correction: c[5],
        yz_axes_misalignment_correction: c[6],
        zx_axes_misalignment_correction: c[7],
        zy_axes_misalignment_correction: c[8],
        x_axis_static_bias: c[9],
        y_axis_static_bias: c[10],
        z_axis_static_bias: c[11],
    }
}

pub fn acc_cfg(c: &Cal) -> AccelerometerConfig {
    if plain(c) {
        return AccelerometerConfig::default();
    }
    AccelerometerConfig {
        x_axis_scale_correction: c[0],
        y_axis_scale_correction: c[1],
        z_axis_scale_correction: c[2],
        xy_axes_misalignment_correction: c[3],
        xz_axes_misalignment_correction: c[4],
        yx_axes_misalignment_correction: c[5],
        yz_axes_misalignment_correction: c[6],
        zx_axes_misalignment_correction: c[7],
        zy_axes_misalignment_correction: c[8],
        x_axis_static_bias: c[9],
        y_axis_static_bias: c[10],
        z_axis_static_bias: c[11],
    }
}

pub fn mag_cfg(c: &Cal) -> MagnetometerConfig {
    if plain(c) {
        return MagnetometerConfig::default();
    }
    MagnetometerConfig {
        x_axis_scale_correction: c[0],
        y_axis_scale_correction: c[1],
        z_axis_scale_correction: c[2],
        xy_soft_iron_correction: c[3],
        xz_soft_iron_correction: c[4],
        yx_soft_iron_correction: c[5],
        yz_soft_iron_correction: c[6],
        zx_soft_iron_correction: c[7],
        zy_soft_iron_correction: c[8],
        x_axis_hard_iron_bias: c[9],
        y_axis_hard_iron_bias: c[10],
        z_axis_hard_iron_bias: c[11],
    }
}

fn from_gyr(c: &GyrometerConfig) -> Cal {
    [
        c.x_axis_scale_correction,
        c.y_axis_scale_correction,
        c.z_axis_scale_correction,
        c.xy_axes_misalignment_correction,
        c.xz_axes_misalignment_correction,
        c.yx_axes_misalignment_correction,
        c.yz_axes_misalignment_correction,
        c.zx_axes_misalignment_correction,
        c.zy_axes_misalignment_correction,
        c.x_axis_static_bias,
        c.y_axis_static_bias,
        c.z_axis_static_bias,
    ]
}

fn from_acc(c: &AccelerometerConfig) -> Cal {
    [
        c.x_axis_scale_correction,
        c.y_axis_scale_correction,
        c.z_axis_scale_correction,
        c.xy_axes_misalignment_correction,
        c.xz_axes_misalignment_correction,
        c.yx_axes_misalignment_correction,
        c.yz_axes_misalignment_correction,
        c.zx_axes_misalignment_correction,
        c.zy_axes_misalignment_correction,
        c.x_axis_static_bias,
        c.y_axis_static_bias,
        c.z_axis_static_bias,
    ]
}

fn from_mag(c: &MagnetometerConfig) -> Cal {
    [
        c.x_axis_scale_correction,
        c.y_axis_scale_correction,
        c.z_axis_scale_correction,
        c.xy_soft_iron_correction,
        c.xz_soft_iron_correction,
        c.yx_soft_iron_correction,
        c.yz_soft_iron_correction,
        c.zx_soft_iron_correction,
        c.zy_soft_iron_correction,
        c.x_axis_hard_iron_bias,
        c.y_axis_hard_iron_bias,
        c.z_axis_hard_iron_bias,
    ]
}

pub const METHODS: [&str; 5] = ["closed-form", "taylor", "euler", "adams-bashforth", "runge-kutta"];

pub fn method(m: u8) -> NIM {
    match m {
        0 => NIM::ClosedForm,
        1 => NIM::TaylorSeries,
        2 => NIM::Euler,
        3 => NIM::AdamsBashforth,
        _ => NIM::RungeKutta,
    }
}

pub enum Obj {
    Ar(AR),
    Aqua(Aqua),
    Dav(Davenport),
    Gyr(Gyrometer),
    Acc(Accelerometer),
    Mag(Magnetometer),
}

pub struct Real {
    pub kind: Kind,
    pub obj: Obj,
}

fn err<T>(r: Result<T, E>) -> Res<T> {
    r.map_err(code)
}

impl Real {
    pub fn new(kind: Kind) -> Res<Real> {
        let obj = real(|| -> Result<Obj, E> {
            Ok(match kind {
                Kind::Ar => Obj::Ar(AR::new()?),
                Kind::Marg | Kind::Am => Obj::Aqua(Aqua::new()?),
                Kind::Dav => Obj::Dav(Davenport::new()?),
                Kind::Gyr => Obj::Gyr(Gyrometer::new()?),
                Kind::Acc => Obj::Acc(Accelerometer::new()?),
                Kind::Mag => Obj::Mag(Magnetometer::new()?),
            })
        });
        Ok(Real { kind, obj: err(obj)? })
    }

    /// A new object initialised with `c`.
    pub fn start(c: &Cfg) -> Res<Real> {
        let mut r = Real::new(c.kind)?;
        r.init(c)?;
        Ok(r)
    }

    pub fn init(&mut self, c: &Cfg) -> Res<()> {
        let marg = c.kind == Kind::Marg;
        let obj = &mut self.obj;
        err(real(|| match obj {
            Obj::Ar(f) => f.init(
                c.q[0].unwrap_or(f32::NAN),
                c.q[1].unwrap_or(f32::NAN),
                c.q[2].unwrap_or(f32::NAN),
                c.q[3].unwrap_or(f32::NAN),
                &gyr_cfg(&c.cal[0]),
                c.ts,
                method(c.method),
                c.order,
            ),
            Obj::Aqua(f) => {
                let g = gyr_cfg(&c.cal[0]);
                f.init(
                    if marg { Mode::MARG } else { Mode::AM },
                    c.q[0],
                    c.q[1],
                    c.q[2],
                    c.q[3],
                    if c.gyr_cfg { Some(&g) } else { None },
                    &acc_cfg(&c.cal[1]),
                    &mag_cfg(&c.cal[2]),
                    c.ts,
                    c.adaptive,
                    c.alpha,
                    c.beta,
                    c.t1,
                    c.t2,
                    c.t_acc,
                    c.t_mag,
                    c.g,
                    c.h,
                )
            }
            Obj::Dav(f) => f.init(c.w1, c.w2, c.g, c.mdip),
            Obj::Gyr(s) => s.init(&gyr_cfg(&c.cal[0])),
            Obj::Acc(s) => s.init(&acc_cfg(&c.cal[1])),
            Obj::Mag(s) => s.init(&mag_cfg(&c.cal[2])),
        }))
    }

    pub fn update(&mut self, s: &Smp) -> Res<()> {
        let obj = &mut self.obj;
        let n = f32::NAN;
        err(real(|| match obj {
            Obj::Ar(f) => f.update(s.g[0].unwrap_or(n), s.g[1].unwrap_or(n), s.g[2].unwrap_or(n)),
            Obj::Aqua(f) => {
                f.update(s.g[0], s.g[1], s.g[2], s.a[0], s.a[1], s.a[2], s.m[0], s.m[1], s.m[2])
            }
            Obj::Dav(f) => f.update(s.a[0], s.a[1], s.a[2], s.m[0], s.m[1], s.m[2]),
            Obj::Gyr(d) => d.update(s.g[0].unwrap_or(n), s.g[1].unwrap_or(n), s.g[2].unwrap_or(n)),
            Obj::Acc(d) => d.update(s.a[0], s.a[1], s.a[2]),
            Obj::Mag(d) => d.update(s.m[0], s.m[1], s.m[2]),
        }))
    }

    /// Attitude quaternion (w, x, y, z). Only for kinds with `has_attitude`.
    pub fn attitude(&self) -> Res<[f32; 4]> {
        let obj = &self.obj;
        real(|| {
            let v = match obj {
                Obj::Ar(f) => f.get_attitude(),
                Obj::Aqua(f) => f.get_attitude(),
                _ => return Err(Code::Other),
            }
            .map_err(code)?;
            let mut q = [0f32; 4];
            for (i, x) in q.iter_mut().enumerate() {
                *x = v.get_element(i as u8).map_err(lcode)?;
            }
            Ok(q)
        })
    }

    /// Reads the attitude and scribbles over the copy handed out.
    pub fn attitude_and_scribble(&self) -> Res<()> {
        let obj = &self.obj;
        real(|| {
            let mut v = match obj {
                Obj::Ar(f) => f.get_attitude(),
                Obj::Aqua(f) => f.get_attitude(),
                _ => return Ok(()),
            }
            .map_err(code)?;
            v.fill(7.0).map_err(lcode)?;
            Ok(())
        })
    }

    pub fn set_cal(&mut self, s: usize, c: &Cal) -> Res<()> {
        let obj = &mut self.obj;
        err(real(|| match (obj, s) {
            (Obj::Aqua(f), 0) => f.set_gyrometer_config(&gyr_cfg(c)),
            (Obj::Aqua(f), 1) => f.set_accelerometer_config(&acc_cfg(c)),
            (Obj::Aqua(f), 2) => f.set_magnetometer_config(&mag_cfg(c)),
            (Obj::Gyr(d), 0) => d.set_config(&gyr_cfg(c)),
            (Obj::Acc(d), 1) => d.set_config(&acc_cfg(c)),
            (Obj::Mag(d), 2) => d.set_config(&mag_cfg(c)),
            _ => Ok(()),
        }))
    }

    /// True when the object lets one set and read the calibration of sensor `s`.
    pub fn has_cal(kind: Kind, s: usize) -> bool {
        match kind {
            Kind::Marg | Kind::Am => true,
            Kind::Gyr => s == 0,
            Kind::Acc => s == 1,
            Kind::Mag => s == 2,
            _ => false,
        }
    }

    pub fn get_cal(&mut self, s: usize) -> Res<Cal> {
        let obj = &mut self.obj;
        real(|| match (obj, s) {
            (Obj::Aqua(f), 0) => f.get_gyrometer_config().map(|c| from_gyr(&c)).map_err(code),
            (Obj::Aqua(f), 1) => f.get_accelerometer_config().map(|c| from_acc(&c)).map_err(code),
            (Obj::Aqua(f), 2) => f.get_magnetometer_config().map(|c| from_mag(&c)).map_err(code),
            (Obj::Gyr(d), 0) => d.get_config().map(|c| from_gyr(&c)).map_err(code),
            (Obj::Acc(d), 1) => d.get_config().map(|c| from_acc(&c)).map_err(code),
            (Obj::Mag(d), 2) => d.get_config().map(|c| from_mag(&c)).map_err(code),
            _ => Err(Code::Other),
        })
    }

    /// The three corrected readings of a stand-alone sensor. An error only counts as one when all
    /// three axes agree on it.
    pub fn reading(&self) -> Res<[f32; 3]> {
        let obj = &self.obj;
        let r = real(|| match obj {
            Obj::Gyr(d) => Some([d.get_x_angular_rate(), d.get_y_angular_rate(), d.get_z_angular_rate()]),
            Obj::Acc(d) => Some([d.get_x_acceleration(), d.get_y_acceleration(), d.get_z_acceleration()]),
            Obj::Mag(d) => Some([d.get_x_magnetic_field(), d.get_y_magnetic_field(), d.get_z_magnetic_field()]),
            _ => None,
        });
        match r.map(|r| r.map(|x| x.map_err(code))) {
            Some([Ok(x), Ok(y), Ok(z)]) => Ok([x, y, z]),
            Some([Err(x), Err(y), Err(z)]) if x == y && y == z => Err(x),
            _ => Err(Code::Other),
        }
    }

    /// What the node shows to the outside: attitude or corrected readings, bit for bit.
    pub fn view(&self) -> Res<[u32; 4]> {
        if self.kind.has_attitude() {
            self.attitude().map(|q| [q[0].to_bits(), q[1].to_bits(), q[2].to_bits(), q[3].to_bits()])
        } else if self.kind.is_sensor() {
            self.reading().map(|q| [q[0].to_bits(), q[1].to_bits(), q[2].to_bits(), 0])
        } else {
            Ok([0; 4])
        }
    }

    /// Everything the node can be asked about its calibrations, bit for bit.
    pub fn cal_view(&mut self) -> [Option<Res<[u32; 12]>>; 3] {
        let k = self.kind;
        [0usize, 1, 2].map(|s| {
            if Real::has_cal(k, s) {
                Some(self.get_cal(s).map(|c| c.map(|x| x.to_bits())))
            } else {
                None
            }
        })
    }
}
