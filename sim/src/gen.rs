//! Turns (property, seed, run index) into an explicit trace. All randomness is spent here.

use crate::cont;
use crate::math::*;
use crate::real::{Cal, Cfg, Kind, Smp, CAL_ID};
use crate::rng::Rng;
use crate::trace::{Ev, Fault, Trace};

/// How a property's runs are put together.
pub struct Prof {
    pub kinds: &'static [Kind],
    pub max_nodes: u64,
    /// Probability that a run uses settings from anywhere rather than documented ones.
    pub wild_cfg: f64,
    /// Probability that a run contains arbitrary raw samples.
    pub raw: f64,
    /// Probability of early samples, repeated and bad initialisations.
    pub lifecycle: f64,
    pub crash: f64,
    pub recal: f64,
    pub bad_cal: f64,
    pub read: f64,
    /// Probability that transport faults and sensor faults are on at all.
    pub faults: f64,
    /// Extra weight of the dead-sensor fault.
    pub dead: f64,
    /// The run ends with a phase without disturbances.
    pub quiet: bool,
    /// Every run in `long_every` is longer than 65536 updates.
    pub long_every: u64,
}

const BASE: Prof = Prof {
    kinds: &[Kind::Ar, Kind::Marg, Kind::Am],
    max_nodes: 2,
    wild_cfg: 0.15,
    raw: 0.4,
    lifecycle: 0.1,
    crash: 0.15,
    recal: 0.2,
    bad_cal: 0.1,
    read: 0.1,
    faults: 0.85,
    dead: 0.0,
    quiet: false,
    long_every: 2003,
};

use Kind::*;

pub fn profile(prop: &str) -> Prof {
    match prop {
        "P01" => Prof { ..BASE },
        "P02" => Prof { kinds: &[Ar, Marg, Am, Gyr, Acc, Mag], ..BASE },
        "P03" => Prof { kinds: &[Ar, Marg, Am, Gyr, Acc, Mag, Dav], raw: 0.6, ..BASE },
        "P04" => Prof { kinds: &[Ar, Marg, Am, Marg, Am, Ar, Gyr, Acc, Mag, Dav], wild_cfg: 0.0, dead: 0.3, ..BASE },
        "P05" => Prof { kinds: &[Ar], wild_cfg: 0.02, bad_cal: 0.0, recal: 0.0, ..BASE },
        "P06" => {
            Prof { kinds: &[Marg], wild_cfg: 0.0, max_nodes: 1, quiet: true, raw: 0.2, dead: 0.2, ..BASE }
        }
        "P07" => Prof { kinds: &[Marg], wild_cfg: 0.02, ..BASE },
        "P08" => Prof { kinds: &[Am], wild_cfg: 0.05, ..BASE },
        "P09" => Prof { kinds: &[Marg], wild_cfg: 0.0, ..BASE },
        "P10" => Prof { kinds: &[Marg, Marg, Am], wild_cfg: 0.02, ..BASE },
        "P11" => Prof { kinds: &[Ar, Marg, Am, Marg, Gyr, Acc, Mag], crash: 1.0, recal: 0.4, ..BASE },
        "P12" => Prof { kinds: &[Ar, Marg, Am, Marg, Dav, Gyr, Acc, Mag], max_nodes: 5, read: 0.9, recal: 0.4, ..BASE },
        "P13" => Prof { kinds: &[Gyr, Acc, Mag, Marg, Am, Ar], recal: 0.9, bad_cal: 0.3, wild_cfg: 0.1, ..BASE },
        "P14" => Prof { kinds: &[Gyr, Acc, Mag, Marg, Am], recal: 0.8, bad_cal: 0.8, ..BASE },
        "P15" => Prof { kinds: &[Ar, Marg, Am, Dav, Gyr, Acc, Mag], lifecycle: 1.0, recal: 0.4, bad_cal: 0.3, max_nodes: 3, ..BASE },
        "P17" => Prof {
            kinds: &[Ar, Marg, Am, Dav, Gyr, Acc, Mag],
            wild_cfg: 0.6,
            raw: 0.8,
            lifecycle: 0.4,
            max_nodes: 3,
            ..BASE
        },
        "P18" => Prof { kinds: &[Marg, Am], wild_cfg: 0.0, dead: 1.0, ..BASE },
        "P19" | "P20" | "P22" | "P23" => Prof { kinds: &[Ar, Marg, Marg, Am], wild_cfg: 0.02, recal: 0.3, ..BASE },
        "P21" => Prof { kinds: &[Marg], wild_cfg: 0.02, ..BASE },
        "P25" => Prof { kinds: &[Ar, Marg, Marg], wild_cfg: 0.02, ..BASE },
        "P26" => Prof {
            kinds: &[Ar, Marg, Marg, Am, Gyr, Acc, Mag, Dav],
            lifecycle: 0.5,
            bad_cal: 0.5,
            wild_cfg: 0.0,
            ..BASE
        },
        "P24" => Prof { kinds: &[Ar, Ar, Marg], wild_cfg: 0.02, recal: 0.3, ..BASE },
        _ => Prof { ..BASE },
    }
}

/// Attitudes with exact or nearly exact components: aligned axes, half turns, quarter turns.
fn special_q(r: &mut Rng) -> Q {
    let h = std::f64::consts::FRAC_1_SQRT_2;
    loop {
        let q: Q = match r.below(4) {
            0 => {
                let mut q = [0.0; 4];
                q[r.below(4) as usize] = r.pick(&[1.0, -1.0]);
                q
            }
            1 => {
                let mut q = [0.0; 4];
                q[r.below(4) as usize] = r.pick(&[h, -h]);
                q[r.below(4) as usize] = r.pick(&[h, -h]);
                q
            }
            2 => [0; 4].map(|_| r.pick(&[0.5, -0.5])),
            _ => {
                // Pure heading, often exactly south or a hair off it.
                let a = r.pick(&[0.0, std::f64::consts::PI, std::f64::consts::PI + 1e-4, -3.1415, 1.5707963, 2.0, -2.5]);
                [(a / 2.0).cos(), 0.0, 0.0, (a / 2.0).sin()]
            }
        };
        if (qnorm(q) - 1.0).abs() < 1e-9 {
            return q;
        }
    }
}

fn any_q(r: &mut Rng) -> Q {
    if r.p(0.4) {
        special_q(r)
    } else {
        r.quat()
    }
}

pub fn mild_cal(r: &mut Rng, bias: f64) -> Cal {
    let mut c = CAL_ID;
    match r.below(4) {
        0 => return c,
        1 => {
            for x in c.iter_mut().skip(9) {
                *x = r.uni(-bias, bias) as f32;
            }
        }
        2 => {
            for x in c.iter_mut().take(3) {
                *x = r.uni(0.7, 1.4) as f32;
            }
            for x in c.iter_mut().take(9).skip(3) {
                *x = r.uni(-0.2, 0.2) as f32;
            }
        }
        _ => {
            for x in c.iter_mut().take(3) {
                *x = r.uni(0.7, 1.4) as f32;
            }
            for x in c.iter_mut().take(9).skip(3) {
                *x = r.uni(-0.2, 0.2) as f32;
            }
            for x in c.iter_mut().skip(9) {
                *x = r.uni(-bias, bias) as f32;
            }
        }
    }
    c
}

fn finite_cal(r: &mut Rng) -> Cal {
    let mut c = CAL_ID;
    let big = r.p(0.3);
    for x in c.iter_mut() {
        *x = if big && r.p(0.3) {
            r.wild_finite()
        } else if r.p(0.3) {
            r.pick(&[0.0, 1.0, -1.0, 0.5, 2.0])
        } else {
            (r.gauss() * 2.0) as f32
        };
    }
    c
}

fn broken_cal(r: &mut Rng, from: Cal) -> Cal {
    let mut c = if r.p(0.5) { finite_cal(r) } else { from };
    let k = 1 + r.below(2);
    for _ in 0..k {
        c[r.below(12) as usize] = r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
    }
    // Make the part before the broken coefficient visibly different.
    for x in c.iter_mut() {
        if x.is_finite() && r.p(0.5) {
            *x += 0.25;
        }
    }
    c
}

const BIAS: [f64; 3] = [0.5, 2.0, 20.0];

fn any_cal(r: &mut Rng, s: usize, wild: bool) -> Cal {
    if wild && r.p(0.5) {
        finite_cal(r)
    } else if r.p(0.1) {
        CAL_ID
    } else {
        mild_cal(r, BIAS[s])
    }
}

pub fn gen_cfg(r: &mut Rng, kind: Kind, ts: f32, truth: Q, wild: bool, prop: &str) -> Cfg {
    let unit = |r: &mut Rng, dflt: f32| -> f32 {
        match r.below(8) {
            0 => 0.0,
            1 => 1.0,
            2 | 3 => dflt,
            4 => r.log(1e-3, 1.0) as f32,
            5 => 0.5,
            _ => r.f() as f32,
        }
    };
    // The gyro-only filter estimates local to global, the fusion filters global to local.
    let truth = if kind == Kind::Ar { truth } else { qconj(truth) };
    let q = match r.below(10) {
        0 | 1 if kind != Kind::Ar => None,
        2..=4 => Some(truth),
        5 | 6 => Some(special_q(r)),
        7 => Some(qunit(qmul(truth, special_q(r)))),
        8 => Some(qunit(qmul(truth, qexp(vscale(r.dir(), r.log(1e-6, 0.1)), 1.0)))),
        _ => Some(r.quat()),
    };
    let q = match q {
        Some(q) => q32(q).map(Some),
        None => [None; 4],
    };
    let (mut alpha, mut beta) = (unit(r, 0.01), unit(r, 0.01));
    if prop == "P06" {
        alpha = r.pick(&[0.02, 0.05, 0.1, 0.3, 0.5, 0.9, 1.0]);
        beta = r.pick(&[0.02, 0.05, 0.1, 0.3, 0.5, 0.9, 1.0]);
    }
    if prop == "P09" && alpha == 0.0 {
        alpha = 0.5;
    }
    let (t1, t2) = match r.below(6) {
        0 => (0.0, r.uni(0.01, 0.5)),
        1 => (r.uni(0.0, 0.5), r.uni(0.6, 3.0)),
        2 => {
            let a = r.uni(0.0, 0.3);
            (a, a + r.log(1e-4, 0.3))
        }
        _ => (0.1, 0.2),
    };
    let mut c = Cfg {
        kind,
        method: r.below(3) as u8,
        order: match r.below(5) {
            0 => 1,
            1 => 2,
            2 => r.range(3, 8) as u8,
            3 => r.range(0, 25) as u8,
            _ => r.pick(&[1u8, 2, 3, 4, 20, 21, 22, 34, 35, 60, 100, 254, 255]),
        },
        ts,
        q,
        gyr_cfg: kind == Kind::Marg || r.p(0.3),
        adaptive: prop == "P09" || r.p(0.5),
        alpha,
        beta,
        t1: t1 as f32,
        t2: t2 as f32,
        t_acc: unit(r, 0.9),
        t_mag: unit(r, 0.9),
        g: if r.p(0.5) { None } else { Some(r.pick(&[9.81f32, 9.81, 1.0, 9.7])) },
        h: if r.p(0.6) { None } else { Some(r.pick(&[48.0f32, 1.0, 50.0])) },
        w1: r.uni(0.1, 1.0) as f32,
        w2: r.pick(&[1.0, 0.5, 0.001]),
        mdip: if r.p(0.5) { None } else { Some(r.uni(-1.5, 1.5) as f32) },
        cal: [any_cal(r, 0, false), any_cal(r, 1, false), any_cal(r, 2, false)],
    };
    if wild {
        for _ in 0..1 + r.below(3) {
            match r.below(13) {
                0 => c.ts = r.wild(),
                1 => c.alpha = r.wild(),
                2 => c.beta = r.wild(),
                3 => c.t1 = r.wild(),
                4 => c.t2 = r.wild(),
                5 => c.t_acc = r.wild(),
                6 => c.t_mag = r.wild(),
                7 => c.g = Some(r.wild()),
                8 => c.h = Some(r.wild()),
                9 => c.q = [(); 4].map(|_| Some(r.wild_finite())),
                10 => {
                    c.method = r.below(5) as u8;
                    c.order = r.u64() as u8;
                }
                11 => {
                    c.mdip = Some(r.wild());
                    c.w1 = r.wild();
                }
                _ => {
                    let s = r.below(3) as usize;
                    c.cal[s] = finite_cal(r);
                }
            }
        }
    }
    c
}

/// Puts one setting out of its range, mostly by little.
fn spoil_setting(r: &mut Rng, c: &mut Cfg) {
    let off = r.pick(&[
        1.0 + f32::EPSILON,
        -f32::MIN_POSITIVE,
        -f32::EPSILON,
        1.001,
        -0.001,
        1.5,
        -1.0,
        2.0,
        100.0,
        f32::NAN,
        f32::INFINITY,
        f32::NEG_INFINITY,
        f32::MAX,
    ]);
    if c.kind == Kind::Ar {
        c.method = 3 + r.below(2) as u8;
        return;
    }
    match r.below(7) {
        0 => c.alpha = off,
        1 => c.beta = off,
        2 => c.t_acc = off,
        3 => c.t_mag = off,
        k => {
            c.adaptive = true;
            match k {
                4 => c.t2 = c.t1,
                5 if c.t1 > 0.0 => c.t2 = f32::from_bits(c.t1.to_bits() - 1),
                5 => c.t2 = -f32::MIN_POSITIVE,
                _ => match r.below(4) {
                    0 => std::mem::swap(&mut c.t1, &mut c.t2),
                    1 => c.t1 = f32::NAN,
                    2 => c.t2 = f32::NAN,
                    _ => c.t2 = r.pick(&[0.0, -1.0, f32::NEG_INFINITY]).min(c.t1),
                },
            }
        }
    }
}

/// Makes one thing about the settings unacceptable.
fn break_cfg(r: &mut Rng, mut c: Cfg) -> Cfg {
    let used: Vec<usize> = (0..3).filter(|s| c.kind.uses(*s)).collect();
    match (c.kind, r.below(4)) {
        (Kind::Marg, 0) => c.gyr_cfg = false,
        (Kind::Marg | Kind::Am, 1) => {
            if c.q[0].is_none() {
                c.q = [Some(1.0), Some(0.0), Some(0.0), Some(0.0)];
            }
            c.q[r.below(4) as usize] = None;
        }
        (Kind::Marg | Kind::Am | Kind::Ar, 2) => {
            if c.q[0].is_none() {
                c.q = [Some(1.0), Some(0.0), Some(0.0), Some(0.0)];
            }
            c.q[r.below(4) as usize] = Some(r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]));
        }
        (Kind::Dav, k) => {
            let bad = r.pick(&[0.0, -1.0, 1.5, f32::NAN, f32::INFINITY]);
            if k % 2 == 0 {
                c.w1 = bad;
            } else {
                c.w2 = bad;
            }
        }
        _ => {
            let s = r.pick(&used);
            c.cal[s] = broken_cal(r, c.cal[s]);
        }
    }
    c
}

/// Probabilities of the sample faults of one run (swarm: most kinds are off in any one run).
struct Swarm {
    p: [f64; 9],
    lost: f64,
    jitter: f64,
    burst: bool,
}

fn swarm(r: &mut Rng, on: bool, dead: f64) -> Swarm {
    let mut p = [0.0; 9];
    let level = |r: &mut Rng, on: bool| if on && r.p(0.4) { r.pick(&[0.01, 0.05, 0.2, 0.5]) } else { 0.0 };
    for x in p.iter_mut() {
        *x = level(r, on);
    }
    p[3] = if r.p(dead) { r.pick(&[0.05, 0.2, 0.6]) } else { p[3] * 0.3 };
    Swarm { p, lost: level(r, on), jitter: level(r, on), burst: r.p(0.3) }
}

fn sample_faults(r: &mut Rng, sw: &Swarm, kind: Kind, out: &mut Vec<Fault>) {
    let used: Vec<u8> = (0..3u8).filter(|s| kind.uses(*s as usize)).collect();
    let pick_s = |r: &mut Rng| if r.p(0.9) { r.pick(&used) } else { r.below(3) as u8 };
    for (k, p) in sw.p.iter().enumerate() {
        if *p == 0.0 || !r.p(*p) {
            continue;
        }
        let s = pick_s(r);
        let f = match k {
            0 => Fault::Set { s, ax: r.below(3) as u8, v: r.wild() },
            1 => Fault::Flip { s, ax: r.below(3) as u8, bit: r.below(32) as u8 },
            2 => Fault::Stuck { s },
            3 => Fault::Dead { s },
            4 => Fault::Gain { s, f: r.pick(&[0.5f32, 0.9, 1.05, 1.12, 1.15, 1.3, 2.0, -1.0, 10.0, 1e-3, 0.0]) },
            5 => {
                let m = r.pick(&[1e-3, 0.1, 1.0, 10.0]);
                Fault::Add { s, v: [0; 3].map(|_| (r.gauss() * m) as f32) }
            }
            6 => Fault::Miss { mask: 1 + r.below(7) as u8 },
            7 => Fault::Stale { k: r.below(6) as u8 },
            _ => Fault::Dup,
        };
        out.push(f);
    }
}

fn raw_sample(r: &mut Rng) -> Smp {
    let style = r.below(6);
    let x = |r: &mut Rng, scale: f64| -> f32 {
        match style {
            0 => r.wild(),
            1 => (r.gauss() * scale) as f32,
            2 => r.wild_finite(),
            3 => (r.range(-1, 1) as f64 * scale) as f32,
            4 => {
                if r.p(0.1) {
                    r.wild()
                } else {
                    (r.gauss() * scale) as f32
                }
            }
            _ => (r.gauss() * scale * r.pick(&[1.0, 1e-3, 1e3])) as f32,
        }
    };
    let mut g = [Some(x(r, 1.0)), Some(x(r, 1.0)), Some(x(r, 1.0))];
    if r.p(0.1) {
        g[r.below(3) as usize] = None;
    }
    if r.p(0.05) {
        g = [None; 3];
    }
    Smp { g, a: [x(r, 9.81), x(r, 9.81), x(r, 9.81)], m: [x(r, 48.0), x(r, 48.0), x(r, 48.0)] }
}

/// A sample whose acceleration magnitude sits on one of the thresholds of the adaptive gain, as exactly as
/// single precision allows, or a few steps beside it.
fn threshold_sample(r: &mut Rng, c: &Cfg) -> Smp {
    let g = c.g.unwrap_or(9.81);
    let t = r.pick(&[c.t1, c.t2]);
    let n0 = if r.p(0.5) { g * (1.0 + t) } else { g * (1.0 - t) };
    let step = |k: i32| f32::from_bits((n0.to_bits() as i32).wrapping_add(k) as u32);
    let mut n = step(r.range(-6, 6) as i32);
    for k in [0, 1, -1, 2, -2, 3, -3] {
        if ((step(k) - g) / g).abs() == t && r.p(0.8) {
            n = step(k);
            break;
        }
    }
    let mut s = Smp { g: [0; 3].map(|_| Some((r.gauss() * 0.1) as f32)), a: [0.0; 3], m: [0; 3].map(|_| (r.gauss() * 30.0) as f32) };
    s.a[r.below(3) as usize] = if r.p(0.5) { n } else { -n };
    s
}

pub fn generate(prop: &str, seed: u64, idx: u64) -> Trace {
    let ph = prop.bytes().fold(0u64, |a, b| a * 256 + b as u64);
    let mut r = Rng::new(&[seed, ph, idx]);
    let pf = profile(prop);
    let mut tr = Trace {
        prop: prop.to_string(),
        seed,
        idx,
        q0: QID,
        grav: 9.81,
        field: 48.0,
        dip: 0.0,
        kinds: vec![],
        ev: vec![],
    };
    if matches!(prop, "P16" | "P27") || (prop == "P17" && idx % 2 == 0) {
        cont::generate(&mut r, &mut tr, prop != "P16");
        return tr;
    }
    world(&mut r, &pf, &mut tr);
    tr
}

/// A configuration like the given one, with some of the numbers a little different.
fn near(r: &mut Rng, c: &Cfg, scale: f64) -> Cfg {
    let mut o = *c;
    let mut shift = |x: &mut f32| {
        if r.p(0.3) {
            *x *= (1.0 + scale * r.uni(-1.0, 1.0)) as f32;
        }
    };
    for x in [&mut o.ts, &mut o.alpha, &mut o.beta, &mut o.t1, &mut o.t2, &mut o.t_acc, &mut o.t_mag] {
        shift(x);
    }
    for x in [&mut o.g, &mut o.h].into_iter().flatten() {
        shift(x);
    }
    for x in o.cal.iter_mut().flatten() {
        shift(x);
    }
    o
}

fn world(r: &mut Rng, pf: &Prof, tr: &mut Trace) {
    let prop = tr.prop.clone();
    tr.q0 = any_q(r);
    tr.dip = match r.below(4) {
        0 => 0.0,
        1 => 1.13,
        _ => r.uni(-1.2, 1.2),
    };
    if r.p(0.1) {
        tr.field = 1.0;
    }
    let long = tr.idx % pf.long_every == pf.long_every / 2;
    let nn = if long { 1 } else { 1 + r.below(pf.max_nodes) };
    for _ in 0..nn {
        tr.kinds.push(r.pick(pf.kinds));
    }
    // Two long runs in three are one object's undisturbed service life; all kinds have their turn.
    let lifetime = long && r.p(0.67);
    if long {
        tr.kinds[0] = pf.kinds[(tr.idx / pf.long_every) as usize % pf.kinds.len()];
    }
    let ts = match r.below(6) {
        0 => 0.001,
        1 | 2 => 0.01,
        3 => 0.1,
        4 => 0.005,
        _ if prop != "P06" && r.p(0.2) => r.log(1e-6, 20.0) as f32,
        _ => r.log(5e-4, 1.0) as f32,
    };
    let steps = if long {
        66000 + r.below(600)
    } else if tr.idx % 401 == 200 && prop != "P06" {
        r.log(1500.0, 10000.0) as u64
    } else {
        match r.below(20) {
            0..=8 => r.range(2, 40) as u64,
            9..=16 => r.range(30, 150) as u64,
            17 | 18 => r.range(150, 500) as u64,
            _ => r.range(500, 1500) as u64,
        }
    };
    let wild = r.p(pf.wild_cfg) && !lifetime;
    let mut cfgs: Vec<Cfg> = Vec::new();
    let mut mult: Vec<u64> = Vec::new();
    for k in tr.kinds.clone() {
        let m = if lifetime || r.p(0.75) { 1 } else { r.range(2, 4) as u64 };
        mult.push(m);
        let mut c = gen_cfg(r, k, ts * m as f32, tr.q0, wild, &prop);
        if prop == "P18" || (pf.dead > 0.0 && r.p(0.5)) {
            c.adaptive = c.adaptive && r.p(0.5);
        }
        if (prop == "P25" || prop == "P26" && !k.is_sensor()) && r.p(0.7) {
            spoil_setting(r, &mut c);
        }
        if c.g == Some(1.0) {
            if tr.kinds.len() == 1 {
                tr.grav = 1.0;
            } else {
                c.g = Some(9.81);
            }
        }
        cfgs.push(c);
    }
    if prop == "P12" && nn > 1 && r.p(0.4) {
        // Objects that differ only a little, as the units of a redundant set do.
        let scale = r.pick(&[1e-6, 1e-4, 2e-3, 0.05]);
        for n in 1..nn as usize {
            if r.p(0.7) {
                tr.kinds[n] = tr.kinds[0];
                mult[n] = mult[0];
                cfgs[n] = near(r, &cfgs[0], scale);
            }
        }
    }
    let faults = r.p(pf.faults) && !(long && r.p(0.5));
    let mut sw = swarm(r, faults, pf.dead);
    let raw_p = if r.p(pf.raw) { r.pick(&[0.02, 0.1, 0.5, 1.0]) } else { 0.0 };
    let life_p = if !lifetime && r.p(pf.lifecycle) { r.pick(&[0.02, 0.1, 0.3]) } else { 0.0 };
    let crash_p = if !lifetime && r.p(pf.crash) { r.pick(&[0.005, 0.03, 0.15]) } else { 0.0 };
    if lifetime {
        sw.lost = 0.0;
    }
    let recal_p = if r.p(pf.recal) { r.pick(&[0.01, 0.05, 0.3]) } else { 0.0 };
    let bad_cal = if r.p(pf.bad_cal) { r.pick(&[0.1, 0.5, 0.9]) } else { 0.0 };
    let read_p = if r.p(pf.read) { r.pick(&[0.05, 0.3]) } else { 0.0 };
    let env_p = if faults && r.p(0.4) { r.pick(&[0.01, 0.05, 0.2]) } else { 0.0 };
    let rate = r.pick(&[0.0, 0.02, 0.3, 0.3, 2.0, 2.0, 20.0, 200.0]);
    let change_p = r.pick(&[0.0, 0.02, 0.2, 1.0]);
    let wild_cal = r.p(0.3) && prop != "P06";
    let edge_p = if r.p(if prop == "P09" { 0.4 } else { 0.1 }) { r.pick(&[0.02, 0.2]) } else { 0.0 };
    if edge_p > 0.0 {
        for c in cfgs.iter_mut() {
            c.cal[1] = CAL_ID;
        }
    }

    // Start-up.
    for n in 0..nn as usize {
        if life_p > 0.0 {
            let mut k = r.below(6);
            while k > 0 {
                k -= 1;
                lifecycle_event(r, tr, n as u8, &cfgs[n], &prop);
            }
        }
        if !(life_p > 0.0 && r.p(0.2)) {
            tr.ev.push(Ev::Init { n: n as u8, c: Box::new(cfgs[n]) });
        }
    }
    let mut w = vscale(r.dir(), rate);
    if r.p(0.2) {
        w = [0.0; 3];
        w[r.below(3) as usize] = rate;
    }
    let mut env_on = false;
    let mut stall = vec![0u64; nn as usize];
    let mut burst_off = true;
    let phased = (prop == "P06" || prop == "P05") && r.p(0.7);
    let mut order: Vec<usize> = (0..nn as usize).collect();
    let outage = if faults && r.p(0.06) { r.below(if phased { steps / 2 } else { steps }) } else { steps };
    // Reads, crashes, reconfigurations, refused reconfigurations, repeated initialisations.
    let mut sprees: Vec<u8> = Vec::new();
    for (k, p) in [(0, pf.read), (1, pf.crash), (2, pf.recal), (3, pf.bad_cal), (4, pf.lifecycle)] {
        if p > 0.0 {
            sprees.push(k);
        }
    }
    let spree = if !lifetime && !sprees.is_empty() && r.p(0.03) { r.below(if phased { steps / 2 } else { steps }) } else { steps };
    for step in 0..steps {
        if step == outage {
            let n = r.below(nn) as usize;
            outage_phase(r, tr, n as u8, ts as f64 * mult[n] as f64, w);
        }
        if step == spree {
            let n = r.below(nn) as usize;
            spree_phase(r, tr, &sprees, n as u8, &mut cfgs[n]);
        }
        if r.p(change_p) {
            w = match r.below(6) {
                0 => [0.0; 3],
                1 => vscale(w, r.pick(&[0.5, 2.0, -1.0])),
                2 => {
                    let mut v = [0.0; 3];
                    v[r.below(3) as usize] = rate * r.pick(&[1.0, -1.0]);
                    v
                }
                3 => vscale(r.dir(), r.pick(&[1e-5, 9e-5, 1.1e-4, 3e-4, 1e-3])),
                _ => vscale(r.dir(), r.uni(0.0, rate)),
            };
        }
        if r.p(env_p) {
            env_on = !env_on;
            let (mut lin, mut mag) = ([0.0; 3], [0.0; 3]);
            if env_on {
                if r.p(0.7) {
                    lin = vscale(r.dir(), r.pick(&[0.5, 1.2, 1.5, 3.0, 20.0]));
                }
                if r.p(0.7) {
                    mag = vscale(r.dir(), r.pick(&[1.0, 10.0, 60.0, 500.0]));
                }
                if r.p(0.1) {
                    // Free fall.
                    lin = [0.0, 0.0, tr.grav];
                }
            }
            tr.ev.push(Ev::Env { lin, mag });
        }
        if r.p(sw.jitter) {
            tr.ev.push(Ev::Jitter { f: r.pick(&[0.5, 0.9, 1.1, 1.5, 3.0]) });
        }
        tr.ev.push(Ev::Adv { dt: ts as f64, w });
        if sw.burst && r.p(0.05) {
            burst_off = !burst_off;
        }
        if nn > 1 {
            r.shuffle(&mut order);
        }
        for &n in &order {
            let k = tr.kinds[n];
            let n8 = n as u8;
            if r.p(life_p) {
                lifecycle_event(r, tr, n8, &cfgs[n], &prop);
            }
            if r.p(recal_p) {
                recal_event(r, tr, n8, k, &mut cfgs[n], bad_cal, wild_cal);
            }
            if r.p(crash_p) {
                tr.ev.push(Ev::Crash { n: n8 });
            }
            if r.p(read_p) {
                tr.ev.push(Ev::Read { n: n8 });
            }
            if step % mult[n] != 0 {
                continue;
            }
            let salt = r.u64() as u32;
            if stall[n] > 0 {
                stall[n] -= 1;
                tr.ev.push(Ev::Lost { n: n8 });
                continue;
            }
            if !phased && r.p(sw.lost) {
                if r.p(0.1) {
                    stall[n] = r.below(20);
                }
                tr.ev.push(Ev::Lost { n: n8 });
                continue;
            }
            if r.p(raw_p) && !(phased && step * 2 > steps) {
                tr.ev.push(Ev::Raw { n: n8, salt, s: raw_sample(r) });
                continue;
            }
            if k == Marg && cfgs[n].adaptive && r.p(edge_p) && !(phased && step * 2 > steps) {
                tr.ev.push(Ev::Raw { n: n8, salt, s: threshold_sample(r, &cfgs[n]) });
                continue;
            }
            let mut f = Vec::new();
            if faults && !(sw.burst && burst_off) && !(phased && step * 2 > steps) {
                sample_faults(r, &sw, k, &mut f);
            } else if sw.p[3] > 0.0 && r.p(sw.p[3]) {
                let used: Vec<u8> = (0..3u8).filter(|s| k.uses(*s as usize)).collect();
                f.push(Fault::Dead { s: r.pick(&used) });
            }
            tr.ev.push(Ev::Smp { n: n8, salt, f });
        }
    }
    if pf.quiet {
        quiet_phase(r, tr, &cfgs, ts as f64, &mult);
    }
}

/// One sensor is out in the same way for many samples in a row.
fn outage_phase(r: &mut Rng, tr: &mut Trace, n: u8, dt: f64, w: V) {
    let used: Vec<u8> = (0..3u8).filter(|s| tr.kinds[n as usize].uses(*s as usize)).collect();
    let s = r.pick(&used);
    let ax = r.below(3) as u8;
    let bad = Fault::Set { s: r.pick(&used), ax: r.below(3) as u8, v: r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]) };
    let f = match r.below(9) {
        0 | 1 => Fault::Set { s, ax, v: r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]) },
        8 => Fault::Set { s, ax: 0, v: 0.0 },
        2 => Fault::Set { s, ax, v: r.pick(&[f32::MAX, -f32::MAX, 1e20, 0.0, 32767.0, -32768.0]) },
        3 => Fault::Miss { mask: if r.p(0.5) { 7 } else { 1 + r.below(7) as u8 } },
        4 => Fault::Stuck { s },
        5 => Fault::Dead { s },
        6 => Fault::Dup,
        _ => Fault::Stale { k: 1 + r.below(5) as u8 },
    };
    let mut all = vec![f.clone()];
    if let Fault::Set { s, ax, v } = f {
        // Sometimes the whole sensor.
        if v == 0.0 || r.p(0.2) {
            all.extend((0..3).filter(|x| *x != ax).map(|ax| Fault::Set { s, ax, v }));
        }
    }
    let len = r.log(4.0, 1200.0) as u64;
    let probe = r.pick(&[0.0, 0.01, 0.05]);
    for i in 0..len {
        tr.ev.push(Ev::Adv { dt, w });
        let salt = r.u64() as u32;
        let mut f = all.clone();
        // Now and then, and often at the end, something else is wrong as well.
        if r.p(probe) || (i + 1 == len && r.p(0.5)) {
            f.push(bad.clone());
        }
        tr.ev.push(Ev::Smp { n, salt, f });
    }
}

/// The same management call many times in a row.
fn spree_phase(r: &mut Rng, tr: &mut Trace, kinds: &[u8], n: u8, c: &mut Cfg) {
    let len = r.log(4.0, 700.0) as u64;
    let what = r.pick(kinds);
    let k = tr.kinds[n as usize];
    for _ in 0..len {
        match what {
            0 => tr.ev.push(Ev::Read { n }),
            1 => tr.ev.push(Ev::Crash { n }),
            2 => recal_event(r, tr, n, k, c, 0.0, false),
            3 => recal_event(r, tr, n, k, c, 1.0, false),
            _ => tr.ev.push(Ev::Init { n, c: Box::new(*c) }),
        }
    }
}

/// Everything calms down: the vehicle rests long enough, then moves slowly. Samples are clean.
fn quiet_phase(r: &mut Rng, tr: &mut Trace, cfgs: &[Cfg], ts: f64, mult: &[u64]) {
    tr.ev.push(Ev::Env { lin: [0.0; 3], mag: [0.0; 3] });
    let need = cfgs.iter().map(|c| settle_steps(c)).max().unwrap_or(0);
    let m = mult.iter().copied().max().unwrap_or(1);
    let _ = ts;
    let total = need as u64 + 60;
    for _ in 0..total {
        tr.ev.push(Ev::Adv { dt: cfgs[0].ts as f64 * (m / mult[0]) as f64, w: [0.0; 3] });
        tr.ev.push(Ev::Smp { n: 0, salt: 0, f: vec![] });
    }
    let w = vscale(r.dir(), r.uni(0.0, 0.04) / cfgs[0].ts as f64);
    for _ in 0..r.below(200) {
        tr.ev.push(Ev::Adv { dt: cfgs[0].ts as f64, w });
        tr.ev.push(Ev::Smp { n: 0, salt: 0, f: vec![] });
    }
}

/// Number of clean samples at rest after which the estimate must have settled.
pub fn settle_steps(c: &Cfg) -> u32 {
    let m = c.alpha.min(c.beta) as f64;
    (20.0 / m) as u32 + 50
}

fn recal_event(r: &mut Rng, tr: &mut Trace, n: u8, k: Kind, c: &mut Cfg, bad: f64, wild: bool) {
    let s = match k {
        Kind::Gyr => 0,
        Kind::Acc => 1,
        Kind::Mag => 2,
        Kind::Am => {
            if r.p(0.1) {
                0
            } else {
                1 + r.below(2) as usize
            }
        }
        _ => r.below(3) as usize,
    };
    if !crate::real::Real::has_cal(k, s) {
        return;
    }
    if r.p(bad) {
        let cal = broken_cal(r, c.cal[s]);
        tr.ev.push(Ev::Cal { n, s: s as u8, c: cal });
    } else {
        let cal = any_cal(r, s, wild);
        if k != Kind::Am || s != 0 {
            c.cal[s] = cal;
        }
        tr.ev.push(Ev::Cal { n, s: s as u8, c: cal });
        if r.p(0.3) {
            // The same sensor is reconfigured twice in a row.
            let cal = any_cal(r, s, wild);
            if k != Kind::Am || s != 0 {
                c.cal[s] = cal;
            }
            tr.ev.push(Ev::Cal { n, s: s as u8, c: cal });
        }
    }
}

fn lifecycle_event(r: &mut Rng, tr: &mut Trace, n: u8, c: &Cfg, prop: &str) {
    let k = c.kind;
    match r.below(7) {
        0 | 1 => {
            let mut c = *c;
            if matches!(k, Kind::Marg | Kind::Am) {
                // A refused attempt may have been for the other mode.
                c.kind = r.pick(&[Kind::Marg, Kind::Am]);
                c.gyr_cfg = c.kind == Kind::Marg || r.p(0.5);
            }
            tr.ev.push(Ev::Init { n, c: Box::new(break_cfg(r, c)) })
        }
        2 => {
            let ts = c.ts;
            let other = gen_cfg(r, k, ts, tr.q0, false, prop);
            let other = if r.p(0.3) { break_cfg(r, other) } else { other };
            tr.ev.push(Ev::Init { n, c: Box::new(other) });
        }
        3 => tr.ev.push(Ev::Smp { n, salt: 1, f: vec![] }),
        4 => tr.ev.push(Ev::Read { n }),
        5 => {
            let s = r.below(3) as usize;
            if crate::real::Real::has_cal(k, s) {
                let cal = if r.p(0.3) { broken_cal(r, c.cal[s]) } else { any_cal(r, s, false) };
                tr.ev.push(Ev::Cal { n, s: s as u8, c: cal });
            }
        }
        _ => tr.ev.push(Ev::Init { n, c: Box::new(*c) }),
    }
}
