//! Reference models in double precision: calibration, gyrometer integration, one AQUA MARG update.

use crate::math::*;
use crate::real::{Cal, Cfg, Kind, Smp};

/// Correction matrix: the factor "xy" carries the x axis into y.
pub fn cal_matrix(c: &Cal) -> [[f64; 3]; 3] {
    let f = |i: usize| c[i] as f64;
    [[f(0), f(5), f(7)], [f(3), f(1), f(8)], [f(4), f(6), f(2)]]
}

/// Corrected reading and, per axis, the sum of the magnitudes that entered it (rounding scale).
pub fn apply_cal(c: &Cal, raw: [f32; 3]) -> (V, V) {
    let m = cal_matrix(c);
    let mut v = [0.0; 3];
    let mut s = [0.0; 3];
    for i in 0..3 {
        for j in 0..3 {
            let b = c[9 + j] as f64;
            v[i] += m[i][j] * (raw[j] as f64 - b);
            s[i] += m[i][j].abs() * ((raw[j] as f64).abs() + b.abs());
        }
    }
    (v, s)
}

/// Raw reading that the calibration turns into `v`; None when the calibration is not safely invertible.
pub fn invert_cal(c: &Cal, v: V) -> Option<[f32; 3]> {
    let m = cal_matrix(c);
    let det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    let big = c.iter().fold(0.0f64, |a, x| a.max((*x as f64).abs()));
    if !(det.abs() > 0.1 && big < 100.0 && m.iter().flatten().all(|x| x.abs() < 4.0)) {
        return None;
    }
    let inv = |r: usize, k: usize| {
        let (a, b) = ((k + 1) % 3, (k + 2) % 3);
        let (d, e) = ((r + 1) % 3, (r + 2) % 3);
        (m[a][d] * m[b][e] - m[a][e] * m[b][d]) / det
    };
    let mut raw = [0f32; 3];
    for i in 0..3 {
        let mut x = 0.0;
        for j in 0..3 {
            x += inv(i, j) * v[j];
        }
        raw[i] = (x + c[9 + i] as f64) as f32;
    }
    Some(raw)
}

pub fn gyro_raw(s: &Smp) -> Option<[f32; 3]> {
    Some([s.g[0]?, s.g[1]?, s.g[2]?])
}

/// Unit increment the AR method applies for rate `w` over `ts`, on the right of the attitude.
pub fn ar_increment(method: u8, order: u8, w: V, ts: f64) -> Option<Q> {
    let n = vnorm(w);
    let phi = n * ts / 2.0;
    if n == 0.0 {
        return Some(QID);
    }
    let (c, s) = match method {
        0 => (phi.cos(), phi.sin()),
        1 | 2 => {
            let order = if method == 2 { 1 } else { order };
            let (mut c, mut s) = (1.0, 0.0);
            let mut t = 1.0;
            for k in 1..=order as u32 {
                t *= phi / k as f64;
                match k % 4 {
                    0 => c += t,
                    1 => s += t,
                    2 => c -= t,
                    _ => s -= t,
                }
            }
            (c, s)
        }
        _ => return None,
    };
    let r = (c * c + s * s).sqrt();
    if !(r > 1e-6) {
        return None;
    }
    let u = vscale(w, 1.0 / n);
    Some([c / r, s / r * u[0], s / r * u[1], s / r * u[2]])
}

/// Rotation by angle a of the identity towards `p` (unit), by plain or spherical interpolation.
fn interpolate(p: Q, gain: f64, thr: f64, out: &mut Vec<Q>) {
    let margin = 1e-5;
    if p[0] > thr - margin {
        let mut r = QID;
        for i in 0..4 {
            r[i] = (1.0 - gain) * QID[i] + gain * p[i];
        }
        if qnorm(r) > 1e-3 {
            out.push(qunit(r));
        }
    }
    if p[0] <= thr + margin {
        let th = p[0].clamp(-1.0, 1.0).acos();
        let s = th.sin();
        if s < 1e-9 {
            out.push(if p[0] > 0.0 { QID } else { p });
        } else {
            let (a, b) = (((1.0 - gain) * th).sin() / s, (gain * th).sin() / s);
            let mut r = QID;
            for i in 0..4 {
                r[i] = a * QID[i] + b * p[i];
            }
            out.push(qunit(r));
        }
    }
}

/// Partial quaternion that explains the (unit) predicted gravity; both branches next to the seam.
fn acc_quats(g: V, out: &mut Vec<Q>) {
    let margin = 1e-5;
    if g[2] < margin {
        let l = ((1.0 - g[2]) / 2.0).sqrt();
        out.push(qunit([l, g[1] / (2.0 * l), -g[0] / (2.0 * l), 0.0]));
    }
    if g[2] >= -margin {
        let l = ((1.0 + g[2]) / 2.0).sqrt();
        out.push(qunit([g[1] / (2.0 * l), l, 0.0, -g[0] / (2.0 * l)]));
    }
}

/// The accelerometer gain the adaptive rule gives, from the configured one; several next to a threshold.
pub fn adaptive_gain(c: &Cfg, a_norm: f64, cond: f64) -> Vec<f64> {
    let alpha = c.alpha as f64;
    if !c.adaptive {
        return vec![alpha];
    }
    let g = c.g.unwrap_or(9.81) as f64;
    let (t1, t2) = (c.t1 as f64, c.t2 as f64);
    let e = ((a_norm - g) / g).abs();
    let m = norm_error_rounding(a_norm, g, cond);
    let mut v = Vec::new();
    if e <= t1 + m {
        v.push(alpha);
    }
    if e >= t2 - m {
        v.push(0.0);
    }
    if e > t1 && e < t2 {
        v.push(alpha * (t2 - e) / (t2 - t1));
    }
    v
}

/// How far rounding may move the relative error of the acceleration's magnitude.
pub fn norm_error_rounding(a_norm: f64, g: f64, cond: f64) -> f64 {
    4e-6 * (1.0 + cond) * (1.0 + a_norm / g.abs())
}

/// Angle by which the rounding of the adaptive gain may move an update.
pub fn gain_slack(c: &Cfg, v: &Seen) -> f64 {
    if !c.adaptive {
        return 0.0;
    }
    let g = c.g.unwrap_or(9.81) as f64;
    let (t1, t2) = (c.t1 as f64, c.t2 as f64);
    let an = vnorm(v.a);
    let e = ((an - g) / g).abs();
    let m = norm_error_rounding(an, g, v.a_cond);
    if e < t1 - m || e > t2 + m {
        return 0.0;
    }
    4.0 * c.alpha as f64 * (m / (t2 - t1)).min(1.0)
}

/// How far rounding may take one MARG update from `marg_step`.
pub fn step_tol(c: &Cfg, v: &Seen) -> f64 {
    1e-4 + 3e-6 * (v.a_cond + v.m_cond) + 2e-6 * v.w_scale * c.ts as f64 + gain_slack(c, v)
}

/// True when every setting of the filter is in its documented range.
pub fn legal(c: &Cfg) -> bool {
    let unit = |x: f32| (0.0..=1.0).contains(&x);
    let cal_ok = (0..3).all(|s| !c.kind.uses(s) || c.cal[s].iter().all(|x| x.is_finite()));
    let q_ok = match c.kind {
        Kind::Ar => c.q.iter().all(|x| x.is_some()),
        Kind::Marg | Kind::Am => c.q.iter().all(|x| x.is_some()) || c.q.iter().all(|x| x.is_none()),
        _ => true,
    };
    let finite_q = c.q.iter().flatten().all(|x| x.is_finite());
    if !q_ok || !finite_q {
        return false;
    }
    match c.kind {
        Kind::Ar => cal_ok && c.ts.is_finite() && c.ts > 1e-20 && c.method <= 2,
        Kind::Marg => {
            cal_ok
                && c.gyr_cfg
                && c.ts.is_finite()
                && c.ts > 1e-20
                && unit(c.alpha)
                && unit(c.beta)
                && unit(c.t_acc)
                && unit(c.t_mag)
                && c.h.is_none_or(|h| h.is_finite())
                && (!c.adaptive
                    || (c.t1 >= 0.0 && c.t1 < c.t2 && c.t2.is_finite() && c.g.is_none_or(|g| g.is_finite() && g > 0.1)))
        }
        Kind::Am => cal_ok,
        Kind::Dav => {
            c.w1 > 0.0001
                && c.w1 <= 1.0
                && c.w2 > 0.0001
                && c.w2 <= 1.0
                && c.g.is_none_or(|g| g.is_finite())
                && c.mdip.is_none_or(|g| g.is_finite())
        }
        _ => cal_ok,
    }
}

/// A setting outside its documented range that this sample cannot do without.
pub fn out_of_range(c: &Cfg, v: &Seen) -> Option<&'static str> {
    let unit = |x: f32| (0.0..=1.0).contains(&x);
    match c.kind {
        Kind::Ar => (c.method > 2 && vnorm(v.w) > 2e-4 + 1e-5 * v.w_scale).then_some("method"),
        Kind::Marg if !unit(c.t_acc) => Some("acc-threshold"),
        Kind::Marg if !unit(c.t_mag) => Some("mag-threshold"),
        Kind::Marg if !unit(c.beta) => Some("mag-gain"),
        Kind::Marg if c.adaptive && !(c.t1 < c.t2) => Some("gain-thresholds"),
        Kind::Marg if !unit(c.alpha) => {
            let an = vnorm(v.a);
            let g = c.g.unwrap_or(9.81) as f64;
            let calm = ((an - g) / g).abs() < c.t1 as f64 - norm_error_rounding(an, g, v.a_cond);
            // With an infinite band the gain inside it is not defined.
            let band = c.t1.abs() < 1e6 && c.t2.abs() < 1e6;
            (an > 1e-3 && v.a_cond < 1e3 && (!c.adaptive || (calm && band))).then_some("acc-gain")
        }
        _ => None,
    }
}

/// Initial attitude the settings stand for, when it is (nearly) a unit quaternion.
pub fn unit_start(c: &Cfg) -> bool {
    let q = start_q(c);
    (qnorm(q64(q)) - 1.0).abs() < 1e-5
}

pub fn start_q(c: &Cfg) -> [f32; 4] {
    if c.kind != Kind::Ar && c.q.iter().all(|x| x.is_none()) {
        return [1.0, 0.0, 0.0, 0.0];
    }
    [0, 1, 2, 3].map(|i| c.q[i].unwrap_or(f32::NAN))
}

/// A sample as the node's calibration sees it, with its rounding scale relative to the vector.
pub struct Seen {
    pub w: V,
    pub a: V,
    pub m: V,
    pub w_scale: f64,
    pub a_cond: f64,
    pub m_cond: f64,
}

pub fn seen(cal: &[Cal; 3], s: &Smp) -> Seen {
    let (w, ws) = match gyro_raw(s) {
        Some(g) => apply_cal(&cal[0], g),
        None => ([0.0; 3], [0.0; 3]),
    };
    let (a, sa) = apply_cal(&cal[1], s.a);
    let (m, sm) = apply_cal(&cal[2], s.m);
    let cond = |v: V, s: V| {
        let n = vnorm(v);
        if n > 0.0 {
            vnorm(s) / n
        } else {
            f64::INFINITY
        }
    };
    Seen { w, a, m, w_scale: vnorm(ws), a_cond: cond(a, sa), m_cond: cond(m, sm) }
}

/// Outcome of the prediction step. The attitude carries the global frame into the local one.
pub fn predict(q: Q, w: V, ts: f64) -> Q {
    let d = qmul([0.0, w[0], w[1], w[2]], q);
    let mut r = q;
    for i in 0..4 {
        r[i] -= 0.5 * ts * d[i];
    }
    qunit(r)
}

/// Result of one MARG update by the published algorithm. All results that are right up to rounding
/// (more than one next to a branch), or None when the inputs are too ill-conditioned to say.
pub fn marg_step(q: Q, c: &Cfg, v: &Seen) -> Option<Vec<Q>> {
    let ts = c.ts as f64;
    let an = vnorm(v.a);
    let mn = vnorm(v.m);
    if !(an > 0.01 && an < 1e6 && mn > 0.01 && mn < 1e6 && v.a_cond < 100.0 && v.m_cond < 100.0) {
        return None;
    }
    if !(vnorm(v.w) * ts < 50.0 && v.w_scale * ts < 100.0 && (qnorm(q) - 1.0).abs() < 1e-3) {
        return None;
    }
    // Thresholds so close together that rounding decides the gain.
    if gain_slack(c, v) > 0.4 * c.alpha as f64 {
        return None;
    }
    let gyr = predict(q, v.w, ts);
    let g = rot_inv(gyr, vscale(v.a, 1.0 / an));
    let mut parts = Vec::new();
    acc_quats(g, &mut parts);
    let mut inter = Vec::new();
    for p in &parts {
        for gain in adaptive_gain(c, an, v.a_cond) {
            interpolate(*p, gain, c.t_acc as f64, &mut inter);
        }
    }
    let mut out = Vec::new();
    for i in &inter {
        let q1 = qmul(gyr, *i);
        let l = rot_inv(q1, vscale(v.m, 1.0 / mn));
        let hor = (l[0] * l[0] + l[1] * l[1]).sqrt();
        if hor < 0.02 {
            return None;
        }
        let psi = l[1].atan2(l[0]);
        let mut heads = vec![psi];
        if psi.abs() > std::f64::consts::PI - 1e-4 {
            heads.push(-psi);
        }
        for h in heads {
            let mut mi = Vec::new();
            interpolate([(h / 2.0).cos(), 0.0, 0.0, (h / 2.0).sin()], c.beta as f64, c.t_mag as f64, &mut mi);
            for x in mi {
                out.push(qmul(q1, x));
            }
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(out)
    }
}

/// No step of the correction of this reading comes near the largest number.
fn moderate(c: &Cal, raw: [f32; 3]) -> bool {
    (0..3).all(|i| raw[i].abs() < 1e30 && c[9 + i].abs() < 1e30) && vnorm(apply_cal(c, raw).1) < 1e30
}

/// True when a node with legal settings has every reason to take the sample.
pub fn well_formed(c: &Cfg, cal: &[Cal; 3], q: Option<Q>, s: &Smp) -> bool {
    let fin = |v: &[f32; 3]| v.iter().all(|x| x.is_finite());
    let k = c.kind;
    if k.uses(0) && !gyro_raw(s).is_some_and(|g| fin(&g)) {
        return false;
    }
    if (k.uses(1) && !fin(&s.a)) || (k.uses(2) && !fin(&s.m)) {
        return false;
    }
    let v = seen(cal, s);
    let ts = c.ts as f64;
    let acc_ok = || vnorm(v.a) > 0.1 && vnorm(v.a) < 1e4 && v.a_cond < 1e3;
    let mag_ok = || vnorm(v.m) > 0.1 && vnorm(v.m) < 1e5 && v.m_cond < 1e3;
    match k {
        Kind::Gyr => gyro_raw(s).is_some_and(|g| moderate(&cal[0], g)),
        Kind::Acc => moderate(&cal[1], s.a),
        Kind::Mag => moderate(&cal[2], s.m),
        Kind::Dav => vnorm(s_f64(s.a)) < 1e4 && vnorm(s_f64(s.m)) < 1e5,
        Kind::Ar => {
            let phi = v.w_scale * ts / 2.0;
            v.w_scale < 1e6 && phi < 5.0 && ts < 100.0 && q.is_some_and(|q| (qnorm(q) - 1.0).abs() < 1e-3) && {
                // A truncated series may legitimately cancel to nothing; closed form and Euler cannot.
                c.method != 1 || phi < 1.0
            }
        }
        Kind::Am => acc_ok() && mag_ok() && vangle(v.a, v.m).sin().abs() > 0.02,
        Kind::Marg => {
            q.is_some_and(|q| (qnorm(q) - 1.0).abs() < 1e-3)
                && acc_ok()
                && mag_ok()
                && v.w_scale * ts < 50.0
                && v.w_scale < 1e6
        }
    }
}

pub fn s_f64(v: [f32; 3]) -> V {
    [v[0] as f64, v[1] as f64, v[2] as f64]
}
