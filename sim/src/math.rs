//! Double-precision vectors and quaternions (w, x, y, z) used by the world and the reference models.

pub type V = [f64; 3];
pub type Q = [f64; 4];

pub const QID: Q = [1.0, 0.0, 0.0, 0.0];

pub fn qmul(a: Q, b: Q) -> Q {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}

pub fn qconj(a: Q) -> Q {
    [a[0], -a[1], -a[2], -a[3]]
}

pub fn qnorm(a: Q) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]).sqrt()
}

pub fn qunit(a: Q) -> Q {
    let n = qnorm(a);
    [a[0] / n, a[1] / n, a[2] / n, a[3] / n]
}

/// R(q) v with R the usual rotation matrix of q.
pub fn rot(q: Q, v: V) -> V {
    let p = qmul(qmul(q, [0.0, v[0], v[1], v[2]]), qconj(q));
    [p[1], p[2], p[3]]
}

pub fn rot_inv(q: Q, v: V) -> V {
    rot(qconj(q), v)
}

/// exp of the pure quaternion w*dt/2.
pub fn qexp(w: V, dt: f64) -> Q {
    let n = vnorm(w);
    let h = n * dt / 2.0;
    if n < 1e-300 {
        return QID;
    }
    let s = h.sin() / n;
    [h.cos(), w[0] * s, w[1] * s, w[2] * s]
}

/// Rotation angle between two attitudes, insensitive to the sign of the quaternions.
pub fn angle(a: Q, b: Q) -> f64 {
    let d = qmul(qconj(a), b);
    2.0 * (d[1] * d[1] + d[2] * d[2] + d[3] * d[3]).sqrt().atan2(d[0].abs())
}

pub fn vnorm(v: V) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}

pub fn vscale(v: V, s: f64) -> V {
    [v[0] * s, v[1] * s, v[2] * s]
}

pub fn vadd(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}

pub fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}

/// Angle between two directions.
pub fn vangle(a: V, b: V) -> f64 {
    vnorm(cross(a, b)).atan2(a[0] * b[0] + a[1] * b[1] + a[2] * b[2])
}

pub fn q64(q: [f32; 4]) -> Q {
    [q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64]
}

pub fn q32(q: Q) -> [f32; 4] {
    [q[0] as f32, q[1] as f32, q[2] as f32, q[3] as f32]
}
