//! Second workload: a pool of vectors and matrices that feed each other, against a model.

use crate::exec::{Stats, Viol, STEP};
use crate::real::real;
use crate::rng::{mix, Rng};
use crate::trace::{COp, Ev, Trace};
use linalg::common::LinalgError;
use linalg::linalg as la;
use linalg::matrix::Matrix;
use linalg::vector::Vector;
use quaternion::quaternion::Quaternion;

const NV: usize = 3;
const NM: usize = 3;

/// What the model knows about an element.
#[derive(Clone, Copy, Debug)]
enum El {
    Is(f32),
    Near(f64, f64),
    Any,
}

#[derive(Clone, Copy, Debug)]
struct MV {
    init: bool,
    n: usize,
    e: [El; 4],
}

#[derive(Clone, Copy, Debug)]
struct MM {
    init: bool,
    r: usize,
    c: usize,
    e: [[El; 4]; 4],
}

const MV0: MV = MV { init: false, n: 0, e: [El::Is(0.0); 4] };
const MM0: MM = MM { init: false, r: 0, c: 0, e: [[El::Is(0.0); 4]; 4] };

impl MV {
    fn f(&self, i: usize) -> f32 {
        match self.e[i] {
            El::Is(x) => x,
            El::Near(x, _) => x as f32,
            El::Any => 0.0,
        }
    }
    fn of(n: usize, f: impl Fn(usize) -> El) -> MV {
        let mut v = MV { init: true, n, e: [El::Any; 4] };
        for i in 0..n {
            v.e[i] = f(i);
        }
        v
    }
}

impl MM {
    fn f(&self, i: usize, j: usize) -> f32 {
        match self.e[i][j] {
            El::Is(x) => x,
            El::Near(x, _) => x as f32,
            El::Any => 0.0,
        }
    }
    fn of(r: usize, c: usize, f: impl Fn(usize, usize) -> El) -> MM {
        let mut m = MM { init: true, r, c, e: [[El::Any; 4]; 4] };
        for i in 0..r {
            for j in 0..c {
                m.e[i][j] = f(i, j);
            }
        }
        m
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Good,
    Refuse,
    Either,
}

/// Model verdict: expected answer and, per changed container, the state after success / after refusal.
struct Verdict {
    want: Want,
    v: Option<(usize, MV, MV)>,
    m: Option<(usize, MM, MM)>,
    scalar: Option<(f64, f64)>,
    flag: Option<bool>,
}

fn verdict(want: Want) -> Verdict {
    Verdict { want, v: None, m: None, scalar: None, flag: None }
}

pub struct Pool<'a> {
    prop: &'a str,
    st: &'a mut Stats,
    v: Vec<Vector<f32>>,
    m: Vec<Matrix>,
    b: Vector<u8>,
    mv: [MV; NV],
    mm: [MM; NM],
    mb: (bool, usize, [Option<u8>; 4]),
    pub sig: u64,
    pub dig: u64,
    pub faulty: bool,
    pub accepted: u64,
    step: usize,
    prev: u64,
}

/// What a call answered; `H` is a digest of returned containers or numbers.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ans {
    Unit,
    F(f32),
    B(bool),
    U,
    H(u64),
}

fn hv(h: u64, v: &Vector<f32>) -> u64 {
    let n = v.get_rows().unwrap_or(0);
    (0..n).fold(mix(h ^ n as u64), |h, k| mix(h ^ v.get_element(k).map_or(7, |x| x.to_bits() as u64)))
}

fn hm(h: u64, m: &Matrix) -> u64 {
    let (r, c) = (m.get_rows().unwrap_or(0), m.get_cols().unwrap_or(0));
    let mut h = mix(h ^ (r as u64 * 8 + c as u64));
    for i in 0..r {
        for j in 0..c {
            h = mix(h ^ m.get_element(i, j).map_or(7, |x| x.to_bits() as u64));
        }
    }
    h
}

fn hb(h: u64, b: &Vector<u8>) -> u64 {
    let n = b.get_rows().unwrap_or(0);
    (0..n).fold(mix(h ^ n as u64), |h, k| mix(h ^ b.get_element(k).map_or(777, |x| x as u64)))
}

type R = Result<Ans, LinalgError>;

fn u(r: Result<(), LinalgError>) -> R {
    r.map(|_| Ans::Unit)
}

impl<'a> Pool<'a> {
    pub fn new(prop: &'a str, st: &'a mut Stats) -> Self {
        Pool {
            prop,
            st,
            v: (0..NV).map(|_| Vector::new()).collect(),
            m: (0..NM).map(|_| Matrix::new()).collect(),
            b: Vector::new(),
            mv: [MV0; NV],
            mm: [MM0; NM],
            mb: (false, 0, [Some(0); 4]),
            sig: 0,
            dig: 0,
            faulty: false,
            accepted: 0,
            step: 0,
            prev: 0,
        }
    }

    pub fn run(&mut self, tr: &Trace) -> Result<(), Viol> {
        for (i, e) in tr.ev.iter().enumerate() {
            self.step = i;
            STEP.with(|s| s.set(i));
            self.st.events += 1;
            if let Ev::Op(o) = e {
                self.op(o)?;
            }
        }
        Ok(())
    }

    fn viol<T>(&self, kind: String, detail: String) -> Result<T, Viol> {
        Err(Viol { kind, detail, step: self.step })
    }

    fn op(&mut self, o: &COp) -> Result<(), Viol> {
        let modelled = o.op < 100;
        let ver = if modelled { Some(self.predict(o)) } else { None };
        // What a resized container holds is left open; every other operation is repeated on new ones.
        let twin = if self.prop == "P27" && !matches!(o.op, 1 | 41 | 91) { Some(real(|| self.fresh())) } else { None };
        let ans = Self::call(o, &mut self.v, &mut self.m, &mut self.b);
        if let Some((mut v, mut m, mut b)) = twin {
            self.same(o, &ans, &mut v, &mut m, &mut b)?;
        }
        let ok = ans.is_ok();
        if ok {
            self.accepted += 1;
            self.st.ok += 1;
        } else {
            self.st.refused += 1;
            self.st.faults[19] += 1;
            self.faulty = true;
        }
        let shape = self.shape(o);
        let here = ((o.op as u64) << 32) | (shape << 8) | ok as u64;
        self.st.trans.insert(mix(mix(here) ^ self.prev));
        self.prev = here;
        self.sig = mix(self.sig ^ mix(here));
        if self.prop != "P16" {
            self.st.evals += 1;
            self.digest(&ans);
            return Ok(());
        }
        if let Some(ver) = ver {
            self.st.evals += 1;
            let name = NAMES.iter().find(|x| x.0 == o.op).map_or("?", |x| x.1);
            match ver.want {
                Want::Good if !ok => {
                    return self.viol(format!("refused-{}", name), format!("valid {:?} refused: {:?}", o, ans.err()))
                }
                Want::Refuse if ok => return self.viol(format!("accepted-{}", name), format!("invalid {:?} accepted", o)),
                _ => {}
            }
            if let Some((i, good, bad)) = ver.v {
                self.mv[i] = if ok { good } else { bad };
            }
            if let Some((i, good, bad)) = ver.m {
                self.mm[i] = if ok { good } else { bad };
            }
            if let (Ok(Ans::F(x)), Some((w, tol))) = (&ans, ver.scalar) {
                if !self.st.within((*x as f64 - w).abs(), tol) {
                    return self.viol(format!("value-{}", name), format!("{:?} gave {} not {}", o, x, w));
                }
            }
            if let (Ok(Ans::B(x)), Some(w)) = (&ans, ver.flag) {
                if *x != w {
                    return self.viol(format!("answer-{}", name), format!("{:?} said {}", o, x));
                }
            }
            self.digest(&ans);
            self.compare(name, o)?;
        }
        Ok(())
    }

    fn same(&self, o: &COp, ans: &R, v: &mut [Vector<f32>], m: &mut [Matrix], b: &mut Vector<u8>) -> Result<(), Viol> {
        let name = NAMES.iter().chain(OPAQUE_NAMES.iter()).find(|x| x.0 == o.op).map_or("new", |x| x.1);
        let new = Self::call(o, v, m, b);
        let eq = match (ans, &new) {
            (Ok(Ans::F(x)), Ok(Ans::F(y))) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
            (x, y) => x == y,
        };
        if !eq {
            return self.viol(format!("answer-{}", name), format!("{:?} answered {:?}, on new containers {:?}", o, ans, new));
        }
        let here = |v: &[Vector<f32>], m: &[Matrix], b: &Vector<u8>| {
            let h = v.iter().fold(0, hv);
            (h, m.iter().fold(0, hm), hb(0, b))
        };
        let (x, y) = real(|| (here(&self.v, &self.m, &self.b), here(v, m, b)));
        if x != y {
            return self.viol(
                format!("contents-{}", name),
                format!("{:?} leaves other contents than on new containers that held the same", o),
            );
        }
        Ok(())
    }

    fn digest(&mut self, a: &R) {
        let h = match a {
            Ok(Ans::F(x)) => x.to_bits() as u64,
            Ok(Ans::B(x)) => *x as u64 + 5,
            Ok(Ans::H(x)) => *x,
            Ok(_) => 1,
            Err(_) => 2,
        };
        self.dig = mix(self.dig ^ h);
        for i in 0..NV {
            for k in 0..4 {
                if let Ok(x) = self.v[i].get_element(k) {
                    self.dig = mix(self.dig ^ x.to_bits() as u64);
                }
            }
        }
    }

    fn shape(&self, o: &COp) -> u64 {
        let d = (o.d as usize) % NV;
        if o.op < 40 {
            self.v[d].get_rows().map_or(0, |x| x as u64 + 1)
        } else {
            self.m[d].get_rows().map_or(0, |x| x as u64 + 1) * 8 + self.m[d].get_cols().map_or(0, |x| x as u64 + 1)
        }
    }

    /// Every container against the model; then the model adopts the actual values.
    fn compare(&mut self, name: &str, o: &COp) -> Result<(), Viol> {
        for i in 0..NV {
            let (vi, m) = (&self.v[i], self.mv[i]);
            let (init, rows) = real(|| (vi.is_initialized(), vi.get_rows()));
            if init != m.init || (init && rows != Ok(m.n as u8)) || (!init && rows.is_ok()) {
                return self.viol(
                    format!("shape-after-{}", name),
                    format!("vector {} after {:?}: initialised {} rows {:?}, model {} {}", i, o, init, rows, m.init, m.n),
                );
            }
            if !init {
                continue;
            }
            for k in 0..m.n {
                let x = match real(|| vi.get_element(k as u8)) {
                    Ok(x) => x,
                    Err(e) => return self.viol(format!("element-after-{}", name), format!("vector {} row {}: {:?}", i, k, e)),
                };
                if !fits(m.e[k], x, self.st) {
                    return self.viol(
                        format!("element-after-{}", name),
                        format!("vector {} row {} after {:?}: {} but model {:?}", i, k, o, x, m.e[k]),
                    );
                }
                self.mv[i].e[k] = El::Is(x);
            }
        }
        for i in 0..NM {
            let (mi, m) = (&self.m[i], self.mm[i]);
            let (init, rows, cols) = real(|| (mi.is_initialized(), mi.get_rows(), mi.get_cols()));
            if init != m.init || (init && (rows != Ok(m.r as u8) || cols != Ok(m.c as u8))) || (!init && rows.is_ok()) {
                return self.viol(
                    format!("shape-after-{}", name),
                    format!(
                        "matrix {} after {:?}: initialised {} {:?}x{:?}, model {} {}x{}",
                        i, o, init, rows, cols, m.init, m.r, m.c
                    ),
                );
            }
            if !init {
                continue;
            }
            for r in 0..m.r {
                for c in 0..m.c {
                    let x = match real(|| mi.get_element(r as u8, c as u8)) {
                        Ok(x) => x,
                        Err(e) => {
                            return self.viol(format!("element-after-{}", name), format!("matrix {} ({},{}): {:?}", i, r, c, e))
                        }
                    };
                    if !fits(m.e[r][c], x, self.st) {
                        return self.viol(
                            format!("element-after-{}", name),
                            format!("matrix {} ({},{}) after {:?}: {} but model {:?}", i, r, c, o, x, m.e[r][c]),
                        );
                    }
                    self.mm[i].e[r][c] = El::Is(x);
                }
            }
        }
        let b = &self.b;
        let (init, rows) = real(|| (b.is_initialized(), b.get_rows()));
        if init != self.mb.0 || (init && rows != Ok(self.mb.1 as u8)) {
            return self.viol(format!("shape-after-{}", name), format!("index vector after {:?}", o));
        }
        if init {
            for k in 0..self.mb.1 {
                let x = real(|| b.get_element(k as u8)).unwrap_or(255);
                if let Some(w) = self.mb.2[k] {
                    if w != x {
                        return self.viol(format!("element-after-{}", name), format!("index vector row {}: {} not {}", k, x, w));
                    }
                }
                self.mb.2[k] = Some(x);
            }
        }
        Ok(())
    }

    fn idx(o: &COp) -> (usize, usize, usize) {
        let d = (o.d as usize) % NV;
        let mut a = (o.a as usize) % NV;
        let mut b = (o.b as usize) % NV;
        if a == d {
            a = (d + 1) % NV;
        }
        if b == d {
            b = (d + 2) % NV;
        }
        (d, a, b)
    }

    /// New containers that hold the same as those in the pool.
    fn fresh(&self) -> (Vec<Vector<f32>>, Vec<Matrix>, Vector<u8>) {
        let mut v: Vec<Vector<f32>> = (0..NV).map(|_| Vector::new()).collect();
        let mut m: Vec<Matrix> = (0..NM).map(|_| Matrix::new()).collect();
        let mut b: Vector<u8> = Vector::new();
        for i in 0..NV {
            if let Ok(n) = self.v[i].get_rows() {
                let _ = v[i].init(n);
                for k in 0..n {
                    let _ = v[i].set_element(k, self.v[i].get_element(k).unwrap_or(0.0));
                }
            }
        }
        for i in 0..NM {
            if let (Ok(r), Ok(c)) = (self.m[i].get_rows(), self.m[i].get_cols()) {
                let _ = m[i].init(r, c);
                for k in 0..r {
                    for l in 0..c {
                        let _ = m[i].set_element(k, l, self.m[i].get_element(k, l).unwrap_or(0.0));
                    }
                }
            }
        }
        if let Ok(n) = self.b.get_rows() {
            let _ = b.init(n);
            for k in 0..n {
                let _ = b.set_element(k, self.b.get_element(k).unwrap_or(0));
            }
        }
        (v, m, b)
    }

    fn call(o: &COp, v: &mut [Vector<f32>], m: &mut [Matrix], bv: &mut Vector<u8>) -> R {
        let (d, a, b) = Self::idx(o);
        let (r, c, f) = (o.r, o.c, o.f);
        let mut vd = std::mem::replace(&mut v[d], Vector::new());
        let mut md = std::mem::replace(&mut m[d], Matrix::new());
        let mut va = std::mem::replace(&mut v[a], Vector::new());
        // Slot a is held aside only because some operations write to it; b may be the same slot.
        macro_rules! vb {
            () => {
                if b == a { &va } else { &v[b] }
            };
        }
        let (ma, mb) = (&m[a], &m[b]);
        let mut newv: Option<Vector<f32>> = None;
        let mut newm: Option<Matrix> = None;
        let mut newa: Option<Vector<f32>> = None;
        fn kv(s: &mut Option<Vector<f32>>, r: Result<Vector<f32>, LinalgError>) -> R {
            *s = Some(r?);
            Ok(Ans::U)
        }
        fn km(s: &mut Option<Matrix>, r: Result<Matrix, LinalgError>) -> R {
            *s = Some(r?);
            Ok(Ans::U)
        }
        let ans: R = real(|| match o.op {
            0 => u(vd.init(r)),
            1 => u(vd.reinit(r)),
            2 => u(vd.set_element(r, f[0])),
            3 => vd.get_element(r).map(Ans::F),
            4 => u(vd.fill(f[0])),
            5 => u(vd.copy_from(&va)),
            6 => kv(&mut newv, va.duplicate()),
            7 => u(vd.add(&va, vb!())),
            8 => u(vd.add_in_place(&va)),
            9 => kv(&mut newv, va.add_new(vb!())),
            10 => u(vd.add_scalar(&va, f[0])),
            11 => u(vd.add_scalar_in_place(f[0])),
            12 => kv(&mut newv, va.add_scalar_new(f[0])),
            13 => u(vd.sub(&va, vb!())),
            14 => u(vd.sub_in_place(&va)),
            15 => kv(&mut newv, va.sub_new(vb!())),
            16 => u(vd.sub_scalar(&va, f[0])),
            17 => u(vd.sub_scalar_in_place(f[0])),
            18 => kv(&mut newv, va.sub_scalar_new(f[0])),
            19 => u(vd.mul_by_scalar(&va, f[0])),
            20 => u(vd.mul_by_scalar_in_place(f[0])),
            21 => kv(&mut newv, va.mul_by_scalar_new(f[0])),
            22 => u(vd.normalize()),
            23 => vd.calculate_norm().map(Ans::F),
            24 => vd.dot_product(&va).map(Ans::F),
            25 => km(&mut newm, va.outer_product(vb!())),
            26 => u(vd.lerp(&va, vb!(), f[0])),
            27 => u(vd.slerp(&va, vb!(), f[0])),
            28 => u(vd.power_elements(f[0])),
            29 => km(&mut newm, va.convert_to_matrix()),
            30 => vd.is_equal_to(&va, f[0]).map(Ans::B),
            31 => vd.is_same_size_as(&va).map(Ans::B),
            32 => u(vd.fillq(f[0], f[1], f[2], f[3])),
            33 => u(vd.conjugate()),
            34 => u(Quaternion::mul(&mut vd, &va, vb!())),
            35 => u(vd.fill_identity()),
            36 => u(match c % 4 {
                0 => vd.set_qw(f[0]),
                1 => vd.set_qx(f[0]),
                2 => vd.set_qy(f[0]),
                _ => vd.set_qz(f[0]),
            }),
            37 => match c % 4 {
                0 => vd.get_qw(),
                1 => vd.get_qx(),
                2 => vd.get_qy(),
                _ => vd.get_qz(),
            }
            .map(Ans::F),
            38 => kv(&mut newv, va.get_vector_part()),
            39 => kv(&mut newv, va.conjugate_new()),
            40 => u(md.init(r, c)),
            41 => u(md.reinit(r, c)),
            42 => u(md.set_element(r, c, f[0])),
            43 => md.get_element(r, c).map(Ans::F),
            44 => u(md.set_row(&va, r)),
            45 => u(md.set_col(&va, c)),
            46 => u(md.get_row(&mut va, r)),
            47 => u(md.get_col(&mut va, c)),
            48 => kv(&mut newa, md.row_to_vector(r)),
            49 => kv(&mut newa, md.col_to_vector(c)),
            50 => u(md.add_row(&va, r)),
            51 => u(md.add_col(&va, c)),
            52 => kv(&mut newa, md.del_row(r)),
            53 => u(md.fill(f[0])),
            54 => u(md.fill_identity()),
            55 => u(md.copy_from(ma)),
            56 => km(&mut newm, ma.duplicate()),
            57 => u(md.add(ma, mb)),
            58 => u(md.add_in_place(ma)),
            59 => km(&mut newm, ma.add_new(mb)),
            60 => u(md.add_scalar(ma, f[0])),
            61 => u(md.add_scalar_in_place(f[0])),
            62 => km(&mut newm, ma.add_scalar_new(f[0])),
            63 => u(md.sub(ma, mb)),
            64 => u(md.sub_in_place(ma)),
            65 => km(&mut newm, ma.sub_new(mb)),
            66 => u(md.sub_scalar(ma, f[0])),
            67 => u(md.sub_scalar_in_place(f[0])),
            68 => km(&mut newm, ma.sub_scalar_new(f[0])),
            69 => u(md.mul(ma, mb)),
            70 => km(&mut newm, ma.mul_new(mb)),
            71 => u(md.transpose()),
            72 => km(&mut newm, ma.transpose_new()),
            73 => u(md.mul_by_scalar_in_place(f[0])),
            74 => u(md.power_elements(f[0])),
            75 => md.trace().map(Ans::F),
            76 => md.calculate_frobenius_norm().map(Ans::F),
            77 => md.is_square().map(Ans::B),
            78 => md.is_symmetric().map(Ans::B),
            79 => md.is_upper_triangular().map(Ans::B),
            80 => md.is_lower_triangular().map(Ans::B),
            81 => md.is_equal_to(ma, f[0]).map(Ans::B),
            82 => md.is_same_size_as(ma).map(Ans::B),
            83 => kv(&mut newa, md.diag(if c == 200 { None } else { Some(r as i8) })),
            90 => u(bv.init(r)),
            91 => u(bv.reinit(r)),
            92 => u(bv.set_element(r, c)),
            93 => bv.get_element(r).map(|x| Ans::F(x as f32)),
            94 => {
                vd = Vector::new();
                Ok(Ans::Unit)
            }
            95 => {
                md = Matrix::new();
                Ok(Ans::Unit)
            }
            100 => u(md.invert()),
            101 => md.lr().map(|(x, y)| Ans::H(hm(hm(1, &x), &y))),
            102 => md.lu_crout().map(|(x, y)| Ans::H(hm(hm(1, &x), &y))),
            103 => md.qr_decomp().map(|(x, y)| Ans::H(hm(hm(1, &x), &y))),
            104 => md.det().map(Ans::F),
            105 => md.det_naive().map(Ans::F),
            106 => md.is_positive_definite().map(Ans::B),
            107 => md.chol().map(|x| Ans::H(hm(1, &x))),
            108 => md.dlyap(ma).map(|x| Ans::H(hm(1, &x))),
            109 => md.is_orthogonal().map(Ans::B),
            110 => md.is_so_n().map(Ans::B),
            111 => md.log().map(|x| Ans::H(hm(1, &x))),
            112 => u(md.log_in_place()),
            113 => u(md.adjugate_in_place()),
            114 => la::eigen(&md, if r == 255 { 65535 } else { r as u16 }, c % 2 == 0).map(|(x, y)| Ans::H(hm(hv(1, &x), &y))),
            115 => la::lup(&md).map(|(x, y)| Ans::H(hb(hm(1, &x), &y))),
            116 => kv(&mut newa, la::solve(&md, vb!(), bv)),
            89 => vd.is_quaternion().map(Ans::B),
            96 => vd.is_real().map(Ans::B),
            97 => vd.is_pure().map(Ans::B),
            98 => vd.is_versor().map(Ans::B),
            99 => vd.is_identity().map(Ans::B),
            84 => kv(&mut newv, va.mul_new(vb!())),
            85 => u(Quaternion::invert(&mut vd)),
            86 => km(&mut newm, va.convert_to_dcm()),
            128 => u(vd.exp()),
            129 => kv(&mut newv, va.exp_new()),
            87 => kv(&mut newv, va.rotate(vb!())),
            88 => u(va.rotate_in_place(&mut vd)),
            132 => u(vd.hughes(&md)),
            133 => u(vd.chiaverini(&md)),
            134 => u(vd.sarabandi(&md, if c % 3 == 0 { None } else { Some(f[0]) })),
            135 => vd.convert_to_euler().map(|e| Ans::H([e.0, e.1, e.2].iter().fold(1, |h, x| mix(h ^ x.to_bits() as u64)))),
            _ => Ok(Ans::Unit),
        });
        v[a] = newa.unwrap_or(va);
        v[d] = newv.unwrap_or(vd);
        m[d] = newm.unwrap_or(md);
        ans
    }

    fn predict(&mut self, o: &COp) -> Verdict {
        let (d, a, b) = Self::idx(o);
        let (r, c, f) = (o.r as usize, o.c as usize, o.f);
        let (x, y, z) = (self.mv[d], self.mv[a], self.mv[b]);
        let (p, q, s) = (self.mm[d], self.mm[a], self.mm[b]);
        let fin = |v: f32| v.is_finite();
        let okdim = |n: usize| (1..=4).contains(&n);
        // Builders.
        let vset = |want: Want, i: usize, good: MV, bad: MV| {
            let mut v = verdict(want);
            v.v = Some((i, good, bad));
            v
        };
        let mset = |want: Want, i: usize, good: MM, bad: MM| {
            let mut v = verdict(want);
            v.m = Some((i, good, bad));
            v
        };
        let when = |c: bool| if c { Want::Good } else { Want::Refuse };
        let blurv = |m: MV| MV::of(m.n, |_| El::Any);
        let blurm = |m: MM| MM::of(m.r, m.c, |_, _| El::Any);
        // Element-wise result into container i of the same size as `m`.
        let vmap = |pre: bool, i: usize, old: MV, n: usize, place: bool, g: &dyn Fn(usize) -> f32| -> Verdict {
            if !pre {
                return verdict(Want::Refuse);
            }
            let good = MV::of(n, |k| El::Is(g(k)));
            let all = (0..n).all(|k| g(k).is_finite());
            vset(when(all), i, good, if place && !all { blurv(old) } else { old })
        };
        let mmap = |pre: bool, i: usize, old: MM, n: (usize, usize), place: bool, g: &dyn Fn(usize, usize) -> f32| -> Verdict {
            if !pre {
                return verdict(Want::Refuse);
            }
            let good = MM::of(n.0, n.1, |k, l| El::Is(g(k, l)));
            let all = (0..n.0).all(|k| (0..n.1).all(|l| g(k, l).is_finite()));
            mset(when(all), i, good, if place && !all { blurm(old) } else { old })
        };
        let samev = |m: &MV, n: &MV| m.init && n.init && m.n == n.n;
        let samem = |m: &MM, n: &MM| m.init && n.init && m.r == n.r && m.c == n.c;
        let scal = |want: Want, w: f64, tol: f64| {
            let mut v = verdict(want);
            v.scalar = Some((w, tol));
            v
        };
        let flag = |want: Want, w: Option<bool>| {
            let mut v = verdict(want);
            v.flag = w;
            v
        };
        let pow = |x: f32, e: f32| -> El {
            let w = (x as f64).powf(e as f64);
            if w.is_finite() && w.abs() < 3.3e38 {
                El::Near(w, w.abs() * 2e-5 + 1e-37)
            } else {
                El::Any
            }
        };
        let pow_want = |x: f32, e: f32| -> Want {
            let w = (x as f64).powf(e as f64);
            if w.is_nan() || w.abs() > 3.5e38 {
                Want::Refuse
            } else if w.abs() < 3.3e38 {
                Want::Good
            } else {
                Want::Either
            }
        };
        match o.op {
            // Vectors.
            0 => {
                let ok = !x.init && okdim(r);
                let mut g = x;
                g.init = true;
                g.n = r.min(4);
                vset(when(ok), d, g, x)
            }
            1 => {
                let ok = x.init && okdim(r);
                // What a resized vector holds is left open.
                vset(when(ok), d, MV::of(r.min(4), |_| El::Any), x)
            }
            2 => {
                let ok = x.init && r < x.n && fin(f[0]);
                let mut g = x;
                if ok {
                    g.e[r] = El::Is(f[0]);
                }
                vset(when(ok), d, g, x)
            }
            3 => {
                let ok = x.init && r < x.n;
                if ok {
                    scal(Want::Good, x.f(r) as f64, 0.0)
                } else {
                    verdict(Want::Refuse)
                }
            }
            4 => {
                if !x.init {
                    return verdict(Want::Either);
                }
                vmap(true, d, x, x.n, true, &|_| f[0])
            }
            5 => vmap(samev(&x, &y), d, x, x.n, false, &|k| y.f(k)),
            6 => vmap(y.init, d, x, y.n, false, &|k| y.f(k)),
            7 => vmap(samev(&x, &y) && samev(&x, &z), d, x, x.n, true, &|k| y.f(k) + z.f(k)),
            8 => vmap(samev(&x, &y), d, x, x.n, true, &|k| x.f(k) + y.f(k)),
            9 => vmap(samev(&y, &z), d, x, y.n, false, &|k| y.f(k) + z.f(k)),
            10 => vmap(samev(&x, &y), d, x, x.n, true, &|k| y.f(k) + f[0]),
            12 => vmap(y.init, d, x, y.n, false, &|k| y.f(k) + f[0]),
            13 => vmap(samev(&x, &y) && samev(&x, &z), d, x, x.n, true, &|k| y.f(k) - z.f(k)),
            14 => vmap(samev(&x, &y), d, x, x.n, true, &|k| x.f(k) - y.f(k)),
            15 => vmap(samev(&y, &z), d, x, y.n, false, &|k| y.f(k) - z.f(k)),
            16 => vmap(samev(&x, &y), d, x, x.n, true, &|k| y.f(k) - f[0]),
            18 => vmap(y.init, d, x, y.n, false, &|k| y.f(k) - f[0]),
            19 => vmap(samev(&x, &y), d, x, x.n, true, &|k| y.f(k) * f[0]),
            21 => vmap(y.init, d, x, y.n, false, &|k| y.f(k) * f[0]),
            11 | 17 | 20 | 28 if !x.init => verdict(Want::Either),
            11 => vmap(true, d, x, x.n, true, &|k| x.f(k) + f[0]),
            17 => vmap(true, d, x, x.n, true, &|k| x.f(k) - f[0]),
            20 => vmap(true, d, x, x.n, true, &|k| x.f(k) * f[0]),
            28 => {
                let ws: Vec<Want> = (0..x.n).map(|k| pow_want(x.f(k), f[0])).collect();
                let want = if ws.contains(&Want::Refuse) {
                    Want::Refuse
                } else if ws.contains(&Want::Either) {
                    Want::Either
                } else {
                    Want::Good
                };
                vset(want, d, MV::of(x.n, |k| pow(x.f(k), f[0])), blurv(x))
            }
            22 | 23 if !x.init => verdict(Want::Either),
            22 => {
                let n2: f64 = (0..x.n).map(|k| (x.f(k) as f64).powi(2)).sum();
                let n = n2.sqrt();
                let (want, good) = if n < 0.99e-4 {
                    (Want::Good, MV::of(x.n, |_| El::Is(0.0)))
                } else if n < 1.01e-4 {
                    (Want::Good, blurv(x))
                } else {
                    let w = if n2 > 3.3e38 { Want::Either } else { Want::Good };
                    (w, MV::of(x.n, |k| El::Near(x.f(k) as f64 / n, 2e-6)))
                };
                vset(want, d, good, blurv(x))
            }
            23 => {
                let n2: f64 = (0..x.n).map(|k| (x.f(k) as f64).powi(2)).sum();
                let n = n2.sqrt();
                if n2 > 3.3e38 {
                    scal(Want::Either, n, n * 1e-5)
                } else if n < 0.99e-4 {
                    scal(Want::Good, 0.0, 0.0)
                } else {
                    scal(Want::Good, n, n * 1e-6 + if n < 1.01e-4 { 1.1e-4 } else { 0.0 })
                }
            }
            24 => {
                if !samev(&x, &y) {
                    return verdict(Want::Refuse);
                }
                let w: f64 = (0..x.n).map(|k| x.f(k) as f64 * y.f(k) as f64).sum();
                let t: f64 = (0..x.n).map(|k| (x.f(k) as f64 * y.f(k) as f64).abs()).sum();
                if t > 3.3e38 {
                    verdict(Want::Either)
                } else {
                    scal(Want::Good, w, t * 1e-6 + 1e-37)
                }
            }
            25 => {
                if !(y.init && z.init) {
                    return verdict(Want::Refuse);
                }
                mmap(true, d, p, (y.n, z.n), false, &|k, l| y.f(k) * z.f(l))
            }
            26 | 27 => {
                if !(f[0] >= 0.0 && f[0] <= 1.0) || !samev(&x, &y) || !samev(&x, &z) {
                    return verdict(Want::Refuse);
                }
                let al = f[0] as f64;
                let big = (0..x.n).any(|k| y.f(k).abs() > 1e38 || z.f(k).abs() > 1e38);
                let (mut c1, mut c2, mut tol) = (1.0 - al, al, 1e-6);
                if o.op == 27 {
                    let nrm = |v: &MV| (0..v.n).map(|k| (v.f(k) as f64).powi(2)).sum::<f64>().sqrt();
                    if (nrm(&y) - 1.0).abs() > 1e-5 || (nrm(&z) - 1.0).abs() > 1e-5 {
                        return vset(Want::Either, d, blurv(x), blurv(x));
                    }
                    let dot: f64 = (0..x.n).map(|k| y.f(k) as f64 * z.f(k) as f64).sum();
                    let th = dot.clamp(-1.0, 1.0).acos();
                    if th > 3.0 {
                        return vset(Want::Either, d, blurv(x), blurv(x));
                    }
                    if th > 1e-6 {
                        c1 = ((1.0 - al) * th).sin() / th.sin();
                        c2 = (al * th).sin() / th.sin();
                    }
                    tol = 5e-4;
                }
                let good = MV::of(x.n, |k| {
                    let (s, t) = (y.f(k) as f64, z.f(k) as f64);
                    El::Near(c1 * s + c2 * t, tol * (s.abs() + t.abs()) + 1e-37)
                });
                if big {
                    vset(Want::Either, d, blurv(x), blurv(x))
                } else {
                    vset(Want::Good, d, good, x)
                }
            }
            29 => {
                if !y.init {
                    return verdict(Want::Refuse);
                }
                mmap(true, d, p, (y.n, 1), false, &|k, _| y.f(k))
            }
            30 => {
                if !(x.init && y.init) {
                    return verdict(Want::Refuse);
                }
                if x.n != y.n {
                    return flag(Want::Good, Some(false));
                }
                eq_verdict(&(0..x.n).map(|k| (x.f(k), y.f(k))).collect::<Vec<_>>(), f[0])
            }
            31 => {
                if !(x.init && y.init) {
                    return verdict(Want::Refuse);
                }
                flag(Want::Good, Some(x.n == y.n))
            }
            32 => {
                if !(x.init && x.n == 4) {
                    return verdict(Want::Refuse);
                }
                vmap(true, d, x, 4, true, &|k| f[k])
            }
            33 => {
                if !(x.init && x.n == 4) {
                    return verdict(Want::Refuse);
                }
                vmap(true, d, x, 4, false, &|k| if k == 0 { x.f(0) } else { -x.f(k) })
            }
            34 => {
                if !(x.init && y.init && z.init && x.n == 4 && y.n == 4 && z.n == 4) {
                    return verdict(Want::Refuse);
                }
                let (w, t) = product(&y, &z);
                if t > 3e38 {
                    return vset(Want::Either, d, blurv(x), blurv(x));
                }
                vset(Want::Good, d, MV::of(4, |k| El::Near(w[k], t * 1e-6 + 1e-37)), x)
            }
            35 => {
                if !(x.init && x.n == 4) {
                    return verdict(Want::Refuse);
                }
                vmap(true, d, x, 4, false, &|k| if k == 0 { 1.0 } else { 0.0 })
            }
            36 => {
                let ok = x.init && x.n == 4 && fin(f[0]);
                let mut g = x;
                g.e[c % 4] = El::Is(f[0]);
                vset(when(ok), d, g, x)
            }
            37 => {
                if !(x.init && x.n == 4) {
                    return verdict(Want::Refuse);
                }
                scal(Want::Good, x.f(c % 4) as f64, 0.0)
            }
            38 => {
                if !(y.init && y.n == 4) {
                    return verdict(Want::Refuse);
                }
                vmap(true, d, x, 3, false, &|k| y.f(k + 1))
            }
            39 => {
                if !(y.init && y.n == 4) {
                    return verdict(Want::Refuse);
                }
                vmap(true, d, x, 4, false, &|k| if k == 0 { y.f(0) } else { -y.f(k) })
            }
            // Matrices.
            40 => {
                let ok = !p.init && okdim(r) && okdim(c);
                let mut g = p;
                g.init = true;
                g.r = r.min(4);
                g.c = c.min(4);
                mset(when(ok), d, g, p)
            }
            41 => {
                let ok = p.init && okdim(r) && okdim(c);
                mset(when(ok), d, MM::of(r.min(4), c.min(4), |_, _| El::Any), p)
            }
            42 => {
                let ok = p.init && r < p.r && c < p.c && fin(f[0]);
                let mut g = p;
                if ok {
                    g.e[r][c] = El::Is(f[0]);
                }
                mset(when(ok), d, g, p)
            }
            43 => {
                if p.init && r < p.r && c < p.c {
                    scal(Want::Good, p.f(r, c) as f64, 0.0)
                } else {
                    verdict(Want::Refuse)
                }
            }
            44 => {
                let ok = p.init && y.init && y.n == p.c && r < p.r;
                let mut g = p;
                if ok {
                    g.e[r] = y.e;
                }
                mset(when(ok), d, g, p)
            }
            45 => {
                let ok = p.init && y.init && y.n == p.r && c < p.c;
                let mut g = p;
                if ok {
                    for k in 0..p.r {
                        g.e[k][c] = y.e[k];
                    }
                }
                mset(when(ok), d, g, p)
            }
            46 => {
                let ok = p.init && y.init && y.n == p.c && r < p.r;
                let g = if ok { MV::of(y.n, |k| p.e[r][k]) } else { y };
                vset(when(ok), a, g, y)
            }
            47 => {
                let ok = p.init && y.init && y.n == p.r && c < p.c;
                let g = if ok { MV::of(y.n, |k| p.e[k][c]) } else { y };
                vset(when(ok), a, g, y)
            }
            48 => {
                let ok = p.init && r < p.r;
                let g = if ok { MV::of(p.c, |k| p.e[r][k]) } else { y };
                vset(when(ok), a, g, y)
            }
            49 => {
                let ok = p.init && c < p.c;
                let g = if ok { MV::of(p.r, |k| p.e[k][c]) } else { y };
                vset(when(ok), a, g, y)
            }
            50 => {
                let ok = p.init && p.r < 4 && y.init && y.n == p.c && r <= p.r;
                let g = if ok {
                    MM::of(p.r + 1, p.c, |i, j| {
                        if i < r {
                            p.e[i][j]
                        } else if i == r {
                            y.e[j]
                        } else {
                            p.e[i - 1][j]
                        }
                    })
                } else {
                    p
                };
                mset(when(ok), d, g, p)
            }
            51 => {
                let ok = p.init && p.c < 4 && y.init && y.n == p.r && c <= p.c;
                let g = if ok {
                    MM::of(p.r, p.c + 1, |i, j| {
                        if j < c {
                            p.e[i][j]
                        } else if j == c {
                            y.e[i]
                        } else {
                            p.e[i][j - 1]
                        }
                    })
                } else {
                    p
                };
                mset(when(ok), d, g, p)
            }
            52 => {
                let ok = p.init && p.r > 1 && r < p.r;
                if !ok {
                    return verdict(Want::Refuse);
                }
                let mut v = mset(
                    Want::Good,
                    d,
                    MM::of(p.r - 1, p.c, |i, j| if i < r { p.e[i][j] } else { p.e[i + 1][j] }),
                    p,
                );
                v.v = Some((a, MV::of(p.c, |k| p.e[r][k]), y));
                v
            }
            53 | 61 | 67 | 73 | 74 | 76 | 79 | 80 if !p.init => verdict(Want::Either),
            53 => mmap(true, d, p, (p.r, p.c), true, &|_, _| f[0]),
            54 => mmap(p.init && p.r == p.c, d, p, (p.r, p.c), false, &|i, j| if i == j { 1.0 } else { 0.0 }),
            55 => mmap(samem(&p, &q), d, p, (p.r, p.c), false, &|i, j| q.f(i, j)),
            56 => mmap(q.init, d, p, (q.r, q.c), false, &|i, j| q.f(i, j)),
            57 => mmap(samem(&p, &q) && samem(&p, &s), d, p, (p.r, p.c), true, &|i, j| q.f(i, j) + s.f(i, j)),
            58 => mmap(samem(&p, &q), d, p, (p.r, p.c), true, &|i, j| p.f(i, j) + q.f(i, j)),
            59 => mmap(samem(&q, &s), d, p, (q.r, q.c), false, &|i, j| q.f(i, j) + s.f(i, j)),
            60 => mmap(samem(&p, &q), d, p, (p.r, p.c), true, &|i, j| q.f(i, j) + f[0]),
            61 => mmap(true, d, p, (p.r, p.c), true, &|i, j| p.f(i, j) + f[0]),
            62 => mmap(q.init, d, p, (q.r, q.c), false, &|i, j| q.f(i, j) + f[0]),
            63 => mmap(samem(&p, &q) && samem(&p, &s), d, p, (p.r, p.c), true, &|i, j| q.f(i, j) - s.f(i, j)),
            64 => mmap(samem(&p, &q), d, p, (p.r, p.c), true, &|i, j| p.f(i, j) - q.f(i, j)),
            65 => mmap(samem(&q, &s), d, p, (q.r, q.c), false, &|i, j| q.f(i, j) - s.f(i, j)),
            66 => mmap(samem(&p, &q), d, p, (p.r, p.c), true, &|i, j| q.f(i, j) - f[0]),
            67 => mmap(true, d, p, (p.r, p.c), true, &|i, j| p.f(i, j) - f[0]),
            68 => mmap(q.init, d, p, (q.r, q.c), false, &|i, j| q.f(i, j) - f[0]),
            69 | 70 => {
                if !(q.init && s.init) || (o.op == 69 && !p.init) {
                    return verdict(if o.op == 70 { Want::Refuse } else { Want::Either });
                }
                if q.c != s.r || (o.op == 69 && (p.r != q.r || p.c != s.c)) {
                    return verdict(Want::Refuse);
                }
                let t = |i: usize, j: usize| (0..q.c).map(|k| (q.f(i, k) as f64 * s.f(k, j) as f64).abs()).sum::<f64>();
                let w = |i: usize, j: usize| (0..q.c).map(|k| q.f(i, k) as f64 * s.f(k, j) as f64).sum::<f64>();
                let over = (0..q.r).any(|i| (0..s.c).any(|j| t(i, j) > 3.3e38));
                let good = MM::of(q.r, s.c, |i, j| {
                    if t(i, j) > 3.3e38 {
                        El::Any
                    } else {
                        El::Near(w(i, j), t(i, j) * 1e-6 + 1e-37)
                    }
                });
                let bad = if o.op == 69 { blurm(p) } else { p };
                mset(if over { Want::Either } else { Want::Good }, d, good, bad)
            }
            71 => {
                if !p.init {
                    return verdict(Want::Refuse);
                }
                mset(Want::Good, d, MM::of(p.c, p.r, |i, j| p.e[j][i]), p)
            }
            72 => {
                if !q.init {
                    return verdict(Want::Refuse);
                }
                mset(Want::Good, d, MM::of(q.c, q.r, |i, j| q.e[j][i]), p)
            }
            73 => mmap(true, d, p, (p.r, p.c), true, &|i, j| p.f(i, j) * f[0]),
            74 => {
                let mut want = Want::Good;
                for i in 0..p.r {
                    for j in 0..p.c {
                        match pow_want(p.f(i, j), f[0]) {
                            Want::Refuse => want = Want::Refuse,
                            Want::Either if want == Want::Good => want = Want::Either,
                            _ => {}
                        }
                    }
                }
                mset(want, d, MM::of(p.r, p.c, |i, j| pow(p.f(i, j), f[0])), blurm(p))
            }
            75 => {
                if !(p.init && p.r == p.c) {
                    return verdict(Want::Refuse);
                }
                let w: f64 = (0..p.r).map(|i| p.f(i, i) as f64).sum();
                let t: f64 = (0..p.r).map(|i| (p.f(i, i) as f64).abs()).sum();
                if t > 3.3e38 {
                    return verdict(Want::Either);
                }
                scal(Want::Good, w, t * 1e-6)
            }
            76 => {
                let n2: f64 = (0..p.r).map(|i| (0..p.c).map(|j| (p.f(i, j) as f64).powi(2)).sum::<f64>()).sum();
                if n2 > 3.3e38 {
                    return verdict(Want::Either);
                }
                scal(Want::Good, n2.sqrt(), n2.sqrt() * 1e-6 + 1e-18)
            }
            77 => {
                if !p.init {
                    return verdict(Want::Refuse);
                }
                flag(Want::Good, Some(p.r == p.c))
            }
            78 => {
                if !p.init {
                    return verdict(Want::Refuse);
                }
                if p.r != p.c {
                    return flag(Want::Good, Some(false));
                }
                let mut prs = Vec::new();
                for i in 0..p.r {
                    for j in 0..p.c {
                        prs.push((p.f(i, j), p.f(j, i)));
                    }
                }
                eq_verdict(&prs, 1e-4)
            }
            79 | 80 => {
                let mut prs = Vec::new();
                for i in 0..p.r {
                    for j in 0..p.c {
                        if (o.op == 79 && j < i) || (o.op == 80 && j > i) {
                            prs.push((p.f(i, j), 0.0));
                        }
                    }
                }
                // Tall and wide matrices: the library's answer to the question is left open.
                if p.r != p.c {
                    return verdict(Want::Either);
                }
                eq_verdict(&prs, 1e-4)
            }
            81 => {
                if !(p.init && q.init) {
                    return verdict(Want::Refuse);
                }
                if !samem(&p, &q) {
                    return flag(Want::Good, Some(false));
                }
                let mut prs = Vec::new();
                for i in 0..p.r {
                    for j in 0..p.c {
                        prs.push((p.f(i, j), q.f(i, j)));
                    }
                }
                eq_verdict(&prs, f[0])
            }
            82 => {
                if !(p.init && q.init) {
                    return verdict(Want::Refuse);
                }
                flag(Want::Good, Some(samem(&p, &q)))
            }
            83 => {
                let k = if o.c == 200 { 0i32 } else { (o.r as i8) as i32 };
                let len = if k >= 0 { (p.r as i32).min(p.c as i32 - k) } else { (p.r as i32 + k).min(p.c as i32) };
                if !p.init || len <= 0 {
                    return verdict(Want::Refuse);
                }
                let at = |i: usize| if k >= 0 { (i, i + k as usize) } else { (i + (-k) as usize, i) };
                vset(Want::Good, a, MV::of(len as usize, |i| p.e[at(i).0][at(i).1]), y)
            }
            // Quaternions.
            84 => {
                if !(y.init && z.init && y.n == 4 && z.n == 4) {
                    return verdict(Want::Refuse);
                }
                let (w, t) = product(&y, &z);
                if t > 3e38 {
                    return vset(Want::Either, d, MV::of(4, |_| El::Any), x);
                }
                vset(Want::Good, d, MV::of(4, |k| El::Near(w[k], t * 1e-6 + 1e-37)), x)
            }
            85 => {
                if !(x.init && x.n == 4) {
                    // A vector of another size: refused, but an uninitialised one has no elements to refuse.
                    return vset(Want::Refuse, d, x, x);
                }
                let n2: f64 = (0..4).map(|k| (x.f(k) as f64).powi(2)).sum();
                let n = n2.sqrt();
                if n2 > 3.3e38 || (0.99e-4..1.01e-4).contains(&n) {
                    return vset(Want::Either, d, blurv(x), blurv(x));
                }
                if n < 0.99e-4 {
                    return vset(Want::Good, d, MV::of(4, |_| El::Is(0.0)), x);
                }
                let g = |k: usize| if k == 0 { x.f(0) as f64 / n2 } else { -x.f(k) as f64 / n2 };
                vset(Want::Good, d, MV::of(4, |k| El::Near(g(k), 1e-5 / n + 1e-37)), x)
            }
            86 => {
                if !(y.init && y.n == 4) {
                    return verdict(Want::Refuse);
                }
                match dcm(&y) {
                    Some(w) => mset(Want::Good, d, MM::of(3, 3, |i, j| El::Near(w[i][j], 1e-5)), p),
                    None => mset(Want::Either, d, MM::of(3, 3, |_, _| El::Any), p),
                }
            }
            87 | 88 => {
                let v = if o.op == 87 { z } else { x };
                if !(y.init && y.n == 4 && v.init && v.n == 3) {
                    return verdict(Want::Refuse);
                }
                let t: f64 = (0..3).map(|k| (v.f(k) as f64).abs()).sum();
                let bad = if o.op == 87 { x } else { blurv(x) };
                match dcm(&y) {
                    Some(w) if t < 1e37 => {
                        let g = |i: usize| (0..3).map(|k| w[i][k] * v.f(k) as f64).sum::<f64>();
                        vset(Want::Good, d, MV::of(3, |i| El::Near(g(i), 1e-5 * t + 1e-37)), bad)
                    }
                    _ => vset(Want::Either, d, MV::of(3, |_| El::Any), bad),
                }
            }
            89 => {
                if !x.init {
                    return verdict(Want::Refuse);
                }
                flag(Want::Good, Some(x.n == 4))
            }
            96..=99 => {
                if !(x.init && x.n == 4) {
                    return verdict(Want::Refuse);
                }
                let n2: f64 = (0..4).map(|k| (x.f(k) as f64).powi(2)).sum();
                if n2 > 3.3e38 {
                    return verdict(Want::Either);
                }
                let n = n2.sqrt() as f32;
                let prs: Vec<(f32, f32)> = match o.op {
                    96 => (1..4).map(|k| (x.f(k), 0.0)).collect(),
                    97 => vec![(x.f(0), 0.0)],
                    98 => vec![(n, 1.0)],
                    _ => (0..4).map(|k| (x.f(k), if k == 0 { 1.0 } else { 0.0 })).collect(),
                };
                eq_verdict(&prs, 1e-4)
            }
            // Index vector.
            90 => {
                let ok = !self.mb.0 && okdim(r);
                if ok {
                    self.mb.0 = true;
                    self.mb.1 = r;
                }
                verdict(when(ok))
            }
            91 => {
                let ok = self.mb.0 && okdim(r);
                if ok {
                    self.mb = (true, r, [None; 4]);
                }
                verdict(when(ok))
            }
            92 => {
                let ok = self.mb.0 && r < self.mb.1;
                if ok {
                    self.mb.2[r] = Some(o.c);
                }
                verdict(when(ok))
            }
            93 => {
                if self.mb.0 && r < self.mb.1 {
                    match self.mb.2[r] {
                        Some(w) => scal(Want::Good, w as f64, 0.0),
                        None => verdict(Want::Good),
                    }
                } else {
                    verdict(Want::Refuse)
                }
            }
            94 => vset(Want::Good, d, MV0, MV0),
            95 => mset(Want::Good, d, MM0, MM0),
            _ => verdict(Want::Either),
        }
    }
}

/// Hamilton product and the scale of its rounding.
fn product(y: &MV, z: &MV) -> ([f64; 4], f64) {
    let g = |v: &MV| [0, 1, 2, 3].map(|k| v.f(k) as f64);
    let t: f64 = g(y).iter().map(|v| v.abs()).sum::<f64>() * g(z).iter().map(|v| v.abs()).sum::<f64>();
    (crate::math::qmul(g(y), g(z)), t)
}

/// Rotation matrix of a unit quaternion; what other quaternions are turned into is left open.
fn dcm(y: &MV) -> Option<[[f64; 3]; 3]> {
    let q = [0, 1, 2, 3].map(|k| y.f(k) as f64);
    if !((crate::math::qnorm(q) - 1.0).abs() < 1e-6) {
        return None;
    }
    let mut m = [[0.0; 3]; 3];
    for j in 0..3 {
        let mut e = [0.0; 3];
        e[j] = 1.0;
        let v = crate::math::rot(q, e);
        for i in 0..3 {
            m[i][j] = v[i];
        }
    }
    Some(m)
}

/// "Close within dev" for all pairs; open when a pair sits on the edge or the difference overflows.
fn eq_verdict(prs: &[(f32, f32)], dev: f32) -> Verdict {
    let mut v = verdict(Want::Good);
    let dev = dev as f64;
    if !dev.is_finite() {
        v.want = Want::Either;
        return v;
    }
    let mut all = true;
    let mut open = false;
    for (a, b) in prs {
        let d = (*a as f64 - *b as f64).abs();
        let edge = 1e-6 * (a.abs() as f64 + b.abs() as f64) + 1e-6 * dev.abs();
        if d > 3e38 || dev < 0.0 {
            v.want = Want::Either;
            return v;
        }
        // Equal values are within any tolerance.
        if d == 0.0 {
            continue;
        }
        if (d - dev).abs() <= edge {
            open = true;
        } else if d > dev {
            all = false;
        }
    }
    v.flag = if !all {
        Some(false)
    } else if open {
        None
    } else {
        Some(true)
    };
    v
}

fn fits(e: El, x: f32, st: &mut Stats) -> bool {
    match e {
        El::Is(w) => w == x,
        El::Near(w, tol) => st.within((x as f64 - w).abs(), tol),
        El::Any => x.is_finite(),
    }
}

pub const NAMES: [(u8, &str); 98] = [
    (0, "vector-init"),
    (1, "vector-reinit"),
    (2, "vector-set"),
    (3, "vector-get"),
    (4, "vector-fill"),
    (5, "vector-copy"),
    (6, "vector-duplicate"),
    (7, "vector-add"),
    (8, "vector-add-in-place"),
    (9, "vector-add-new"),
    (10, "vector-add-scalar"),
    (11, "vector-add-scalar-in-place"),
    (12, "vector-add-scalar-new"),
    (13, "vector-sub"),
    (14, "vector-sub-in-place"),
    (15, "vector-sub-new"),
    (16, "vector-sub-scalar"),
    (17, "vector-sub-scalar-in-place"),
    (18, "vector-sub-scalar-new"),
    (19, "vector-scale"),
    (20, "vector-scale-in-place"),
    (21, "vector-scale-new"),
    (22, "vector-normalize"),
    (23, "vector-norm"),
    (24, "vector-dot"),
    (25, "vector-outer"),
    (26, "vector-lerp"),
    (27, "vector-slerp"),
    (28, "vector-power"),
    (29, "vector-to-matrix"),
    (30, "vector-equal"),
    (31, "vector-same-size"),
    (32, "quaternion-fill"),
    (33, "quaternion-conjugate"),
    (34, "quaternion-mul"),
    (35, "quaternion-identity"),
    (36, "quaternion-set"),
    (37, "quaternion-get"),
    (38, "quaternion-vector-part"),
    (39, "quaternion-conjugate-new"),
    (40, "matrix-init"),
    (41, "matrix-reinit"),
    (42, "matrix-set"),
    (43, "matrix-get"),
    (44, "matrix-set-row"),
    (45, "matrix-set-col"),
    (46, "matrix-get-row"),
    (47, "matrix-get-col"),
    (48, "matrix-row-to-vector"),
    (49, "matrix-col-to-vector"),
    (50, "matrix-add-row"),
    (51, "matrix-add-col"),
    (52, "matrix-del-row"),
    (53, "matrix-fill"),
    (54, "matrix-identity"),
    (55, "matrix-copy"),
    (56, "matrix-duplicate"),
    (57, "matrix-add"),
    (58, "matrix-add-in-place"),
    (59, "matrix-add-new"),
    (60, "matrix-add-scalar"),
    (61, "matrix-add-scalar-in-place"),
    (62, "matrix-add-scalar-new"),
    (63, "matrix-sub"),
    (64, "matrix-sub-in-place"),
    (65, "matrix-sub-new"),
    (66, "matrix-sub-scalar"),
    (67, "matrix-sub-scalar-in-place"),
    (68, "matrix-sub-scalar-new"),
    (69, "matrix-mul"),
    (70, "matrix-mul-new"),
    (71, "matrix-transpose"),
    (72, "matrix-transpose-new"),
    (73, "matrix-scale-in-place"),
    (74, "matrix-power"),
    (75, "matrix-trace"),
    (76, "matrix-frobenius"),
    (77, "matrix-square"),
    (78, "matrix-symmetric"),
    (79, "matrix-upper"),
    (80, "matrix-lower"),
    (81, "matrix-equal"),
    (82, "matrix-same-size"),
    (83, "matrix-diag"),
    (84, "quaternion-mul-new"),
    (85, "quaternion-invert"),
    (86, "quaternion-to-dcm"),
    (87, "quaternion-rotate"),
    (88, "quaternion-rotate-in-place"),
    (89, "quaternion-size"),
    (90, "index-init"),
    (91, "index-reinit"),
    (92, "index-set"),
    (93, "index-get"),
    (96, "quaternion-real"),
    (97, "quaternion-pure"),
    (98, "quaternion-versor"),
    (99, "quaternion-identity-test"),
];

/// Operations whose result is not predicted.
const OPAQUE_NAMES: [(u8, &str); 23] = [
    (100, "invert"),
    (101, "lr"),
    (102, "crout"),
    (103, "qr"),
    (104, "det"),
    (105, "det-naive"),
    (106, "positive-definite"),
    (107, "cholesky"),
    (108, "lyapunov"),
    (109, "orthogonal"),
    (110, "rotation"),
    (111, "log"),
    (112, "log-in-place"),
    (113, "adjugate"),
    (114, "eigen"),
    (115, "lup"),
    (116, "solve"),
    (128, "exp"),
    (129, "exp-new"),
    (132, "hughes"),
    (133, "chiaverini"),
    (134, "sarabandi"),
    (135, "euler"),
];

/// A run: a swarm of operations on containers, mostly initialised, with mostly plain sizes.
pub fn generate(r: &mut Rng, tr: &mut Trace, opaque: bool) {
    let n = match r.below(10) {
        0..=4 => r.range(3, 40),
        5..=8 => r.range(30, 200),
        _ => r.range(200, 900),
    } as usize;
    // Swarm: a random subset of the operations makes up most of the run.
    let mut ops: Vec<u8> = NAMES.iter().map(|x| x.0).collect();
    ops.push(94);
    ops.push(95);
    if opaque {
        ops.extend(OPAQUE_NAMES.iter().map(|x| x.0));
    }
    r.shuffle(&mut ops);
    let k = r.range(4, ops.len() as i64) as usize;
    let some = &ops[..k];
    let wildness = r.pick(&[0.0, 0.05, 0.3, 0.8]);
    let edge = r.pick(&[0.02, 0.1, 0.4]);
    let square = r.p(0.4);
    let dim = r.range(1, 4) as u8;
    if r.p(0.9) {
        for d in 0..3u8 {
            let (x, y) = if square { (dim, dim) } else { (r.range(1, 4) as u8, r.range(1, 4) as u8) };
            let v = if square { dim } else { r.range(1, 4) as u8 };
            tr.ev.push(Ev::Op(COp { op: 0, d, a: 0, b: 0, r: v, c: 0, f: [0.0; 4] }));
            tr.ev.push(Ev::Op(COp { op: 40, d, a: 0, b: 0, r: x, c: y, f: [0.0; 4] }));
            for i in 0..4u8 {
                let val = r.gauss() as f32;
                tr.ev.push(Ev::Op(COp { op: 2, d, a: 0, b: 0, r: i, c: 0, f: [val, 0.0, 0.0, 0.0] }));
                for j in 0..4u8 {
                    let val = if r.p(0.2) { r.range(-1, 1) as f32 } else { r.gauss() as f32 };
                    tr.ev.push(Ev::Op(COp { op: 42, d, a: 0, b: 0, r: i, c: j, f: [val, 0.0, 0.0, 0.0] }));
                }
            }
        }
    }
    for _ in 0..n {
        let op = if r.p(0.75) {
            r.pick(some)
        } else {
            r.pick(&[0u8, 1, 2, 42, 40, 41, 50, 51, 52, 71, 44, 45, 22, 56, 6])
        };
        let dimv = |r: &mut Rng| -> u8 {
            if r.p(edge) {
                r.pick(&[0u8, 4, 5, 255, 254, 128, 127])
            } else {
                r.below(5) as u8
            }
        };
        let mut f = [0f32; 4];
        for x in f.iter_mut() {
            *x = if r.p(wildness) {
                r.wild()
            } else if r.p(0.3) {
                r.pick(&[0.0, 1.0, 0.5, -1.0, 2.0, 1e-4, 3.0])
            } else {
                r.gauss() as f32
            };
        }
        let (rr, cc) = (dimv(r), dimv(r));
        let mut o = COp { op, d: r.below(3) as u8, a: r.below(3) as u8, b: r.below(3) as u8, r: rr, c: cc, f };
        match op {
            26 | 27 if r.p(0.8) => o.f[0] = r.f() as f32,
            28 | 74 if r.p(0.7) => o.f[0] = r.pick(&[2.0, 1.0, 0.0, 0.5, 3.0, -1.0]),
            83 if r.p(0.7) => {
                o.r = r.range(-4, 4) as i8 as u8;
                if r.p(0.2) {
                    o.c = 200;
                }
            }
            114 => {
                o.r = if r.p(0.002) { 255 } else { r.below(30) as u8 };
            }
            _ => {}
        }
        if op == 27 && r.p(0.6) {
            // Interpolation between unit vectors, often equal ones.
            tr.ev.push(Ev::Op(COp { op: 22, d: o.a % 3, ..o }));
            tr.ev.push(Ev::Op(COp { op: 22, d: o.b % 3, ..o }));
            if r.p(0.3) {
                o.b = o.a;
            }
        }
        if matches!(op, 100..=116 | 132..=134) && r.p(0.5) {
            // Mostly on square matrices they apply to, cut from larger ones that held something else.
            let d = o.d % 3;
            let n = if op >= 132 { 3 } else { r.range(1, 4) as u8 };
            let put = |ev: &mut Vec<Ev>, i: u8, j: u8, x: f32| {
                ev.push(Ev::Op(COp { op: 42, d, r: i, c: j, f: [x, 0.0, 0.0, 0.0], ..o }))
            };
            tr.ev.push(Ev::Op(COp { op: 41, d, r: 4, c: 4, ..o }));
            tr.ev.push(Ev::Op(COp { op: 53, d, f: [r.gauss() as f32, 0.0, 0.0, 0.0], ..o }));
            match r.below(3) {
                0 => tr.ev.push(Ev::Op(COp { op: 41, d, r: n, c: n, ..o })),
                1 => {
                    for _ in n..4 {
                        tr.ev.push(Ev::Op(COp { op: 52, d, r: 0, ..o }));
                    }
                    tr.ev.push(Ev::Op(COp { op: 71, d, ..o }));
                    for _ in n..4 {
                        tr.ev.push(Ev::Op(COp { op: 52, d, r: 0, ..o }));
                    }
                }
                _ => {}
            }
            let kind = r.below(5);
            for i in 0..n {
                for j in 0..=i {
                    let x = if r.p(0.2) { 0.0 } else { r.gauss() as f32 };
                    let (x, y) = match kind {
                        0 => (x, r.gauss() as f32),
                        1 => (x, x),
                        2 | 4 => (0.0, 0.0),
                        _ => (0.0, x),
                    };
                    if i == j {
                        let g = r.gauss().abs() as f32;
                        put(&mut tr.ev, i, i, match kind {
                            2 => 1.0,
                            4 => r.pick(&[1.0, -1.0]),
                            _ => 2.0 + g,
                        });
                    } else {
                        put(&mut tr.ev, i, j, x);
                        put(&mut tr.ev, j, i, y);
                    }
                }
            }
            if kind == 2 && n > 1 {
                // A rotation in one plane.
                let (s, c) = (r.f() * 7.0).sin_cos();
                put(&mut tr.ev, 0, 0, c as f32);
                put(&mut tr.ev, 1, 1, c as f32);
                put(&mut tr.ev, 0, 1, -s as f32);
                put(&mut tr.ev, 1, 0, s as f32);
            }
            if op == 116 {
                let v = Pool::idx(&o).2 as u8;
                tr.ev.push(Ev::Op(COp { op: 1, d: v, r: n, ..o }));
                tr.ev.push(Ev::Op(COp { op: 90, r: n, ..o }));
                tr.ev.push(Ev::Op(COp { op: 91, r: n, ..o }));
                for i in 0..n {
                    tr.ev.push(Ev::Op(COp { op: 92, r: i, c: (i + 1) % n, ..o }));
                    tr.ev.push(Ev::Op(COp { op: 2, d: v, r: i, f: [r.gauss() as f32, 0.0, 0.0, 0.0], ..o }));
                }
            }
            if op >= 132 {
                tr.ev.push(Ev::Op(COp { op: 1, d, r: 4, ..o }));
            }
            if r.p(0.3) {
                // Asked before and after a change.
                tr.ev.push(Ev::Op(o));
                let m = r.range(1, n as i64) as u8;
                let next = match r.below(5) {
                    0 => COp { op: 41, d, r: m, c: m, ..o },
                    1 => COp { op: 71, d, ..o },
                    2 => COp { op: 42, d, r: m - 1, c: m - 1, ..o },
                    3 => COp { op: 55, d, ..o },
                    _ => COp { op: 54, d, ..o },
                };
                tr.ev.push(Ev::Op(next));
            }
        }
        if matches!(op, 84..=88 | 96..=99) && r.p(0.7) {
            // Mostly on quaternions, often unit ones, and vectors to rotate.
            let q = if op == 85 || op >= 96 { o.d % 3 } else { Pool::idx(&o).1 as u8 };
            tr.ev.push(Ev::Op(COp { op: 1, d: q, r: 4, ..o }));
            tr.ev.push(Ev::Op(COp { op: 32, d: q, ..o }));
            if r.p(0.7) {
                tr.ev.push(Ev::Op(COp { op: 22, d: q, ..o }));
            }
            if r.p(0.2) {
                tr.ev.push(Ev::Op(COp { op: 35, d: q, ..o }));
                tr.ev.push(Ev::Op(COp { op: 36, d: q, f: [r.pick(&[0.99991, 1.00009, 0.0, 9e-5, -1.0, 1.0]), 0.0, 0.0, 0.0], ..o }));
            }
            let v = match op {
                87 => Some(Pool::idx(&o).2 as u8),
                88 => Some(o.d % 3),
                84 => Some(Pool::idx(&o).2 as u8),
                _ => None,
            };
            if let Some(v) = v.filter(|v| *v != q) {
                tr.ev.push(Ev::Op(COp { op: 1, d: v, r: if op == 84 { 4 } else { 3 }, ..o }));
                for i in 0..4u8 {
                    tr.ev.push(Ev::Op(COp { op: 2, d: v, r: i, f: [r.gauss() as f32, 0.0, 0.0, 0.0], ..o }));
                }
            }
        }
        tr.ev.push(Ev::Op(o));
    }
}
