//! Executes a trace against the real library and watches one property. No randomness, no clock.

use crate::cont;
use crate::gen::settle_steps;
use crate::math::*;
use crate::model::*;
use crate::real::*;
use crate::rng::mix;
use crate::trace::{Ev, Fault, Trace, FAULTS};
use std::collections::{BTreeMap, HashSet, VecDeque};

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub detail: String,
    pub step: usize,
}

pub struct Stats {
    pub runs: u64,
    pub events: u64,
    pub ok: u64,
    pub refused: u64,
    pub evals: u64,
    pub faults: [u64; FAULTS.len()],
    pub sim_time: f64,
    pub trans: HashSet<u64>,
    pub sigs: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub longest: u64,
    pub digest: u64,
    /// Kinds of violation listed as known findings, and how often each was met.
    pub listed: Vec<String>,
    pub known: BTreeMap<String, u64>,
    /// Largest deviation met, as a fraction of the tolerance it was held against, and the run.
    pub margin: (f64, u64),
    pub cur: u64,
}

impl Stats {
    pub fn new() -> Self {
        Stats {
            runs: 0,
            events: 0,
            ok: 0,
            refused: 0,
            evals: 0,
            faults: [0; FAULTS.len()],
            sim_time: 0.0,
            trans: HashSet::new(),
            sigs: HashSet::new(),
            nontrivial: HashSet::new(),
            longest: 0,
            digest: 0,
            listed: Vec::new(),
            known: BTreeMap::new(),
            margin: (0.0, 0),
            cur: 0,
        }
    }

    /// Whether the deviation is within the tolerance; keeps the closest call.
    pub fn within(&mut self, d: f64, tol: f64) -> bool {
        let r = d / tol;
        if r > self.margin.0 && d <= tol {
            self.margin = (r, self.cur);
        }
        d <= tol
    }
}

#[derive(Clone)]
enum Op {
    Init(Box<Cfg>),
    Up(Smp),
    Cal(usize, Cal),
    Crash,
}

type Out = (Res<()>, Res<[u32; 4]>);

struct Node {
    kind: Kind,
    real: Real,
    /// Settings in force once initialised (model).
    st: Option<Cfg>,
    /// Calibrations in force (model).
    cal: [Cal; 3],
    /// The node was started from a unit attitude.
    unit: bool,
    hist: VecDeque<Smp>,
    last: Option<Smp>,
    twin: Option<Real>,
    /// For sensors after a restart: no reading yet.
    blank: bool,
    /// True rotation since the last accepted update.
    d_true: Q,
    bound: f64,
    steps: u64,
    adv: f64,
    rate: f64,
    clean: u32,
    log: Vec<(Op, Out)>,
    prev: u64,
}

pub struct Sim<'a> {
    tr: &'a Trace,
    prop: &'a str,
    nodes: Vec<Node>,
    q: Q,
    w: V,
    lin: V,
    magd: V,
    jitter: f64,
    pub st: &'a mut Stats,
    sig: u64,
    dig: u64,
    faulty: bool,
    accepted: u64,
    step: usize,
}

type Chk = Result<(), Viol>;

fn same(a: &Res<[u32; 4]>, b: &Res<[u32; 4]>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => (0..4).all(|i| {
            let (p, q) = (f32::from_bits(x[i]), f32::from_bits(y[i]));
            x[i] == y[i] || p == q
        }),
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

fn att(v: &Res<[u32; 4]>) -> Option<Q> {
    v.as_ref().ok().map(|b| q64([0, 1, 2, 3].map(|i| f32::from_bits(b[i]))))
}

fn show(v: &Res<[u32; 4]>) -> String {
    match v {
        Ok(b) => format!("{:?}", b.map(f32::from_bits)),
        Err(c) => format!("{:?}", c),
    }
}

fn down(q: Q) -> V {
    rot(q, [0.0, 0.0, -1.0])
}

fn not_init(k: Kind) -> Code {
    match k {
        Kind::Ar => Code::ArNotInit,
        Kind::Marg | Kind::Am => Code::AquaNotInit,
        Kind::Dav => Code::DavNotInit,
        Kind::Gyr => Code::GyrNotInit,
        Kind::Acc => Code::AccNotInit,
        Kind::Mag => Code::MagNotInit,
    }
}

fn already_init(k: Kind) -> Code {
    match k {
        Kind::Ar => Code::ArAlreadyInit,
        Kind::Marg | Kind::Am => Code::AquaAlreadyInit,
        Kind::Dav => Code::DavAlreadyInit,
        Kind::Gyr => Code::GyrAlreadyInit,
        Kind::Acc => Code::AccAlreadyInit,
        Kind::Mag => Code::MagAlreadyInit,
    }
}

fn sensor_not_init(s: usize) -> Code {
    [Code::GyrNotInit, Code::AccNotInit, Code::MagNotInit][s]
}

/// One of the 24 turns that map the axes onto each other.
fn axis_turn(h: u64) -> Q {
    let s = std::f64::consts::FRAC_1_SQRT_2;
    let quarter = |k: u64| match k % 4 {
        0 => QID,
        1 => [s, 0.0, 0.0, s],
        2 => [0.0, 0.0, 0.0, 1.0],
        _ => [s, 0.0, 0.0, -s],
    };
    // Which way the third axis points, then a turn about it.
    let up = match (h / 4) % 6 {
        0 => QID,
        1 => [0.0, 1.0, 0.0, 0.0],
        2 => [s, s, 0.0, 0.0],
        3 => [s, -s, 0.0, 0.0],
        4 => [s, 0.0, s, 0.0],
        _ => [s, 0.0, -s, 0.0],
    };
    qmul(up, quarter(h))
}

/// The turn as a matrix of zeros and ones with signs.
fn turn_matrix(p: Q) -> [[f32; 3]; 3] {
    let mut m = [[0.0; 3]; 3];
    for j in 0..3 {
        let mut e = [0.0; 3];
        e[j] = 1.0;
        let v = rot(p, e);
        for i in 0..3 {
            m[i][j] = v[i].round() as f32;
        }
    }
    m
}

/// A reading in turned axes: no rounding, and a value that is not a number stays on its axis.
fn turn(p: Q, v: [f32; 3]) -> [f32; 3] {
    let m = turn_matrix(p);
    [0, 1, 2].map(|i| {
        let j = (0..3).find(|j| m[i][*j] != 0.0).unwrap_or(i);
        if m[i][j] > 0.0 {
            v[j]
        } else {
            -v[j]
        }
    })
}

/// The same calibration for a sensor whose axes are turned.
fn turn_cal(p: Q, c: &Cal) -> Cal {
    const AT: [[usize; 3]; 3] = [[0, 5, 7], [3, 1, 8], [4, 6, 2]];
    let m = turn_matrix(p);
    let src = |i: usize| (0..3).find(|j| m[i][*j] != 0.0).unwrap_or(i);
    let mut o = *c;
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = (src(i), src(j));
            o[AT[i][j]] = m[i][a] * m[j][b] * c[AT[a][b]];
        }
        o[9 + i] = m[i][src(i)] * c[9 + src(i)];
    }
    o
}

/// True: the arguments are acceptable. False: they are not. None: unspecified.
/// Reasons that these values are not to be used.
fn bad_values(v: &[f32]) -> Vec<Code> {
    let mut out = Vec::new();
    if v.iter().any(|x| x.is_nan()) {
        out.push(Code::Nan);
    }
    if v.iter().any(|x| x.is_infinite()) {
        out.push(Code::Inf);
    }
    out
}

/// Reasons to refuse an initialisation with these settings.
fn init_causes(c: &Cfg) -> Vec<Code> {
    let mut out = Vec::new();
    for s in 0..3 {
        if c.kind.uses(s) && c.kind != Kind::Dav {
            out.extend(bad_values(&c.cal[s]));
        }
    }
    if c.kind.has_attitude() {
        let q: Vec<f32> = c.q.iter().flatten().copied().collect();
        out.extend(bad_values(&q));
        if c.kind != Kind::Ar && q.len() % 4 != 0 {
            out.push(Code::InvalidQuat);
        }
    }
    if c.kind == Kind::Marg && !c.gyr_cfg {
        out.push(Code::NoGyroConfig);
    }
    if c.kind == Kind::Dav && [c.w1, c.w2].iter().any(|w| !(*w > 0.0 && *w <= 1.0)) {
        out.push(Code::DavWeights);
    }
    out
}

/// The settings with those out of range replaced, and the errors that name those.
fn repaired(c: &Cfg) -> (Cfg, Vec<Code>) {
    let mut c = *c;
    let mut out = Vec::new();
    if c.kind == Kind::Ar && c.method > 2 {
        c.method = 0;
        out.push(Code::ArMethod);
    }
    if c.kind == Kind::Marg {
        for (x, e) in [
            (&mut c.alpha, Code::InvalidAlpha),
            (&mut c.beta, Code::InvalidAlpha),
            (&mut c.t_acc, Code::InvalidInterp),
            (&mut c.t_mag, Code::InvalidInterp),
        ] {
            if !(0.0..=1.0).contains(x) {
                *x = 0.5;
                out.push(e);
            }
        }
        if c.adaptive && !(c.t1 < c.t2) {
            (c.t1, c.t2) = (0.1, 0.2);
            out.push(Code::InvalidGainThr);
        }
    }
    (c, out)
}

fn init_expected(c: &Cfg) -> Option<bool> {
    let fin = |s: usize| c.cal[s].iter().all(|x| x.is_finite());
    for s in 0..3 {
        if c.kind.uses(s) && c.kind != Kind::Dav && !fin(s) {
            return Some(false);
        }
    }
    match c.kind {
        Kind::Marg if !c.gyr_cfg => return Some(false),
        Kind::Marg | Kind::Am => {
            let k = c.q.iter().filter(|x| x.is_some()).count();
            if k != 0 && k != 4 {
                return Some(false);
            }
        }
        Kind::Dav => {
            let bad = |w: f32| !(w > 0.0 && w <= 1.0);
            if bad(c.w1) || bad(c.w2) {
                return Some(false);
            }
        }
        _ => {}
    }
    if c.kind.has_attitude() && c.q.iter().flatten().any(|x| !x.is_finite()) {
        return Some(false);
    }
    if legal(c) && (!c.kind.has_attitude() || unit_start(c)) {
        Some(true)
    } else {
        None
    }
}

impl<'a> Sim<'a> {
    pub fn new(tr: &'a Trace, prop: &'a str, st: &'a mut Stats) -> Result<Sim<'a>, Viol> {
        let mut nodes = Vec::new();
        for k in &tr.kinds {
            let real = Real::new(*k).map_err(|c| Viol {
                kind: format!("new-failed-{}", k.name()),
                detail: format!("{:?}", c),
                step: 0,
            })?;
            nodes.push(Node {
                kind: *k,
                real,
                st: None,
                cal: [CAL_ID; 3],
                unit: false,
                hist: VecDeque::new(),
                last: None,
                twin: None,
                blank: false,
                d_true: QID,
                bound: 0.0,
                steps: 0,
                adv: 0.0,
                rate: 0.0,
                clean: 0,
                log: Vec::new(),
                prev: 0,
            });
        }
        Ok(Sim {
            tr,
            prop,
            nodes,
            q: tr.q0,
            w: [0.0; 3],
            lin: [0.0; 3],
            magd: [0.0; 3],
            jitter: 1.0,
            st,
            sig: 0,
            dig: 0,
            faulty: false,
            accepted: 0,
            step: 0,
        })
    }

    fn viol<T>(&self, kind: impl Into<String>, detail: impl Into<String>) -> Result<T, Viol> {
        Err(Viol { kind: kind.into(), detail: detail.into(), step: self.step })
    }

    fn fault(&mut self, class: usize) {
        self.st.faults[class] += 1;
        self.faulty = true;
    }

    fn note(&mut self, n: usize, ev: u64, fault: u64, out: &Res<()>) {
        let code = match out {
            Ok(()) => 0u64,
            Err(c) => *c as u64,
        };
        let node = &mut self.nodes[n];
        let k = node.kind as u64;
        let here = (ev << 40) | (fault << 8) | code;
        let key = mix(mix(here ^ (k << 56)) ^ node.prev);
        node.prev = here;
        self.st.trans.insert(key);
        self.sig = mix(self.sig ^ mix(here ^ ((n as u64) << 60)));
    }

    fn look(&mut self, n: usize, out: &Res<()>, v: &Res<[u32; 4]>) {
        let mut h = match out {
            Ok(()) => 1,
            Err(c) => *c as u64 + 100,
        };
        match v {
            Ok(b) => b.iter().for_each(|x| h = mix(h ^ *x as u64)),
            Err(c) => h = mix(h ^ (*c as u64 + 1000)),
        }
        self.dig = mix(self.dig ^ h ^ ((n as u64) << 50));
    }

    pub fn run(&mut self) -> Chk {
        for (i, ev) in self.tr.ev.iter().enumerate() {
            self.step = i;
            STEP.with(|s| s.set(i));
            self.st.events += 1;
            match ev {
                Ev::Jitter { f } => {
                    self.jitter = *f;
                    self.fault(11);
                }
                Ev::Adv { dt, w } => {
                    let f = std::mem::replace(&mut self.jitter, 1.0);
                    self.advance(*dt * f, *w)
                }
                Ev::Env { lin, mag } => {
                    self.lin = *lin;
                    self.magd = *mag;
                    if vnorm(*lin) > 0.0 {
                        self.fault(12);
                    }
                    if vnorm(*mag) > 0.0 {
                        self.fault(13);
                    }
                }
                Ev::Smp { n, salt, f } => self.deliver(*n as usize, *salt, f)?,
                Ev::Raw { n, salt, s } => {
                    let n = *n as usize;
                    if n < self.nodes.len() {
                        self.fault(10);
                        self.update(n, s, *salt, false, 11)?
                    }
                }
                Ev::Lost { n } => {
                    if (*n as usize) < self.nodes.len() {
                        self.fault(9);
                    }
                }
                Ev::Init { n, c } => {
                    if (*n as usize) < self.nodes.len() {
                        self.init(*n as usize, c)?
                    }
                }
                Ev::Cal { n, s, c } => {
                    if (*n as usize) < self.nodes.len() {
                        self.set_cal(*n as usize, *s as usize, c)?
                    }
                }
                Ev::Read { n } => {
                    if (*n as usize) < self.nodes.len() {
                        self.read(*n as usize)?
                    }
                }
                Ev::Crash { n } => {
                    if (*n as usize) < self.nodes.len() {
                        self.crash(*n as usize)?
                    }
                }
                Ev::Op(_) => {}
            }
        }
        self.finish()?;
        Ok(())
    }

    fn advance(&mut self, dt: f64, w: V) {
        let d = qexp(w, dt);
        self.q = qunit(qmul(self.q, d));
        self.w = w;
        self.st.sim_time += dt;
        let r = vnorm(w);
        for n in self.nodes.iter_mut() {
            n.d_true = qmul(n.d_true, d);
            n.adv += dt;
            n.rate = if n.adv == dt { r } else { n.rate.max(r) };
        }
    }

    /// What the node's sensors measure now, as the node's calibration in force expects to receive it.
    fn measure(&self, n: usize) -> (Smp, bool) {
        let node = &self.nodes[n];
        let a = rot_inv(self.q, vadd([0.0, 0.0, -self.tr.grav], self.lin));
        let b = self.tr.field;
        let m = vadd(rot_inv(self.q, [b * self.tr.dip.cos(), 0.0, b * self.tr.dip.sin()]), self.magd);
        let mut ok = true;
        let mut conv = |s: usize, v: V| -> [f32; 3] {
            match invert_cal(&node.cal[s], v) {
                Some(r) => r,
                None => {
                    if node.kind.uses(s) {
                        ok = false;
                    }
                    [v[0] as f32, v[1] as f32, v[2] as f32]
                }
            }
        };
        let g = conv(0, self.w);
        let a = conv(1, a);
        let m = conv(2, m);
        (Smp { g: g.map(Some), a, m }, ok)
    }

    fn deliver(&mut self, n: usize, salt: u32, faults: &[Fault]) -> Chk {
        if n >= self.nodes.len() {
            return Ok(());
        }
        let (mut s, mut clean) = self.measure(n);
        clean &= vnorm(self.lin) == 0.0 && vnorm(self.magd) == 0.0 && faults.is_empty();
        let mut fc = 0u64;
        let cal = self.nodes[n].cal;
        {
            let h = &mut self.nodes[n].hist;
            h.push_front(s);
            h.truncate(8);
        }
        for f in faults {
            fc |= 1 << f.class();
            self.fault(f.class());
            let node = &self.nodes[n];
            match f {
                Fault::Set { s: k, ax, v } => put(&mut s, *k, *ax, |_| *v),
                Fault::Flip { s: k, ax, bit } => put(&mut s, *k, *ax, |x| f32::from_bits(x.to_bits() ^ (1 << (bit % 32)))),
                Fault::Stuck { s: k } => {
                    if let Some(l) = node.last {
                        match k {
                            0 => s.g = l.g,
                            1 => s.a = l.a,
                            _ => s.m = l.m,
                        }
                    }
                }
                Fault::Dead { s: k } => {
                    for ax in 0..3u8 {
                        put(&mut s, *k, ax, |_| cal[(*k % 3) as usize][9 + ax as usize]);
                    }
                }
                Fault::Gain { s: k, f } => {
                    for ax in 0..3u8 {
                        put(&mut s, *k, ax, |x| x * f);
                    }
                }
                Fault::Add { s: k, v } => {
                    for ax in 0..3u8 {
                        put(&mut s, *k, ax, |x| x + v[ax as usize]);
                    }
                }
                Fault::Miss { mask } => {
                    for ax in 0..3 {
                        if mask & (1 << ax) != 0 {
                            s.g[ax] = None;
                        }
                    }
                }
                Fault::Stale { k } => {
                    if let Some(x) = node.hist.get(*k as usize) {
                        s = *x;
                    }
                }
                Fault::Dup => {
                    if let Some(l) = node.last {
                        s = l;
                    }
                }
            }
        }
        self.update(n, &s, salt, clean, fc)
    }

    fn init(&mut self, n: usize, c: &Cfg) -> Chk {
        let mut c = *c;
        let nk = self.nodes[n].kind;
        // A node only ever gets settings of its own class.
        let aqua = |k: Kind| matches!(k, Kind::Marg | Kind::Am);
        if c.kind != nk && !(aqua(c.kind) && aqua(nk)) {
            c.kind = nk;
        }
        let exp = init_expected(&c);
        let was = self.nodes[n].st.is_some();
        if was || exp == Some(false) {
            self.fault(15);
        }
        let before = self.nodes[n].real.view();
        let cb = if was && self.prop == "P15" { Some(self.nodes[n].real.cal_view()) } else { None };
        let r = self.nodes[n].real.init(&c);
        let after = self.nodes[n].real.view();
        if self.prop == "P12" {
            self.nodes[n].log.push((Op::Init(Box::new(c)), (r, after)));
        }
        self.note(n, 1, exp.map_or(2, |b| b as u64) + 4 * was as u64, &r);
        self.look(n, &r, &after);
        if self.prop == "P15" {
            self.st.evals += 1;
            if was {
                if r != Err(already_init(nk)) {
                    return self.viol(format!("second-init-{}", nk.name()), format!("initialised node answered {:?}", r));
                }
                if !same(&before, &after) || cb != Some(self.nodes[n].real.cal_view()) {
                    return self.viol(format!("second-init-changed-{}", nk.name()), "a refused initialisation changed the node");
                }
            } else {
                match exp {
                    Some(true) if r.is_err() => {
                        return self.viol(
                            format!("good-init-refused-{}", nk.name()),
                            format!("acceptable settings refused with {:?}", r),
                        )
                    }
                    Some(false) if r.is_ok() => {
                        return self.viol(format!("bad-init-accepted-{}", nk.name()), format!("settings {:?} accepted", c))
                    }
                    _ => {}
                }
                if r.is_err() {
                    self.check_uninit(n)?;
                }
            }
        }
        if let ("P26", false, Err(e)) = (self.prop, was, r) {
            let causes = init_causes(&c);
            if !causes.is_empty() {
                self.named(e, &causes, c.kind, "init")?;
            }
        }
        if was || r.is_err() {
            return Ok(());
        }
        // Accepted: the model follows.
        let node = &mut self.nodes[n];
        node.kind = c.kind;
        node.real.kind = c.kind;
        node.st = Some(c);
        for s in 0..3 {
            node.cal[s] = if c.kind.uses(s) && c.kind != Kind::Dav { c.cal[s] } else { CAL_ID };
        }
        node.unit = unit_start(&c);
        node.clean = 0;
        node.bound = 0.0;
        node.steps = 0;
        node.d_true = QID;
        node.blank = c.kind.is_sensor();
        let need_twin = matches!(self.prop, "P02" | "P11" | "P14" | "P15");
        if need_twin {
            self.nodes[n].twin = Real::start(&c).ok();
            if self.nodes[n].twin.is_none() {
                return self.viol("init-not-repeatable", "a fresh node refused settings another had accepted");
            }
        }
        if self.prop == "P15" {
            self.st.evals += 1;
            self.compare_twin(n, "after-failed-init")?;
            if nk.has_attitude() {
                let got = self.nodes[n].real.attitude();
                let want = start_q(&c);
                if got.map(|q| q.map(|x| x + 0.0)) != Ok(want.map(|x| x + 0.0)) {
                    return self.viol(
                        format!("start-attitude-{}", nk.name()),
                        format!("started from {:?} but reads {:?}", want, got),
                    );
                }
            }
        }
        if self.prop == "P01" {
            self.check_unit(n)?;
        }
        if self.prop == "P13" {
            self.check_cal_read(n)?;
        }
        Ok(())
    }

    /// Every operation of a node that was never (successfully) initialised is refused as such.
    fn check_uninit(&mut self, n: usize) -> Chk {
        let k = self.nodes[n].kind;
        self.st.evals += 1;
        if k != Kind::Dav {
            let v = self.nodes[n].real.view();
            if v != Err(not_init(k)) {
                return self.viol(format!("uninit-read-{}", k.name()), format!("uninitialised node reads {}", show(&v)));
            }
        }
        for s in 0..3 {
            if Real::has_cal(k, s) {
                let g = self.nodes[n].real.get_cal(s);
                if g.is_ok() || (!matches!(k, Kind::Marg | Kind::Am) && g != Err(sensor_not_init(s))) {
                    return self.viol(
                        format!("uninit-config-{}-{}", k.name(), s),
                        format!("uninitialised node answers a configuration read with {:?}", g),
                    );
                }
            }
        }
        Ok(())
    }

    fn compare_twin(&mut self, n: usize, what: &str) -> Chk {
        let node = &self.nodes[n];
        if let Some(t) = &node.twin {
            let (a, b) = (node.real.view(), t.view());
            if !same(&a, &b) {
                let d = format!("node shows {} but the reference shows {}", show(&a), show(&b));
                return self.viol(format!("{}-{}", what, node.kind.name()), d);
            }
        }
        Ok(())
    }

    fn set_cal(&mut self, n: usize, s: usize, c: &Cal) -> Chk {
        let k = self.nodes[n].kind;
        if s > 2 || !Real::has_cal(k, s) {
            return Ok(());
        }
        let bad = c.iter().any(|x| !x.is_finite());
        self.fault(if bad { 16 } else { 17 });
        let before = self.nodes[n].real.view();
        let cb = self.nodes[n].real.cal_view();
        let r = self.nodes[n].real.set_cal(s, c);
        let after = self.nodes[n].real.view();
        let ca = self.nodes[n].real.cal_view();
        if self.prop == "P12" {
            self.nodes[n].log.push((Op::Cal(s, *c), (r, after)));
        }
        self.note(n, 2, s as u64 + 4 * bad as u64, &r);
        self.look(n, &r, &after);
        let init = self.nodes[n].st.is_some();
        let usable = init && self.nodes[n].kind.uses(s);
        match self.prop {
            "P14" => {
                self.st.evals += 1;
                if bad && r.is_ok() {
                    return self.viol(format!("bad-config-accepted-{}-{}", k.name(), s), format!("{:?} accepted", c));
                }
                if usable && !bad && r.is_err() {
                    return self.viol(format!("config-refused-{}-{}", k.name(), s), format!("{:?} refused: {:?}", c, r));
                }
                if r.is_err() && (ca != cb || !same(&before, &after)) {
                    return self.viol(
                        format!("refused-config-left-trace-{}-{}", k.name(), s),
                        format!("before {:?} after {:?}", cb, ca),
                    );
                }
                if r.is_ok() {
                    // Only the addressed sensor changes, and completely.
                    for o in 0..3 {
                        if o != s && ca[o] != cb[o] {
                            return self.viol(
                                format!("config-leaked-{}-{}", k.name(), s),
                                format!("setting sensor {} changed sensor {}", s, o),
                            );
                        }
                    }
                    if !same(&before, &after) {
                        return self.viol(format!("config-moved-output-{}-{}", k.name(), s), "output changed without a sample");
                    }
                }
            }
            "P15" => {
                self.st.evals += 1;
                if !usable && r.is_ok() {
                    return self.viol(
                        format!("uninit-config-accepted-{}-{}", k.name(), s),
                        "configuration accepted by a sensor that is not in use",
                    );
                }
                if !usable && !bad && r != Err(sensor_not_init(s)) {
                    return self.viol(
                        format!("uninit-config-error-{}-{}", k.name(), s),
                        format!("wrong refusal {:?}", r),
                    );
                }
                if !init {
                    self.check_uninit(n)?;
                }
            }
            "P26" => {
                if let (Err(e), true, true) = (r, usable, bad) {
                    self.named(e, &bad_values(c), k, "config")?;
                }
            }
            _ => {}
        }
        if r.is_ok() && !bad && usable {
            self.nodes[n].cal[s] = *c;
            if let Some(st) = self.nodes[n].st.as_mut() {
                st.cal[s] = *c;
            }
            self.nodes[n].clean = 0;
        }
        // The reference follows accepted settings. For P14 it never sees refused ones.
        if let Some(t) = self.nodes[n].twin.as_mut() {
            if r.is_ok() || self.prop != "P14" {
                let rt = t.set_cal(s, c);
                if rt != r {
                    let d = format!("node answered {:?}, the reference {:?}", r, rt);
                    return self.viol(format!("config-answer-{}-{}", k.name(), s), d);
                }
            }
        }
        if self.prop == "P13" {
            self.check_cal_read(n)?;
        }
        if self.prop == "P11" {
            self.compare_restart(n)?;
        }
        Ok(())
    }

    /// Calibrations read back are those in force.
    fn check_cal_read(&mut self, n: usize) -> Chk {
        if self.nodes[n].st.is_none() {
            return Ok(());
        }
        let k = self.nodes[n].kind;
        for s in 0..3 {
            if Real::has_cal(k, s) && k.uses(s) {
                self.st.evals += 1;
                let got = self.nodes[n].real.get_cal(s);
                let want = self.nodes[n].cal[s];
                if got.map(|c| c.map(|x| x + 0.0)) != Ok(want.map(|x| x + 0.0)) {
                    return self.viol(
                        format!("config-readback-{}-{}", k.name(), s),
                        format!("in force {:?}, read back {:?}", want, got),
                    );
                }
            }
        }
        Ok(())
    }

    fn read(&mut self, n: usize) -> Chk {
        let k = self.nodes[n].kind;
        let before = self.nodes[n].real.view();
        let cb = self.nodes[n].real.cal_view();
        let _ = self.nodes[n].real.attitude_and_scribble();
        #[cfg(feature = "std")]
        {
            let node = &self.nodes[n];
            real(|| {
                if let (Obj::Ar(f), true) = (&node.real.obj, std::env::var_os("SIM_PRINT").is_some()) {
                    let _ = f.print_attitude();
                }
            });
        }
        let after = self.nodes[n].real.view();
        let ca = self.nodes[n].real.cal_view();
        self.note(n, 3, 0, &Ok(()));
        self.look(n, &Ok(()), &after);
        match self.prop {
            "P12" => {
                self.st.evals += 1;
                if !same(&before, &after) || ca != cb {
                    return self.viol(format!("read-changed-{}", k.name()), "reading a node changed what it reads");
                }
            }
            "P15" if self.nodes[n].st.is_none() => {
                self.fault(18);
                self.check_uninit(n)?;
            }
            "P11" => self.compare_restart(n)?,
            _ => {}
        }
        Ok(())
    }

    fn crash(&mut self, n: usize) -> Chk {
        let k = self.nodes[n].kind;
        if k == Kind::Dav {
            return Ok(());
        }
        self.fault(14);
        let fresh = match self.nodes[n].st {
            None => Real::new(k),
            Some(st) => {
                let mut c = st;
                if k.has_attitude() {
                    if let Ok(q) = self.nodes[n].real.attitude() {
                        c.q = q.map(Some);
                    }
                }
                for s in 0..3 {
                    if Real::has_cal(k, s) && k.uses(s) {
                        if let Ok(cal) = self.nodes[n].real.get_cal(s) {
                            c.cal[s] = cal;
                        }
                    }
                }
                Real::start(&c)
            }
        };
        if self.prop == "P12" {
            let v = match &fresh {
                Ok(f) => f.view(),
                Err(c) => Err(*c),
            };
            self.nodes[n].log.push((Op::Crash, (Ok(()), v)));
        }
        match fresh {
            Ok(f) => {
                self.nodes[n].real = f;
                self.nodes[n].real.kind = k;
                self.nodes[n].blank = k.is_sensor();
            }
            Err(c) => {
                if self.prop == "P11" {
                    self.st.evals += 1;
                    return self.viol(
                        format!("restart-refused-{}", k.name()),
                        format!("settings read out of the node were refused: {:?}", c),
                    );
                }
            }
        }
        let v = self.nodes[n].real.view();
        self.note(n, 4, 0, &Ok(()));
        self.look(n, &Ok(()), &v);
        if matches!(self.prop, "P02" | "P14" | "P15") {
            // The reference is restarted the same way.
            if let Some(st) = self.nodes[n].st {
                let mut c = st;
                if k.has_attitude() {
                    if let Ok(q) = self.nodes[n].real.attitude() {
                        c.q = q.map(Some);
                    }
                }
                c.cal = self.nodes[n].cal;
                self.nodes[n].twin = Real::start(&c).ok();
            }
        }
        if self.prop == "P11" {
            self.compare_restart(n)?;
        }
        if self.prop == "P01" {
            self.check_unit(n)?;
        }
        Ok(())
    }

    /// P11: the restarted node against the one that never stopped.
    fn compare_restart(&mut self, n: usize) -> Chk {
        if self.nodes[n].st.is_none() {
            return Ok(());
        }
        self.st.evals += 1;
        if !self.nodes[n].blank {
            self.compare_twin(n, "restart-diverged")?;
        }
        let k = self.nodes[n].kind;
        let a = self.nodes[n].real.cal_view();
        let b = match self.nodes[n].twin.as_mut() {
            Some(t) => t.cal_view(),
            None => return Ok(()),
        };
        if a != b {
            return self.viol(
                format!("restart-config-{}", k.name()),
                format!("restarted node has {:?}, the other {:?}", a, b),
            );
        }
        Ok(())
    }

    fn check_unit(&mut self, n: usize) -> Chk {
        let node = &self.nodes[n];
        if node.st.is_none() || !node.kind.has_attitude() {
            return Ok(());
        }
        let v = node.real.attitude();
        let (k, unit) = (node.kind, node.unit);
        self.st.evals += 1;
        match v {
            Err(c) => self.viol(format!("attitude-unreadable-{}", k.name()), format!("{:?}", c)),
            Ok(q) => {
                if q.iter().any(|x| !x.is_finite()) {
                    return self.viol(format!("attitude-not-finite-{}", k.name()), format!("{:?}", q));
                }
                let nn = qnorm(q64(q));
                if unit && (nn - 1.0).abs() > 1e-4 {
                    return self.viol(format!("attitude-not-unit-{}", k.name()), format!("norm {} of {:?}", nn, q));
                }
                Ok(())
            }
        }
    }

    /// A filter with the node's settings and calibrations, started from attitude q.
    fn fork(&self, n: usize, q: Q, edit: impl FnOnce(&mut Cfg)) -> Option<Real> {
        let node = &self.nodes[n];
        let mut c = node.st?;
        c.cal = node.cal;
        c.q = q32(q).map(Some);
        edit(&mut c);
        Real::start(&c).ok()
    }

    fn update(&mut self, n: usize, s: &Smp, salt: u32, clean: bool, fc: u64) -> Chk {
        let before = self.nodes[n].real.view();
        let r = self.nodes[n].real.update(s);
        let after = self.nodes[n].real.view();
        if self.prop == "P12" {
            self.nodes[n].log.push((Op::Up(*s), (r, after)));
        }
        self.note(n, 5, fc, &r);
        self.look(n, &r, &after);
        if r.is_ok() {
            self.st.ok += 1;
            self.accepted += 1;
        } else {
            self.st.refused += 1;
        }
        if self.nodes[n].st.is_none() {
            self.fault(18);
        }
        let res = self.watch(n, s, salt, clean, &before, &r, &after);
        let node = &mut self.nodes[n];
        node.last = Some(*s);
        if r.is_ok() {
            node.blank = false;
            node.d_true = QID;
            node.adv = 0.0;
            node.steps += 1;
        }
        res
    }

    #[allow(clippy::too_many_arguments)]
    fn watch(
        &mut self,
        n: usize,
        s: &Smp,
        salt: u32,
        clean: bool,
        before: &Res<[u32; 4]>,
        r: &Res<()>,
        after: &Res<[u32; 4]>,
    ) -> Chk {
        let k = self.nodes[n].kind;
        let init = self.nodes[n].st.is_some();
        match self.prop {
            "P01" => self.check_unit(n),
            "P02" => {
                if !init {
                    return Ok(());
                }
                self.st.evals += 1;
                if r.is_err() {
                    if !same(before, after) {
                        let d = format!("refused with {:?}; before {} after {}", r, show(before), show(after));
                        return self.viol(format!("refused-update-changed-{}", k.name()), d);
                    }
                    return Ok(());
                }
                let rt = match self.nodes[n].twin.as_mut() {
                    Some(t) => t.update(s),
                    None => return Ok(()),
                };
                if rt.is_err() {
                    return self.viol(
                        format!("refused-update-left-trace-{}", k.name()),
                        format!("accepted, but a node that never saw the refused samples answers {:?}", rt),
                    );
                }
                self.compare_twin(n, "refused-update-left-trace")
            }
            "P03" => {
                let g_bad = s.g.iter().any(|x| x.is_none_or(|v| !v.is_finite()));
                let bad = (k.uses(0) && g_bad)
                    || (k.uses(1) && s.a.iter().any(|x| !x.is_finite()))
                    || (k.uses(2) && s.m.iter().any(|x| !x.is_finite()));
                if bad {
                    self.st.evals += 1;
                    if r.is_ok() {
                        return self.viol(format!("bad-sample-accepted-{}", k.name()), format!("{:?}", s));
                    }
                    if init && !same(before, after) {
                        return self.viol(format!("bad-sample-moved-{}", k.name()), format!("{:?}", s));
                    }
                }
                Ok(())
            }
            "P04" => {
                let st = match self.nodes[n].st {
                    Some(c) if legal(&c) => c,
                    _ => return Ok(()),
                };
                let q = if k.has_attitude() { att(before) } else { None };
                if !well_formed(&st, &self.nodes[n].cal, q, s) {
                    return Ok(());
                }
                self.st.evals += 1;
                if let Err(c) = r {
                    let kind = format!("well-formed-refused-{}-{:?}", k.name(), c);
                    if self.st.listed.contains(&kind) {
                        *self.st.known.entry(kind).or_default() += 1;
                        return Ok(());
                    }
                    return self.viol(kind, format!("{:?} from {}", s, show(before)));
                }
                Ok(())
            }
            "P05" => self.watch_ar(n, s, before, r, after),
            "P06" => self.watch_settle(n, clean, after),
            "P07" => {
                let st = match self.nodes[n].st {
                    Some(c) if legal(&c) && r.is_ok() => c,
                    _ => return Ok(()),
                };
                let (q, got) = match (att(before), att(after)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return Ok(()),
                };
                let v = seen(&self.nodes[n].cal, s);
                let cands = match marg_step(q, &st, &v) {
                    Some(c) => c,
                    None => return Ok(()),
                };
                self.st.evals += 1;
                let d = cands.iter().map(|c| angle(*c, got)).fold(f64::INFINITY, f64::min);
                let tol = step_tol(&st, &v);
                if !self.st.within(d, tol) {
                    return self.viol(
                        "marg-step-off",
                        format!("{} rad from the algorithm's result {:?}; got {}", d, cands[0], show(after)),
                    );
                }
                Ok(())
            }
            "P08" => self.watch_am(n, s, clean, r, after),
            "P09" => self.watch_adaptive(n, s, before, r, after),
            "P10" => self.watch_tilt(n, s, salt, before, r, after),
            "P11" => {
                if !init {
                    return Ok(());
                }
                let rt = match self.nodes[n].twin.as_mut() {
                    Some(t) => t.update(s),
                    None => return Ok(()),
                };
                if rt != *r {
                    return self.viol(
                        format!("restart-answer-{}", k.name()),
                        format!("restarted node answered {:?}, the other {:?}", r, rt),
                    );
                }
                if r.is_ok() {
                    self.nodes[n].blank = false;
                }
                self.compare_restart(n)
            }
            "P13" => self.watch_cal(n, s, before, r, after),
            "P14" => {
                if !init {
                    return Ok(());
                }
                self.st.evals += 1;
                if r.is_err() {
                    if !same(before, after) {
                        let d = format!("refused with {:?}; before {} after {}", r, show(before), show(after));
                        return self.viol(format!("refused-sample-changed-{}", k.name()), d);
                    }
                    return Ok(());
                }
                let rt = match self.nodes[n].twin.as_mut() {
                    Some(t) => t.update(s),
                    None => return Ok(()),
                };
                if rt.is_err() {
                    return self.viol(format!("refusal-left-trace-{}", k.name()), format!("reference answers {:?}", rt));
                }
                self.compare_twin(n, "refusal-left-trace")
            }
            "P15" => {
                if !init {
                    self.st.evals += 1;
                    let fin = s.g.iter().all(|x| x.is_some_and(|v| v.is_finite()))
                        && s.a.iter().chain(s.m.iter()).all(|x| x.is_finite());
                    if r.is_ok() || (fin && *r != Err(not_init(k))) {
                        return self.viol(format!("uninit-update-{}", k.name()), format!("answered {:?}", r));
                    }
                    return self.check_uninit(n);
                }
                let rt = match self.nodes[n].twin.as_mut() {
                    Some(t) => t.update(s),
                    None => return Ok(()),
                };
                self.st.evals += 1;
                if rt != *r {
                    return self.viol(
                        format!("after-failed-init-answer-{}", k.name()),
                        format!("node answered {:?}, a node initialised at once {:?}", r, rt),
                    );
                }
                self.compare_twin(n, "after-failed-init")
            }
            "P17" => {
                self.st.evals += 1;
                Ok(())
            }
            "P18" => self.watch_dead(n, s, salt, before, r, after),
            "P19" => self.watch_mounting(n, s, salt, before, r, after),
            "P20" => self.watch_units(n, s, salt, before, r, after),
            "P21" => self.watch_correction(n, s, before, r, after),
            "P22" => self.watch_mirror(n, s, salt, before, r, after),
            "P23" => self.watch_reference(n, s, salt, before, r, after),
            "P24" => self.watch_undo(n, s, before, r, after),
            "P25" => self.watch_settings(n, s, before, r, after),
            "P26" => self.watch_refusal(n, s, before, r),
            _ => Ok(()),
        }
    }

    fn watch_ar(&mut self, n: usize, s: &Smp, before: &Res<[u32; 4]>, r: &Res<()>, after: &Res<[u32; 4]>) -> Chk {
        let st = match self.nodes[n].st {
            Some(c) if legal(&c) && self.nodes[n].unit => c,
            _ => return Ok(()),
        };
        if r.is_err() {
            return Ok(());
        }
        let (q, got) = match (att(before), att(after)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        let raw = match gyro_raw(s) {
            Some(g) => g,
            None => return Ok(()),
        };
        let (w, ws) = apply_cal(&self.nodes[n].cal[0], raw);
        let ts = st.ts as f64;
        let phi = vnorm(w) * ts / 2.0;
        let scale = vnorm(ws);
        let meth = METHODS[st.method as usize];
        let sure = match st.method {
            0 => phi < 500.0,
            1 => phi < 3.0,
            _ => phi < 1e4,
        } && scale * ts < 1e3
            && scale < 1e15;
        let inc = ar_increment(st.method, st.order, w, ts);
        if sure {
            if let Some(inc) = inc {
                self.st.evals += 1;
                let want = qmul(q, inc);
                // Cancellation in a truncated series makes its direction less certain.
                let amp = if st.method == 1 { (phi).exp().powi(2) } else { 1.0 };
                let tol = 3e-6 * amp + 2e-6 * (2.0 * phi) + 2e-6 * ts * scale;
                let mut d = angle(want, got);
                if vnorm(w) < 2e-4 {
                    // The library may treat very slow rates as standstill.
                    d = d.min(angle(q, got));
                }
                if !self.st.within(d, tol) {
                    return self.viol(
                        format!("ar-step-off-{}", meth),
                        format!("{} rad from the {} result (order {}), turn {} rad", d, meth, st.order, 2.0 * phi),
                    );
                }
                if vnorm(w) == 0.0 && scale == 0.0 && !same(before, after) {
                    return self.viol(format!("ar-moved-at-rest-{}", meth), format!("{} -> {}", show(before), show(after)));
                }
            }
        }
        // Over the whole history: distance to the true attitude stays below the sum of what each
        // accepted sample got wrong.
        if let Some(inc) = inc {
            let d = angle(inc, self.nodes[n].d_true);
            let amp = if st.method == 1 { (2.0 * phi).exp() } else { 1.0 };
            let slack = 3e-6 * amp + 2e-6 * (2.0 * phi) + 2e-6 * ts * scale + if vnorm(w) < 2e-4 { vnorm(w) * ts } else { 0.0 };
            if self.nodes[n].steps == 0 {
                self.nodes[n].bound = angle(q, qmul(self.q, qconj(self.nodes[n].d_true)));
            }
            self.nodes[n].bound += d + slack;
            self.st.evals += 1;
            let e = angle(got, self.q);
            let b = self.nodes[n].bound;
            if sure && !self.st.within(e, b.min(7.0) + 1e-6) {
                return self.viol(format!("ar-drift-{}", meth), format!("{} rad from the truth, {} can be explained", e, b));
            }
            if !sure {
                self.nodes[n].bound += 7.0;
            }
        } else {
            self.nodes[n].bound = f64::INFINITY;
        }
        Ok(())
    }

    fn watch_settle(&mut self, n: usize, clean: bool, after: &Res<[u32; 4]>) -> Chk {
        let st = match self.nodes[n].st {
            Some(c) if legal(&c) => c,
            _ => return Ok(()),
        };
        let g = st.g.unwrap_or(9.81) as f64;
        let gain_ok = st.alpha >= 0.02
            && st.beta >= 0.02
            && (!st.adaptive || ((self.tr.grav - g) / g).abs() <= (st.t1 as f64) * 0.9 - 1e-5);
        // A clean sample that is refused counts too: it must settle all the same.
        if !gain_ok || !clean {
            self.nodes[n].clean = 0;
            return Ok(());
        }
        let need = settle_steps(&st);
        let ts = st.ts as f64;
        let node = &mut self.nodes[n];
        let resting = node.rate == 0.0;
        let slow = (node.adv - ts).abs() <= 1e-3 * ts && node.rate * ts <= 0.05;
        if resting {
            node.clean += 1;
        } else if slow && node.clean >= need {
            // Keeps the claim to have settled.
        } else {
            node.clean = 0;
        }
        if node.clean >= need {
            self.st.evals += 1;
            if let Some(q) = att(after) {
                let e = angle(q, qconj(self.q));
                if !self.st.within(e, 0.01) {
                    return self.viol(
                        if resting { "marg-not-settled" } else { "marg-lost-track" },
                        format!("{} rad from the truth after {} clean samples", e, self.nodes[n].clean),
                    );
                }
            }
        }
        Ok(())
    }

    fn watch_am(&mut self, n: usize, s: &Smp, clean: bool, r: &Res<()>, after: &Res<[u32; 4]>) -> Chk {
        if self.nodes[n].st.is_none() || self.nodes[n].kind != Kind::Am {
            return Ok(());
        }
        let st = self.nodes[n].st.unwrap();
        let other = q32(qunit([0.3, -0.5, 0.7, 0.4]));
        let mut c = st;
        c.cal = self.nodes[n].cal;
        c.q = other.map(Some);
        let mut fresh = match Real::start(&c) {
            Ok(f) => f,
            Err(_) => return Ok(()),
        };
        let rf = fresh.update(s);
        self.st.evals += 1;
        if rf != *r {
            return self.viol("am-answer-depends-on-history", format!("node answered {:?}, a fresh one {:?}", r, rf));
        }
        if r.is_err() {
            return Ok(());
        }
        let fv = fresh.view();
        if !same(&fv, after) {
            return self.viol(
                "am-depends-on-history",
                format!("node reads {}, a fresh one given the same sample {}", show(after), show(&fv)),
            );
        }
        let got = match att(after) {
            Some(q) => q,
            None => return Ok(()),
        };
        let v = seen(&self.nodes[n].cal, s);
        let (an, mn) = (vnorm(v.a), vnorm(v.m));
        if an > 0.01 && an < 1e6 && mn > 0.01 && mn < 1e6 && v.a_cond < 100.0 && v.m_cond < 100.0 {
            let hor = vangle(v.a, v.m).sin().abs();
            if hor > 0.05 {
                self.st.evals += 1;
                let tol = 1e-4 + 3e-6 * (v.a_cond + v.m_cond) / hor;
                let e = vangle(down(got), v.a);
                if !self.st.within(e, tol) {
                    return self.viol("am-tilt-off", format!("gravity explained {} rad off", e));
                }
                let l = rot_inv(got, v.m);
                let psi = l[1].atan2(l[0]).abs();
                if !self.st.within(psi, tol) {
                    return self.viol("am-heading-off", format!("field explained {} rad off north", psi));
                }
                if clean && self.tr.dip.abs() < 1.3 {
                    let e = angle(got, qconj(self.q));
                    if !self.st.within(e, 2.0 * tol) {
                        return self.viol("am-not-true", format!("{} rad from the true attitude", e));
                    }
                }
            }
        }
        Ok(())
    }

    fn watch_adaptive(&mut self, n: usize, s: &Smp, before: &Res<[u32; 4]>, r: &Res<()>, after: &Res<[u32; 4]>) -> Chk {
        let st = match self.nodes[n].st {
            Some(c) if legal(&c) && c.adaptive => c,
            _ => return Ok(()),
        };
        let q = match att(before) {
            Some(q) => q,
            None => return Ok(()),
        };
        let v = seen(&self.nodes[n].cal, s);
        let an = vnorm(v.a);
        if !(an > 0.01 && an < 1e6 && v.a_cond < 100.0) {
            return Ok(());
        }
        let g = st.g.unwrap_or(9.81) as f64;
        let e = ((an - g) / g).abs();
        let m = norm_error_rounding(an, g, v.a_cond);
        let (t1, t2) = (st.t1 as f64, st.t2 as f64);
        // The gain is continuous, so a magnitude within rounding of a threshold decides nothing by itself.
        let dg = m / (t2 - t1);
        if !(dg < 0.25) && e > t1 - m && e < t2 + m {
            return Ok(());
        }
        let gain = (st.alpha as f64 * ((t2 - e) / (t2 - t1)).clamp(0.0, 1.0)) as f32;
        let class = if e <= t1 - m {
            0
        } else if e >= t2 + m {
            2
        } else {
            1
        };
        let mut f = match self.fork(n, q, |c| {
            c.adaptive = false;
            c.alpha = gain;
        }) {
            Some(f) => f,
            None => return Ok(()),
        };
        let rf = f.update(s);
        self.st.evals += 1;
        let where_ = ["calm", "between", "disturbed"][class];
        if rf.is_ok() != r.is_ok() {
            return self.viol(
                format!("adaptive-answer-{}", where_),
                format!("norm error {}: adaptive filter answered {:?}, fixed gain {} answered {:?}", e, r, gain, rf),
            );
        }
        if r.is_err() {
            return Ok(());
        }
        if let (Some(a), Some(b)) = (att(after), att(&f.view())) {
            let d = angle(a, b);
            let mut tol = 2e-5;
            if class == 1 {
                tol += 4.0 * st.alpha as f64 * dg + 1e-5;
                if d > tol {
                    // A change of the gain by rounding may be amplified, next to a half turn of the heading or
                    // with a predicted field close to the vertical: the published algorithm decides.
                    let near = match marg_step(q, &st, &v) {
                        Some(c) => c.iter().map(|c| angle(*c, a)).fold(f64::INFINITY, f64::min),
                        None => return Ok(()),
                    };
                    if near <= step_tol(&st, &v) {
                        return Ok(());
                    }
                }
            }
            if !self.st.within(d, tol) {
                return self.viol(
                    format!("adaptive-gain-{}", where_),
                    format!("norm error {}: {} rad from the filter with gain {}", e, d, gain),
                );
            }
        }
        Ok(())
    }

    fn watch_tilt(
        &mut self,
        n: usize,
        s: &Smp,
        salt: u32,
        before: &Res<[u32; 4]>,
        r: &Res<()>,
        after: &Res<[u32; 4]>,
    ) -> Chk {
        let st = match self.nodes[n].st {
            Some(c) if legal(&c) && self.nodes[n].unit && r.is_ok() => c,
            _ => return Ok(()),
        };
        let (q, got) = match (att(before), att(after)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        let v = seen(&self.nodes[n].cal, s);
        if !(vnorm(v.a) < 1e9 && vnorm(v.m) < 1e9 && v.w_scale * (st.ts as f64) < 1e3) {
            return Ok(());
        }
        let t0 = down(got);
        for i in 0..3u64 {
            let h = mix(salt as u64 ^ (i << 40));
            let u = |k: u64| ((mix(h ^ k) >> 40) as f64 / (1u64 << 24) as f64) * 2.0 - 1.0;
            let mut o = *s;
            match h % 4 {
                0 => o.m = [(u(1) * 60.0) as f32, (u(2) * 60.0) as f32, (u(3) * 60.0) as f32],
                1 => o.m = [-s.m[0], -s.m[1], s.m[2]],
                2 => o.m = [s.m[0] + (u(1) * 100.0) as f32, s.m[1], s.m[2] + (u(2) * 10.0) as f32],
                _ => o.m = [s.m[1], s.m[0], -s.m[2]],
            }
            let mut f = match self.fork(n, q, |_| {}) {
                Some(f) => f,
                None => return Ok(()),
            };
            if f.update(&o).is_err() {
                continue;
            }
            self.st.evals += 1;
            if let Some(b) = att(&f.view()) {
                let d = vangle(t0, down(b));
                if !self.st.within(d, 2e-5) {
                    return self.viol(
                        "field-tilts",
                        format!("fields {:?} and {:?} leave tilts {} rad apart", s.m, o.m, d),
                    );
                }
            }
        }
        Ok(())
    }

    fn watch_cal(&mut self, n: usize, s: &Smp, before: &Res<[u32; 4]>, r: &Res<()>, after: &Res<[u32; 4]>) -> Chk {
        let st = match self.nodes[n].st {
            Some(c) => c,
            None => return Ok(()),
        };
        let k = self.nodes[n].kind;
        self.check_cal_read(n)?;
        if r.is_err() {
            return Ok(());
        }
        if k.is_sensor() {
            let raw = match k {
                Kind::Gyr => match gyro_raw(s) {
                    Some(g) => g,
                    None => return Ok(()),
                },
                Kind::Acc => s.a,
                _ => s.m,
            };
            let si = match k {
                Kind::Gyr => 0,
                Kind::Acc => 1,
                _ => 2,
            };
            let (want, sc) = apply_cal(&self.nodes[n].cal[si], raw);
            let got = match self.nodes[n].real.reading() {
                Ok(g) => g,
                Err(c) => return self.viol(format!("reading-refused-{}", k.name()), format!("{:?}", c)),
            };
            self.st.evals += 1;
            for i in 0..3 {
                if !sc[i].is_finite() || sc[i] > 1e36 {
                    continue;
                }
                let d = (got[i] as f64 - want[i]).abs();
                if !self.st.within(d, 1e-6 * sc[i] + 1e-36) {
                    return self.viol(
                        format!("reading-off-{}", k.name()),
                        format!("axis {}: raw {:?} calibration {:?} gives {} not {}", i, raw, self.nodes[n].cal[si], want[i], got[i]),
                    );
                }
            }
            return Ok(());
        }
        if !k.has_attitude() || !legal(&st) {
            return Ok(());
        }
        // A filter sees the sample exactly as stand-alone sensors with the same calibration do.
        let q = match att(before) {
            Some(q) => q,
            None => return Ok(()),
        };
        let v = seen(&self.nodes[n].cal, s);
        if (k.uses(1) && v.a_cond > 100.0) || (k.uses(2) && v.m_cond > 100.0) || v.w_scale * st.ts as f64 > 3.0 {
            return Ok(());
        }
        if k == Kind::Marg {
            match marg_step(q, &st, &v) {
                // Next to a branch of the algorithm rounding decides: nothing to compare.
                Some(c) if c.len() == 1 => {}
                _ => return Ok(()),
            }
        } else if k == Kind::Am {
            let a = vscale(v.a, 1.0 / vnorm(v.a));
            if a[2].abs() < 1e-4 || vangle(v.a, v.m).sin().abs() < 0.05 {
                return Ok(());
            }
        } else if st.method == 1 && v.w_scale * st.ts as f64 > 1.0 {
            return Ok(());
        } else if vnorm(v.w) < 3e-4 {
            return Ok(());
        }
        let o = Smp {
            g: [0, 1, 2].map(|i| Some(v.w[i] as f32)),
            a: [0, 1, 2].map(|i| v.a[i] as f32),
            m: [0, 1, 2].map(|i| v.m[i] as f32),
        };
        let mut f = match self.fork(n, q, |c| c.cal = [CAL_ID; 3]) {
            Some(f) => f,
            None => return Ok(()),
        };
        if f.update(&o).is_err() {
            return Ok(());
        }
        self.st.evals += 1;
        if let (Some(a), Some(b)) = (att(after), att(&f.view())) {
            let d = angle(a, b);
            let mut turn = if k.uses(0) { 1e-5 * v.w_scale * st.ts as f64 } else { 0.0 };
            if k == Kind::Marg {
                turn += gain_slack(&st, &v);
            }
            let tol = 1e-4 + 3e-6 * (v.a_cond.min(1e3) + v.m_cond.min(1e3)) * 20.0 + turn;
            if !self.st.within(d, tol) {
                return self.viol(
                    format!("filter-calibration-{}", k.name()),
                    format!("{} rad from the same filter fed with the corrected sample", d),
                );
            }
        }
        Ok(())
    }

    fn watch_dead(
        &mut self,
        n: usize,
        s: &Smp,
        salt: u32,
        before: &Res<[u32; 4]>,
        r: &Res<()>,
        after: &Res<[u32; 4]>,
    ) -> Chk {
        let st = match self.nodes[n].st {
            Some(c) if legal(&c) => c,
            _ => return Ok(()),
        };
        let fin = s.g.iter().flatten().all(|x| x.is_finite()) && s.a.iter().chain(s.m.iter()).all(|x| x.is_finite());
        if !fin || r.is_err() {
            return Ok(());
        }
        let cal = &self.nodes[n].cal;
        let zero = |raw: [f32; 3], c: &Cal| (0..3).all(|i| raw[i] == c[9 + i]);
        let (da, dm) = (zero(s.a, &cal[1]), zero(s.m, &cal[2]));
        if !da && !dm {
            return Ok(());
        }
        self.st.evals += 1;
        if st.kind == Kind::Am {
            return self.viol(
                format!("dead-sensor-accepted-am-{}", if da { "acc" } else { "mag" }),
                format!("accepted; attitude {} -> {}", show(before), show(after)),
            );
        }
        let (q, got) = match (att(before), att(after)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        let v = seen(cal, s);
        let ts = st.ts as f64;
        if v.w_scale * ts > 50.0 || (qnorm(q) - 1.0).abs() > 1e-3 {
            return Ok(());
        }
        let tol = 1e-4 + 2e-6 * v.w_scale * ts;
        let pred = predict(q, v.w, ts);
        if da {
            let d = vangle(down(got), down(pred));
            if !self.st.within(d, tol) {
                return self.viol("dead-accelerometer-tilts", format!("tilt moved {} rad on a zero acceleration", d));
            }
        }
        if dm && da {
            let d = angle(got, pred);
            if !self.st.within(d, tol) {
                return self.viol("dead-sensors-steer", format!("attitude moved {} rad on zero readings", d));
            }
        } else if dm {
            // Heading must be as if the magnetometer had no weight.
            let mut o = *s;
            let (c, sn) = ((salt as f64).cos() * 30.0, (salt as f64).sin() * 30.0);
            let m = rot(got, [c, sn, 5.0]);
            o.m = match invert_cal(&cal[2], m) {
                Some(m) => m,
                None => return Ok(()),
            };
            if let Some(mut f) = self.fork(n, q, |c| c.beta = 0.0) {
                if f.update(&o).is_ok() {
                    if let Some(b) = att(&f.view()) {
                        let d = angle(got, b);
                        if !self.st.within(d, tol * 3.0) {
                            return self.viol("dead-magnetometer-steers", format!("attitude moved {} rad on a zero field", d));
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// How far rounding alone may separate two executions of one update that ought to agree; None where it may
    /// decide a branch or be amplified without bound.
    fn rounding(&self, n: usize, q: Q, s: &Smp) -> Option<f64> {
        let st = self.nodes[n].st?;
        if !legal(&st) || (qnorm(q) - 1.0).abs() > 1e-3 {
            return None;
        }
        let v = seen(&self.nodes[n].cal, s);
        let ts = st.ts as f64;
        if st.kind.uses(0) && (gyro_raw(s).is_none() || !(v.w_scale < 1e6)) {
            return None;
        }
        let wn = vnorm(v.w);
        match st.kind {
            Kind::Ar => {
                let phi = v.w_scale * ts / 2.0;
                // Very slow rates may be treated as standstill.
                if !(phi < if st.method == 1 { 3.0 } else { 100.0 }) || (wn > 0.0 && wn < 2e-4) {
                    return None;
                }
                let amp = if st.method == 1 { (2.0 * phi).exp() } else { 1.0 };
                Some(6e-6 * amp + 8e-6 * phi)
            }
            Kind::Am => {
                let (an, mn) = (vnorm(v.a), vnorm(v.m));
                let hor = vangle(v.a, v.m).sin().abs();
                let ok = an > 0.01 && an < 1e6 && mn > 0.01 && mn < 1e6 && v.a_cond < 100.0 && v.m_cond < 100.0;
                if !ok || !(hor > 0.05) {
                    return None;
                }
                Some(1e-5 + 3e-6 * (v.a_cond + v.m_cond) / hor)
            }
            Kind::Marg => match marg_step(q, &st, &v) {
                Some(c) if c.len() == 1 => Some(step_tol(&st, &v)),
                _ => None,
            },
            _ => None,
        }
    }

    /// Runs the sample through a variant of the node and demands the same answer and the expected attitude.
    fn variant(&mut self, what: &str, f: Option<Real>, s: &Smp, r: &Res<()>, want: Q, tol: f64) -> Chk {
        let mut f = match f {
            Some(f) => f,
            None => return Ok(()),
        };
        let rf = f.update(s);
        self.st.evals += 1;
        let k = f.kind.name();
        if rf.is_ok() != r.is_ok() {
            return self.viol(format!("{}-answer-{}", what, k), format!("the node answered {:?}, its variant {:?}", r, rf));
        }
        if r.is_err() {
            return Ok(());
        }
        if let Some(b) = att(&f.view()) {
            let d = angle(want, b);
            if !self.st.within(d, tol) {
                return self.viol(format!("{}-matters-{}", what, k), format!("{} rad apart: {:?} and {:?}", d, want, b));
            }
        }
        Ok(())
    }

    fn watch_mounting(&mut self, n: usize, s: &Smp, salt: u32, before: &Res<[u32; 4]>, r: &Res<()>, after: &Res<[u32; 4]>) -> Chk {
        let (q, got) = match (att(before), att(after)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        let tol = match self.rounding(n, q, s) {
            Some(t) => t,
            None => return Ok(()),
        };
        let p = axis_turn(mix(salt as u64 ^ ((self.step as u64) << 32)));
        // The attitude as seen from the turned axes.
        let local = self.nodes[n].kind == Kind::Ar;
        let seen_from = |q: Q| if local { qmul(q, qconj(p)) } else { qmul(p, q) };
        let f = self.fork(n, seen_from(q), |c| {
            for i in 0..3 {
                c.cal[i] = turn_cal(p, &c.cal[i]);
            }
        });
        let g = match gyro_raw(s) {
            Some(g) => turn(p, g).map(Some),
            None => s.g,
        };
        let o = Smp { g, a: turn(p, s.a), m: turn(p, s.m) };
        self.variant("mounting", f, &o, r, seen_from(got), tol)
    }

    fn watch_units(&mut self, n: usize, s: &Smp, salt: u32, before: &Res<[u32; 4]>, r: &Res<()>, after: &Res<[u32; 4]>) -> Chk {
        let (q, got) = match (att(before), att(after)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        let tol = match self.rounding(n, q, s) {
            Some(t) => t,
            None => return Ok(()),
        };
        let h = mix(salt as u64 ^ ((self.step as u64) << 32));
        let factor = |i: u64| -> f32 {
            [0.5, 2.0, 0.125, 16.0, 0.1019368, 9.81, 57.29578, 0.01, 100.0, 1000.0][(mix(h ^ i) % 10) as usize]
        };
        let v = seen(&self.nodes[n].cal, s);
        let far = |v: V, k: f32| vnorm(v) * (k as f64) > 0.01 && vnorm(v) * (k as f64) < 1e6;
        let (kw, ka, km) = (factor(1), factor(2), factor(3));
        let marg = self.nodes[n].kind == Kind::Marg;
        // Magnitudes that the library may take for nothing are left out.
        let slow = self.nodes[n].kind == Kind::Ar && vnorm(v.w) > 0.0 && vnorm(v.w) * (kw as f64) < 2e-4;
        let ts_ok = self.nodes[n].st.is_some_and(|c| (1e-6..1e4).contains(&c.ts));
        let skip_w = !self.nodes[n].kind.uses(0) || slow || !ts_ok || h & 1 != 0;
        let g = self.nodes[n].st.and_then(|c| c.g).unwrap_or(9.81);
        let skip_a = !far(v.a, ka) || !(1e-3..1e6).contains(&g) || !(1e-3..1e6).contains(&(g * ka)) || h & 2 != 0;
        let skip_m = !far(v.m, km) || h & 4 != 0;
        let f = self.fork(n, q, |c| {
            let mut scale = |s: usize, k: f32| c.cal[s].iter_mut().take(9).for_each(|x| *x *= k);
            if !skip_w {
                scale(0, kw);
            }
            if !skip_a {
                scale(1, ka);
            }
            if !skip_m {
                scale(2, km);
            }
            if !skip_w {
                c.ts /= kw;
            }
            if !skip_a {
                c.g = Some(g * ka);
            }
            if marg && h & 8 != 0 {
                c.h = Some(factor(4));
            }
        });
        self.variant("unit", f, s, r, got, tol)
    }

    fn watch_correction(&mut self, n: usize, s: &Smp, before: &Res<[u32; 4]>, r: &Res<()>, after: &Res<[u32; 4]>) -> Chk {
        let st = match self.nodes[n].st {
            Some(c) if r.is_ok() && c.kind == Kind::Marg => c,
            _ => return Ok(()),
        };
        let (q, got) = match (att(before), att(after)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        let tol = match self.rounding(n, q, s) {
            Some(t) => t,
            None => return Ok(()),
        };
        let v = seen(&self.nodes[n].cal, s);
        // What the filter would say without either correction, and without that of the heading.
        let stage = |f: Option<Real>| -> Option<Q> {
            let mut f = f?;
            f.update(s).ok()?;
            att(&f.view())
        };
        let bare = stage(self.fork(n, q, |c| {
            c.adaptive = false;
            c.alpha = 0.0;
            c.beta = 0.0;
        }));
        let tilted = stage(self.fork(n, q, |c| c.beta = 0.0));
        let (bare, tilted) = match (bare, tilted) {
            (Some(a), Some(b)) => (a, b),
            _ => {
                return self.viol("correction-refused", "accepted, but refused with a gain of zero");
            }
        };
        self.st.evals += 1;
        let e = angle(bare, predict(q, v.w, st.ts as f64));
        if !self.st.within(e, tol) {
            return self.viol("prediction-off", format!("without gains the attitude is {} rad from the prediction", e));
        }
        // The share of an angle that a gain takes away, along the arc and along the chord.
        let share = |g: f64, e: f64| {
            let chord = 2.0 * (g * (e / 2.0).sin()).atan2(1.0 - g + g * (e / 2.0).cos());
            (chord.min(g * e), chord.max(g * e))
        };
        let alpha = adaptive_gain(&st, vnorm(v.a), v.a_cond);
        let (lo, hi) = alpha.iter().fold((f64::INFINITY, 0.0f64), |(l, h), x| (l.min(*x), h.max(*x)));
        let e0 = vangle(down(bare), v.a);
        let e1 = vangle(down(got), v.a);
        if e0 < std::f64::consts::FRAC_PI_2 - 1e-3 {
            self.st.evals += 1;
            let moved = vangle(down(got), down(bare));
            if e1 > e0 - share(lo, e0).0 + tol {
                return self.viol("tilt-not-corrected", format!("gravity {} rad off before the correction with gain {}, {} after", e0, lo, e1));
            }
            if moved > share(hi, e0).1 + tol {
                return self.viol("tilt-overcorrected", format!("gravity {} rad off, gain {}, but the vertical moved {} rad", e0, hi, moved));
            }
        }
        let head = |q: Q| {
            let l = rot_inv(q, v.m);
            (l[1].atan2(l[0]), (l[0] * l[0] + l[1] * l[1]).sqrt() / vnorm(v.m))
        };
        let beta = st.beta as f64;
        let ((h0, hor), (h1, _)) = (head(tilted), head(got));
        if hor > 0.05 && h0.abs() < std::f64::consts::PI - 1e-3 {
            self.st.evals += 1;
            let tol = tol / hor;
            let moved = angle(got, tilted);
            if h1.abs() > h0.abs() - share(beta, h0.abs()).0 + tol {
                return self.viol("heading-not-corrected", format!("field {} rad off before the correction with gain {}, {} after", h0, beta, h1));
            }
            if moved > share(beta, h0.abs()).1 + tol {
                return self.viol("heading-overcorrected", format!("field {} rad off, gain {}, but the attitude moved {} rad", h0, beta, moved));
            }
        }
        Ok(())
    }

    /// The predicted and the measured gravity are less than a quarter turn apart, so that the correction between
    /// them is the shortest one.
    fn upright(&self, n: usize, q: Q, s: &Smp) -> bool {
        let v = seen(&self.nodes[n].cal, s);
        match self.nodes[n].st {
            Some(c) if c.kind == Kind::Marg => {
                vangle(down(predict(q, v.w, c.ts as f64)), v.a) < std::f64::consts::FRAC_PI_2 - 1e-3
            }
            _ => true,
        }
    }

    fn watch_mirror(&mut self, n: usize, s: &Smp, salt: u32, before: &Res<[u32; 4]>, r: &Res<()>, after: &Res<[u32; 4]>) -> Chk {
        let (q, got) = match (att(before), att(after)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        let tol = match self.rounding(n, q, s) {
            Some(t) if self.upright(n, q, s) => t,
            _ => return Ok(()),
        };
        // With gravity and field the plane of both is the mirror; without them any plane will do.
        let ax = match self.nodes[n].kind {
            Kind::Ar => (mix(salt as u64 ^ ((self.step as u64) << 32)) % 3) as usize,
            _ => 1,
        };
        let sign = |i: usize| if i == ax { -1.0f32 } else { 1.0 };
        let image = |q: Q| {
            let mut o = q;
            for i in 0..3 {
                o[i + 1] *= -sign(i) as f64;
            }
            o
        };
        let f = self.fork(n, image(q), |c| {
            const AT: [[usize; 3]; 3] = [[0, 5, 7], [3, 1, 8], [4, 6, 2]];
            for k in 0..3 {
                for i in 0..3 {
                    for j in 0..3 {
                        c.cal[k][AT[i][j]] *= sign(i) * sign(j);
                    }
                    c.cal[k][9 + i] *= if k == 0 { -sign(i) } else { sign(i) };
                }
            }
        });
        let o = Smp {
            g: [0, 1, 2].map(|i| s.g[i].map(|x| -sign(i) * x)),
            a: [0, 1, 2].map(|i| sign(i) * s.a[i]),
            m: [0, 1, 2].map(|i| sign(i) * s.m[i]),
        };
        self.variant("side", f, &o, r, image(got), tol)
    }

    fn watch_reference(&mut self, n: usize, s: &Smp, salt: u32, before: &Res<[u32; 4]>, r: &Res<()>, after: &Res<[u32; 4]>) -> Chk {
        let (q, got) = match (att(before), att(after)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        let tol = match self.rounding(n, q, s) {
            Some(t) => t,
            None => return Ok(()),
        };
        // The other sign stands for the same attitude.
        let f = self.fork(n, q.map(|x| -x), |_| ());
        self.variant("sign", f, s, r, got, tol)?;
        let h = mix(salt as u64 ^ ((self.step as u64) << 32));
        let x = |i: u64| (mix(h ^ i) >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0;
        match self.nodes[n].kind {
            Kind::Ar => {
                let p = qunit([x(1) + 1e-3, x(2), x(3), x(4)]);
                let f = self.fork(n, qmul(p, q), |_| ());
                self.variant("reference", f, s, r, qmul(p, got), tol)
            }
            Kind::Marg if self.upright(n, q, s) => {
                let a = x(1) * std::f64::consts::PI / 2.0;
                let p = [a.cos(), 0.0, 0.0, a.sin()];
                let mut bare = match self.fork(n, q, |c| c.beta = 0.0) {
                    Some(f) => f,
                    None => return Ok(()),
                };
                let rb = bare.update(s);
                let want = match att(&bare.view()) {
                    Some(w) => w,
                    None => return Ok(()),
                };
                let f = self.fork(n, qmul(q, p), |c| c.beta = 0.0);
                self.variant("reference", f, s, &rb, qmul(want, p), tol)
            }
            _ => Ok(()),
        }
    }

    fn watch_undo(&mut self, n: usize, s: &Smp, before: &Res<[u32; 4]>, r: &Res<()>, after: &Res<[u32; 4]>) -> Chk {
        let st = match self.nodes[n].st {
            Some(c) if r.is_ok() && c.kind.uses(0) => c,
            _ => return Ok(()),
        };
        let (q, mut got) = match (att(before), att(after)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        let tol = match self.rounding(n, q, s) {
            Some(t) => 3.0 * t,
            None => return Ok(()),
        };
        let still = |c: &mut Cfg| {
            c.adaptive = false;
            c.alpha = 0.0;
            c.beta = 0.0;
        };
        if st.kind == Kind::Marg {
            let mut bare = match self.fork(n, q, still) {
                Some(f) => f,
                None => return Ok(()),
            };
            got = match (bare.update(s), att(&bare.view())) {
                (Ok(()), Some(b)) => b,
                _ => return Ok(()),
            };
        }
        // The opposite rate, by way of the calibration: no rounding.
        let back = self.fork(n, got, |c| {
            still(c);
            c.cal[0].iter_mut().take(9).for_each(|x| *x = -*x);
        });
        self.variant("undo", back, s, r, q, tol)?;
        if st.kind == Kind::Ar && st.method == 0 {
            let mut half = match self.fork(n, q, |c| c.ts *= 0.5) {
                Some(f) => f,
                None => return Ok(()),
            };
            if half.update(s).is_err() {
                return self.viol("half-refused", "accepted over a period, refused over half of it");
            }
            self.variant("halves", Some(half), s, r, got, tol)?;
        }
        Ok(())
    }

    fn watch_settings(&mut self, n: usize, s: &Smp, before: &Res<[u32; 4]>, r: &Res<()>, after: &Res<[u32; 4]>) -> Chk {
        let st = match self.nodes[n].st {
            Some(c) => c,
            None => return Ok(()),
        };
        let what = match out_of_range(&st, &seen(&self.nodes[n].cal, s)) {
            Some(w) => w,
            None => return Ok(()),
        };
        self.st.evals += 1;
        let said = |c: &Cfg| match c.kind {
            Kind::Ar => format!("method {}", c.method),
            _ => format!("gains {} {}, thresholds {} {} and {} {}", c.alpha, c.beta, c.t_acc, c.t_mag, c.t1, c.t2),
        };
        if r.is_ok() {
            return self.viol(
                format!("accepted-with-{}", what),
                format!("the setting is out of its range and the sample needs it, yet the update was accepted: {}", said(&st)),
            );
        }
        if before != after {
            return self.viol(format!("moved-with-{}", what), format!("the refused update changed the attitude: {}", said(&st)));
        }
        Ok(())
    }

    fn watch_refusal(&mut self, n: usize, s: &Smp, before: &Res<[u32; 4]>, r: &Res<()>) -> Chk {
        let (st, got) = match (self.nodes[n].st, r) {
            (Some(c), Err(e)) if c.kind != Kind::Dav => (c, *e),
            _ => return Ok(()),
        };
        let k = st.kind;
        let (sound, mut causes) = repaired(&st);
        if !legal(&sound) {
            return Ok(());
        }
        let v = seen(&self.nodes[n].cal, s);
        let g: Vec<f32> = s.g.iter().flatten().copied().collect();
        let mut faulty = Vec::new();
        if k.uses(0) {
            faulty.extend(bad_values(&g));
            match (k, g.len()) {
                (_, 3) => {}
                (Kind::Marg, 0) => faulty.push(Code::NoGyro),
                (Kind::Marg, _) => faulty.push(Code::InvalidGyro),
                _ => faulty.push(Code::Nan),
            }
        }
        for (i, x) in [(1, &s.a), (2, &s.m)] {
            if k.uses(i) {
                faulty.extend(bad_values(x));
            }
        }
        if faulty.is_empty() {
            // The setting must be the reason.
            let q = if k.has_attitude() { att(before) } else { None };
            if out_of_range(&st, &v).is_none() || !well_formed(&sound, &self.nodes[n].cal, q, s) {
                return Ok(());
            }
        } else {
            // What the other sensors say must be no reason.
            let fin = |x: &[f32]| x.iter().all(|x| x.is_finite());
            let fine = |x: V, cond: f64| (0.1..1e4).contains(&vnorm(x)) && cond < 1e3;
            let rate_ok = g.len() < 3 || !fin(&g) || (v.w_scale < 1e6 && v.w_scale * (st.ts as f64) < 2.0);
            let acc_ok = !fin(&s.a) || if k == Kind::Acc { true } else { fine(v.a, v.a_cond) };
            let mag_ok = !fin(&s.m) || if k == Kind::Mag { true } else { fine(v.m, v.m_cond) };
            if (k.uses(0) && !rate_ok) || (k.uses(1) && !acc_ok) || (k.uses(2) && !mag_ok) {
                return Ok(());
            }
            causes.extend(faulty);
        }
        self.named(got, &causes, k, "sample")
    }

    /// The refusal is for one of the reasons there are.
    fn named(&mut self, got: Code, causes: &[Code], k: Kind, what: &str) -> Chk {
        self.st.evals += 1;
        if causes.contains(&got) {
            return Ok(());
        }
        self.viol(
            format!("wrong-cause-{}-{}-{:?}", what, k.name(), got),
            format!("refused with {:?}, the reason is {:?}", got, causes),
        )
    }

    /// Checks over the recorded history.
    fn finish(&mut self) -> Chk {
        if self.prop == "P12" {
            for n in 0..self.nodes.len() {
                let log = std::mem::take(&mut self.nodes[n].log);
                let kind = self.tr.kinds[n];
                let mut solo = match Real::new(kind) {
                    Ok(s) => s,
                    Err(_) => continue,
                };
                let mut st: Option<Cfg> = None;
                for (i, (op, out)) in log.iter().enumerate() {
                    let r = match op {
                        Op::Init(c) => {
                            let r = solo.init(c);
                            if r.is_ok() && st.is_none() {
                                st = Some(**c);
                                solo.kind = c.kind;
                            }
                            r
                        }
                        Op::Up(s) => solo.update(s),
                        Op::Cal(s, c) => {
                            let r = solo.set_cal(*s, c);
                            if r.is_ok() {
                                if let Some(x) = st.as_mut() {
                                    x.cal[*s] = *c;
                                }
                            }
                            r
                        }
                        Op::Crash => {
                            let k = solo.kind;
                            let fresh = match st {
                                None => Real::new(k),
                                Some(mut c) => {
                                    if k.has_attitude() {
                                        if let Ok(q) = solo.attitude() {
                                            c.q = q.map(Some);
                                        }
                                    }
                                    for s in 0..3 {
                                        if Real::has_cal(k, s) && k.uses(s) {
                                            if let Ok(cal) = solo.get_cal(s) {
                                                c.cal[s] = cal;
                                            }
                                        }
                                    }
                                    Real::start(&c)
                                }
                            };
                            if let Ok(f) = fresh {
                                solo = f;
                                solo.kind = k;
                            }
                            Ok(())
                        }
                    };
                    let v = solo.view();
                    self.st.evals += 1;
                    let crash = matches!(op, Op::Crash);
                    if (!crash && r != out.0) || !same(&v, &out.1) {
                        if crash && out.1.is_err() {
                            continue;
                        }
                        return self.viol(
                            format!("not-independent-{}", kind.name()),
                            format!(
                                "operation {} of node {}: {:?} {} among the others, {:?} {} alone",
                                i,
                                n,
                                out.0,
                                show(&out.1),
                                r,
                                show(&v)
                            ),
                        );
                    }
                }
            }
        }
        Ok(())
    }
}

fn put(s: &mut Smp, k: u8, ax: u8, f: impl Fn(f32) -> f32) {
    let ax = (ax % 3) as usize;
    match k {
        0 => {
            if let Some(x) = s.g[ax] {
                s.g[ax] = Some(f(x));
            }
        }
        1 => s.a[ax] = f(s.a[ax]),
        _ => s.m[ax] = f(s.m[ax]),
    }
}

thread_local! {
    pub static STEP: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    pub static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Runs one trace. A panic inside the library is a violation; one of the simulator ends the process.
pub fn execute(tr: &Trace, prop: &str, st: &mut Stats) -> Option<Viol> {
    st.cur = tr.idx;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if tr.ev.iter().any(|e| matches!(e, Ev::Op(_))) || tr.kinds.is_empty() {
            let mut c = cont::Pool::new(prop, st);
            let v = c.run(tr).err();
            let (sig, dig, faulty, acc) = (c.sig, c.dig, c.faulty, c.accepted);
            return (v, sig, dig, faulty, acc);
        }
        match Sim::new(tr, prop, st) {
            Err(v) => (Some(v), 0, 0, false, 0),
            Ok(mut s) => {
                let v = s.run().err();
                (v, s.sig, s.dig, s.faulty, s.accepted)
            }
        }
    }));
    st.runs += 1;
    match r {
        Ok((v, sig, dig, faulty, acc)) => {
            st.sigs.insert(sig);
            if faulty && acc > 0 {
                st.nontrivial.insert(sig);
            }
            st.longest = st.longest.max(acc);
            st.digest = st.digest.wrapping_add(mix(dig ^ mix(tr.idx)));
            v
        }
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow().clone());
            if !IN_REAL.with(|c| c.get()) {
                eprintln!("simulator panicked in run {} of {}: {}", tr.idx, tr.prop, msg);
                std::process::exit(3);
            }
            IN_REAL.with(|c| c.set(false));
            Some(Viol { kind: "panic".into(), detail: msg, step: STEP.with(|s| s.get()) })
        }
    }
}
