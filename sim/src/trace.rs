//! Explicit schedules. A trace holds everything a run does; executing it consumes no randomness.

use crate::math::{Q, V};
use crate::real::{Cal, Cfg, Kind, Smp};
use std::fmt::Write;

#[derive(Clone, PartialEq, Debug)]
pub enum Fault {
    /// The axis carries these bits (not-a-number, infinity, huge, saturated...).
    Set { s: u8, ax: u8, v: f32 },
    /// One bit of the axis is flipped in transit.
    Flip { s: u8, ax: u8, bit: u8 },
    /// The sensor repeats its previous value.
    Stuck { s: u8 },
    /// The corrected reading is exactly zero (the sensor sends its own bias).
    Dead { s: u8 },
    /// Gain error.
    Gain { s: u8, f: f32 },
    /// Additive noise or offset.
    Add { s: u8, v: [f32; 3] },
    /// Gyrometer axes missing (bit mask).
    Miss { mask: u8 },
    /// A sample of k deliveries ago arrives instead (late, out of order).
    Stale { k: u8 },
    /// The previous delivery arrives again.
    Dup,
}

pub const FAULTS: [&str; 20] = [
    "set-bits",
    "bit-flip",
    "stuck",
    "dead",
    "gain",
    "offset",
    "missing-axis",
    "stale",
    "duplicate",
    "lost",
    "garbage-sample",
    "clock-jitter",
    "linear-acceleration",
    "magnetic-disturbance",
    "crash-restart",
    "bad-init",
    "bad-config",
    "reconfig",
    "early-use",
    "bad-container-op",
];

impl Fault {
    pub fn class(&self) -> usize {
        match self {
            Fault::Set { .. } => 0,
            Fault::Flip { .. } => 1,
            Fault::Stuck { .. } => 2,
            Fault::Dead { .. } => 3,
            Fault::Gain { .. } => 4,
            Fault::Add { .. } => 5,
            Fault::Miss { .. } => 6,
            Fault::Stale { .. } => 7,
            Fault::Dup => 8,
        }
    }
}

/// One operation on the pool of containers. Slots and small integers are taken as they are.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct COp {
    pub op: u8,
    pub d: u8,
    pub a: u8,
    pub b: u8,
    pub r: u8,
    pub c: u8,
    pub f: [f32; 4],
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    /// The vehicle turns at rate w (body) for dt seconds.
    Adv { dt: f64, w: V },
    /// The clock is off: the next advance takes this much longer than the period.
    Jitter { f: f64 },
    /// Disturbances of the environment from now on (world frame acceleration, body frame field).
    Env { lin: V, mag: V },
    /// The sample bus delivers the present measurement to node n, through these faults.
    Smp { n: u8, salt: u32, f: Vec<Fault> },
    /// Node n is handed this raw sample, whatever the vehicle does.
    Raw { n: u8, salt: u32, s: Smp },
    /// The sample due for node n is lost.
    Lost { n: u8 },
    Init { n: u8, c: Box<Cfg> },
    Cal { n: u8, s: u8, c: Cal },
    /// Every read accessor of the node is called and what it returned is scribbled over.
    Read { n: u8 },
    /// The node is lost and restarted from what was read out just before.
    Crash { n: u8 },
    Op(COp),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Trace {
    pub prop: String,
    pub seed: u64,
    pub idx: u64,
    pub q0: Q,
    pub grav: f64,
    pub field: f64,
    pub dip: f64,
    pub kinds: Vec<Kind>,
    pub ev: Vec<Ev>,
}

fn h32(o: &mut String, x: f32) {
    let _ = write!(o, " {:08x}", x.to_bits());
}
fn h64(o: &mut String, x: f64) {
    let _ = write!(o, " {:016x}", x.to_bits());
}
fn opt(o: &mut String, x: Option<f32>) {
    match x {
        Some(v) => h32(o, v),
        None => o.push_str(" -"),
    }
}

impl Ev {
    pub fn enc(&self) -> String {
        let mut o = String::new();
        match self {
            Ev::Jitter { f } => {
                o.push_str("jitter");
                h64(&mut o, *f);
            }
            Ev::Adv { dt, w } => {
                o.push_str("adv");
                h64(&mut o, *dt);
                w.iter().for_each(|x| h64(&mut o, *x));
            }
            Ev::Env { lin, mag } => {
                o.push_str("env");
                lin.iter().chain(mag.iter()).for_each(|x| h64(&mut o, *x));
            }
            Ev::Smp { n, salt, f } => {
                let _ = write!(o, "smp {} {} {}", n, salt, f.len());
                for x in f {
                    match x {
                        Fault::Set { s, ax, v } => {
                            let _ = write!(o, " set {} {} {:08x}", s, ax, v.to_bits());
                        }
                        Fault::Flip { s, ax, bit } => {
                            let _ = write!(o, " flip {} {} {}", s, ax, bit);
                        }
                        Fault::Stuck { s } => {
                            let _ = write!(o, " stuck {}", s);
                        }
                        Fault::Dead { s } => {
                            let _ = write!(o, " dead {}", s);
                        }
                        Fault::Gain { s, f } => {
                            let _ = write!(o, " gain {} {:08x}", s, f.to_bits());
                        }
                        Fault::Add { s, v } => {
                            let _ = write!(o, " add {}", s);
                            v.iter().for_each(|x| h32(&mut o, *x));
                        }
                        Fault::Miss { mask } => {
                            let _ = write!(o, " miss {}", mask);
                        }
                        Fault::Stale { k } => {
                            let _ = write!(o, " stale {}", k);
                        }
                        Fault::Dup => o.push_str(" dup"),
                    }
                }
            }
            Ev::Raw { n, salt, s } => {
                let _ = write!(o, "raw {} {}", n, salt);
                s.g.iter().for_each(|x| opt(&mut o, *x));
                s.a.iter().chain(s.m.iter()).for_each(|x| h32(&mut o, *x));
            }
            Ev::Lost { n } => {
                let _ = write!(o, "lost {}", n);
            }
            Ev::Init { n, c } => {
                let _ = write!(o, "init {} {} {} {}", n, c.kind.name(), c.method, c.order);
                h32(&mut o, c.ts);
                c.q.iter().for_each(|x| opt(&mut o, *x));
                let _ = write!(o, " {} {}", c.gyr_cfg as u8, c.adaptive as u8);
                [c.alpha, c.beta, c.t1, c.t2, c.t_acc, c.t_mag].iter().for_each(|x| h32(&mut o, *x));
                opt(&mut o, c.g);
                opt(&mut o, c.h);
                h32(&mut o, c.w1);
                h32(&mut o, c.w2);
                opt(&mut o, c.mdip);
                c.cal.iter().flatten().for_each(|x| h32(&mut o, *x));
            }
            Ev::Cal { n, s, c } => {
                let _ = write!(o, "cal {} {}", n, s);
                c.iter().for_each(|x| h32(&mut o, *x));
            }
            Ev::Read { n } => {
                let _ = write!(o, "read {}", n);
            }
            Ev::Crash { n } => {
                let _ = write!(o, "crash {}", n);
            }
            Ev::Op(c) => {
                let _ = write!(o, "op {} {} {} {} {} {}", c.op, c.d, c.a, c.b, c.r, c.c);
                c.f.iter().for_each(|x| h32(&mut o, *x));
            }
        }
        o
    }

    fn dec(line: &str) -> Option<Ev> {
        let mut t = Tok(line.split_whitespace());
        let ev = match t.s()? {
            "jitter" => Ev::Jitter { f: t.f64()? },
            "adv" => Ev::Adv { dt: t.f64()?, w: [t.f64()?, t.f64()?, t.f64()?] },
            "env" => Ev::Env { lin: [t.f64()?, t.f64()?, t.f64()?], mag: [t.f64()?, t.f64()?, t.f64()?] },
            "smp" => {
                let n = t.u()?;
                let salt = t.u()?;
                let k: usize = t.u()?;
                let mut f = Vec::new();
                for _ in 0..k {
                    f.push(match t.s()? {
                        "set" => Fault::Set { s: t.u()?, ax: t.u()?, v: t.f32()? },
                        "flip" => Fault::Flip { s: t.u()?, ax: t.u()?, bit: t.u()? },
                        "stuck" => Fault::Stuck { s: t.u()? },
                        "dead" => Fault::Dead { s: t.u()? },
                        "gain" => Fault::Gain { s: t.u()?, f: t.f32()? },
                        "add" => Fault::Add { s: t.u()?, v: [t.f32()?, t.f32()?, t.f32()?] },
                        "miss" => Fault::Miss { mask: t.u()? },
                        "stale" => Fault::Stale { k: t.u()? },
                        "dup" => Fault::Dup,
                        _ => return None,
                    });
                }
                Ev::Smp { n, salt, f }
            }
            "raw" => Ev::Raw {
                n: t.u()?,
                salt: t.u()?,
                s: Smp {
                    g: [t.opt()?, t.opt()?, t.opt()?],
                    a: [t.f32()?, t.f32()?, t.f32()?],
                    m: [t.f32()?, t.f32()?, t.f32()?],
                },
            },
            "lost" => Ev::Lost { n: t.u()? },
            "init" => {
                let n = t.u()?;
                let kind = Kind::from_name(t.s()?)?;
                let mut c = Cfg {
                    kind,
                    method: t.u()?,
                    order: t.u()?,
                    ts: t.f32()?,
                    q: [t.opt()?, t.opt()?, t.opt()?, t.opt()?],
                    gyr_cfg: t.u::<u8>()? != 0,
                    adaptive: t.u::<u8>()? != 0,
                    alpha: t.f32()?,
                    beta: t.f32()?,
                    t1: t.f32()?,
                    t2: t.f32()?,
                    t_acc: t.f32()?,
                    t_mag: t.f32()?,
                    g: t.opt()?,
                    h: t.opt()?,
                    w1: t.f32()?,
                    w2: t.f32()?,
                    mdip: t.opt()?,
                    cal: [[0.0; 12]; 3],
                };
                for s in 0..3 {
                    for i in 0..12 {
                        c.cal[s][i] = t.f32()?;
                    }
                }
                Ev::Init { n, c: Box::new(c) }
            }
            "cal" => {
                let (n, s) = (t.u()?, t.u()?);
                let mut c = [0f32; 12];
                for x in c.iter_mut() {
                    *x = t.f32()?;
                }
                Ev::Cal { n, s, c }
            }
            "read" => Ev::Read { n: t.u()? },
            "crash" => Ev::Crash { n: t.u()? },
            "op" => Ev::Op(COp {
                op: t.u()?,
                d: t.u()?,
                a: t.u()?,
                b: t.u()?,
                r: t.u()?,
                c: t.u()?,
                f: [t.f32()?, t.f32()?, t.f32()?, t.f32()?],
            }),
            _ => return None,
        };
        Some(ev)
    }
}

struct Tok<'a>(std::str::SplitWhitespace<'a>);

impl<'a> Tok<'a> {
    fn s(&mut self) -> Option<&'a str> {
        self.0.next()
    }
    fn u<T: std::str::FromStr>(&mut self) -> Option<T> {
        self.s()?.parse().ok()
    }
    fn f32(&mut self) -> Option<f32> {
        Some(f32::from_bits(u32::from_str_radix(self.s()?, 16).ok()?))
    }
    fn f64(&mut self) -> Option<f64> {
        Some(f64::from_bits(u64::from_str_radix(self.s()?, 16).ok()?))
    }
    fn opt(&mut self) -> Option<Option<f32>> {
        let s = self.s()?;
        if s == "-" {
            return Some(None);
        }
        Some(Some(f32::from_bits(u32::from_str_radix(s, 16).ok()?)))
    }
}

impl Trace {
    pub fn encode(&self) -> String {
        let mut o = String::new();
        let _ = write!(o, "trace {} {} {}", self.prop, self.seed, self.idx);
        self.q0.iter().for_each(|x| h64(&mut o, *x));
        h64(&mut o, self.grav);
        h64(&mut o, self.field);
        h64(&mut o, self.dip);
        for k in &self.kinds {
            let _ = write!(o, " {}", k.name());
        }
        o.push('\n');
        for e in &self.ev {
            let d = format!("{:?}", e);
            let d = if d.len() > 900 { format!("{}...", &d[..900]) } else { d };
            let _ = writeln!(o, "{}  # {}", e.enc(), d);
        }
        o
    }

    pub fn decode(text: &str) -> Option<Trace> {
        let mut lines = text.lines().map(|l| l.split('#').next().unwrap_or("").trim()).filter(|l| !l.is_empty() && !l.starts_with("expect "));
        let head = lines.next()?;
        let mut t = Tok(head.split_whitespace());
        if t.s()? != "trace" {
            return None;
        }
        let mut tr = Trace {
            prop: t.s()?.to_string(),
            seed: t.u()?,
            idx: t.u()?,
            q0: [t.f64()?, t.f64()?, t.f64()?, t.f64()?],
            grav: t.f64()?,
            field: t.f64()?,
            dip: t.f64()?,
            kinds: Vec::new(),
            ev: Vec::new(),
        };
        while let Some(k) = t.s() {
            tr.kinds.push(Kind::from_name(k)?);
        }
        for l in lines {
            tr.ev.push(Ev::dec(l)?);
        }
        Some(tr)
    }
}
