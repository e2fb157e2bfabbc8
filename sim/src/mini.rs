//! Shrinks a failing trace while it keeps failing in the same way.

use crate::exec::{execute, Stats, Viol};
use crate::real::{Smp, CAL_ID};
use crate::trace::{Ev, Fault, Trace};
use std::time::Instant;

pub struct Mini {
    kind: String,
    prop: String,
    listed: Vec<String>,
    left: i64,
    events: i64,
    t0: Instant,
    pub tries: u64,
}

impl Mini {
    /// True when the budget is used up; the loops stop then, as copying long traces costs too.
    fn spent(&self) -> bool {
        self.left <= 0 || self.events <= 0 || self.t0.elapsed().as_secs() > 60
    }

    fn fails(&mut self, t: &Trace) -> Option<Viol> {
        if self.spent() {
            return None;
        }
        self.left -= 1;
        self.events -= t.ev.len() as i64 + 20;
        self.tries += 1;
        let mut st = Stats::new();
        st.listed = self.listed.clone();
        execute(t, &self.prop, &mut st).filter(|v| v.kind == self.kind)
    }
}

pub fn minimise(t: &Trace, v: &Viol, listed: &[String]) -> (Trace, Viol, u64) {
    let mut m = Mini {
        kind: v.kind.clone(),
        prop: t.prop.clone(),
        listed: listed.to_vec(),
        left: 6000,
        events: 3_000_000,
        t0: Instant::now(),
        tries: 0,
    };
    let mut best = (t.clone(), v.clone());
    let mut cut = t.clone();
    cut.ev.truncate(v.step + 1);
    if let Some(w) = m.fails(&cut) {
        best = (cut, w);
    }
    for _ in 0..3 {
        let before = (best.0.ev.len(), size(&best.0));
        drop_events(&mut m, &mut best);
        simplify(&mut m, &mut best);
        if (best.0.ev.len(), size(&best.0)) == before {
            break;
        }
    }
    (best.0, best.1, m.tries)
}

fn size(t: &Trace) -> usize {
    t.encode().len()
}

fn drop_events(m: &mut Mini, best: &mut (Trace, Viol)) {
    let mut chunk = (best.0.ev.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < best.0.ev.len() && !m.spent() {
            let mut c = best.0.clone();
            let end = (i + chunk).min(c.ev.len());
            c.ev.drain(i..end);
            match m.fails(&c) {
                Some(w) => *best = (c, w),
                None => i += chunk,
            }
        }
        if chunk == 1 || m.spent() {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
}

/// Replaces values of the remaining events by plainer ones, one at a time.
fn simplify(m: &mut Mini, best: &mut (Trace, Viol)) {
    let mut i = 0;
    while i < best.0.ev.len() && !m.spent() {
        let mut alts: Vec<Ev> = Vec::new();
        match best.0.ev[i].clone() {
            Ev::Adv { dt, w } => {
                if w != [0.0; 3] {
                    alts.push(Ev::Adv { dt, w: [0.0; 3] });
                }
            }
            Ev::Env { lin, mag } => {
                if lin != [0.0; 3] {
                    alts.push(Ev::Env { lin: [0.0; 3], mag });
                }
                if mag != [0.0; 3] {
                    alts.push(Ev::Env { lin, mag: [0.0; 3] });
                }
            }
            Ev::Smp { n, salt, f } => {
                for k in 0..f.len() {
                    let mut g = f.clone();
                    g.remove(k);
                    alts.push(Ev::Smp { n, salt, f: g });
                }
                if f.iter().any(|x| matches!(x, Fault::Stale { .. })) {
                    let g = f.iter().map(|x| if let Fault::Stale { .. } = x { Fault::Dup } else { x.clone() }).collect();
                    alts.push(Ev::Smp { n, salt, f: g });
                }
            }
            Ev::Raw { n, salt, s } => {
                for k in 0..9 {
                    let mut t: Smp = s.clone();
                    let slot = match k / 3 {
                        0 => {
                            t.g[k % 3] = Some(0.0);
                            alts.push(Ev::Raw { n, salt, s: t });
                            continue;
                        }
                        1 => &mut t.a[k % 3],
                        _ => &mut t.m[k % 3],
                    };
                    if *slot != 0.0 {
                        *slot = 0.0;
                        alts.push(Ev::Raw { n, salt, s: t });
                    }
                }
            }
            Ev::Init { n, c } => {
                for k in 0..3 {
                    if c.cal[k] != CAL_ID {
                        let mut d = c.clone();
                        d.cal[k] = CAL_ID;
                        alts.push(Ev::Init { n, c: d });
                    }
                }
                if c.q.iter().any(|x| x.is_some()) {
                    let mut d = c.clone();
                    d.q = [None; 4];
                    alts.push(Ev::Init { n, c: d });
                }
                if c.adaptive {
                    let mut d = c.clone();
                    d.adaptive = false;
                    alts.push(Ev::Init { n, c: d });
                }
            }
            Ev::Cal { n, s, c } => {
                for k in 0..12 {
                    if c[k] != CAL_ID[k] {
                        let mut d = c;
                        d[k] = CAL_ID[k];
                        alts.push(Ev::Cal { n, s, c: d });
                    }
                }
            }
            Ev::Op(o) => {
                for k in 0..4 {
                    if o.f[k] != 0.0 && o.f[k] != 1.0 {
                        for z in [0.0, 1.0] {
                            let mut p = o;
                            p.f[k] = z;
                            alts.push(Ev::Op(p));
                        }
                    }
                }
            }
            _ => {}
        }
        for a in alts {
            if best.0.ev.get(i) == Some(&a) {
                continue;
            }
            let mut c = best.0.clone();
            c.ev[i] = a;
            if let Some(w) = m.fails(&c) {
                *best = (c, w);
            }
        }
        i += 1;
    }
}
