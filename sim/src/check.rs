//! Command line: check, worker, shrink, replay, determinism.

use crate::exec::{execute, Stats, Viol};
use crate::gen::generate;
use crate::mini::minimise;
use crate::trace::{Trace, FAULTS};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Worker processes; fixed so that the partition of the runs never depends on the machine.
const WORKERS: u64 = 8;
/// A single run takes milliseconds; one that takes this long does not end.
const HANG_S: u64 = 60;

/// Runs of the quick tier.
fn quick_runs(prop: &str) -> u64 {
    match prop {
        "P06" => 120_000,
        "P10" | "P19" | "P20" | "P21" | "P22" | "P23" | "P24" | "P25" | "P26" => 150_000,
        "P16" => 600_000,
        _ => 300_000,
    }
}

/// The thorough tier does this many times the runs.
fn thorough_factor(prop: &str) -> u64 {
    match prop {
        "P16" | "P17" | "P27" => 10,
        _ => 20,
    }
}

pub fn cli(args: &[String]) -> i32 {
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["check", prop] => check(prop),
        ["worker", prop, seed, first, runs, stride, root] => {
            worker(prop, num(seed), num(first), num(runs), num(stride), Path::new(root))
        }
        ["shrink", prop, seed, idx, out, root] => shrink(prop, num(seed), num(idx), Path::new(out), Path::new(root)),
        ["replay", file] => replay(Path::new(file)),
        ["determinism", prop, seed, runs] => determinism(prop, num(seed), num(runs)),
        ["show", prop, seed, idx] => {
            print!("{}", generate(prop, num(seed), num(idx)).encode());
            0
        }
        ["one", prop, seed, idx] => {
            let t = generate(prop, num(seed), num(idx));
            let mut st = Stats::new();
            st.listed = listed(&root(), prop);
            println!("{:?} closest call {:.3}", execute(&t, prop, &mut st), st.margin.0);
            0
        }
        // Every kind of violation met, with the first run that shows it.
        ["survey", prop, seed, runs] => {
            let mut seen: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
            let mut st = Stats::new();
            st.listed = listed(&root(), prop);
            for i in 0..num(runs) {
                if let Some(v) = execute(&generate(prop, num(seed), i), prop, &mut st) {
                    let e = seen.entry(v.kind).or_insert((0, i, v.detail));
                    e.0 += 1;
                }
            }
            for (k, (n, i, d)) in &seen {
                println!("{} {} x{} first {} {}", prop, k, n, i, d);
            }
            println!("{} {} runs {} kinds, known {:?}, closest call {:.3} in run {}", prop, st.runs, seen.len(), st.known, st.margin.0, st.margin.1);
            0
        }
        _ => {
            eprintln!("usage: sim check|worker|shrink|replay|determinism|show|one ...");
            2
        }
    }
}

fn num(s: &str) -> u64 {
    s.trim().parse::<u64>().unwrap_or_else(|_| s.trim().parse::<i64>().map(|x| x as u64).unwrap_or(0))
}

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Kinds of violation listed as known findings for the property.
fn listed(root: &Path, prop: &str) -> Vec<String> {
    known(root, prop).into_iter().map(|x| x.0).collect()
}

fn known(root: &Path, prop: &str) -> Vec<(String, String)> {
    let text = fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        if it.next() != Some(prop) {
            continue;
        }
        if let Some(k) = it.next().and_then(|k| k.strip_prefix("kind=")) {
            out.push((k.to_string(), it.next().unwrap_or("").to_string()));
        }
    }
    out
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static BEAT: AtomicU64 = AtomicU64::new(0);

/// Ends the process with status 4 if one run takes too long.
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0u64);
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = (CUR.load(Ordering::SeqCst), BEAT.load(Ordering::SeqCst));
            if now != last || now.0 == u64::MAX {
                last = now;
                since = Instant::now();
            } else if since.elapsed().as_secs() >= HANG_S {
                println!("hang {}", now.0);
                std::process::exit(4);
            }
        }
    });
}

fn worker(prop: &str, seed: u64, first: u64, runs: u64, stride: u64, root: &Path) -> i32 {
    watchdog();
    let mut st = Stats::new();
    st.listed = listed(root, prop);
    let mut found: Option<(u64, Viol)> = None;
    let out = std::io::stdout();
    let mut idx = first;
    while idx < runs {
        CUR.store(idx, Ordering::SeqCst);
        if idx % 64 == first % 64 {
            // Where to look if the process dies.
            let mut o = out.lock();
            let _ = writeln!(o, "at {}", idx);
            let _ = o.flush();
        }
        let t = generate(prop, seed, idx);
        if let Some(v) = execute(&t, prop, &mut st) {
            found = Some((idx, v));
            break;
        }
        idx += stride;
    }
    CUR.store(u64::MAX, Ordering::SeqCst);
    let mut o = std::io::BufWriter::new(out.lock());
    let _ = writeln!(
        o,
        "stats {} {} {} {} {} {:016x} {} {:016x}",
        st.runs,
        st.events,
        st.ok,
        st.refused,
        st.evals,
        st.sim_time.to_bits(),
        st.longest,
        st.digest
    );
    for (i, n) in st.faults.iter().enumerate() {
        let _ = writeln!(o, "fault {} {}", i, n);
    }
    for (k, n) in &st.known {
        let _ = writeln!(o, "known {} {}", k, n);
    }
    for h in sorted(&st.trans) {
        let _ = writeln!(o, "t {:x}", h);
    }
    for h in sorted(&st.sigs) {
        let _ = writeln!(o, "s {:x}", h);
    }
    for h in sorted(&st.nontrivial) {
        let _ = writeln!(o, "n {:x}", h);
    }
    if let Some((i, v)) = found {
        let _ = writeln!(o, "viol {} {} {} {}", i, v.step, v.kind, v.detail.replace('\n', " "));
    }
    let _ = writeln!(o, "done");
    let _ = o.flush();
    0
}

fn sorted(h: &HashSet<u64>) -> Vec<u64> {
    let mut v: Vec<u64> = h.iter().copied().collect();
    v.sort_unstable();
    v
}

#[derive(Default)]
struct Total {
    st: [u64; 5],
    sim: f64,
    longest: u64,
    digest: u64,
    faults: [u64; FAULTS.len()],
    known: BTreeMap<String, u64>,
    trans: HashSet<u64>,
    sigs: HashSet<u64>,
    non: HashSet<u64>,
    viol: Option<(u64, Viol, u64)>,
}

fn offer(t: &mut Total, i: u64, v: Viol, w: u64) {
    if t.viol.as_ref().map_or(true, |x| i < x.0) {
        t.viol = Some((i, v, w));
    }
}

fn fan_out(prop: &str, seed: u64, runs: u64, workers: u64, root: &Path) -> Result<Total, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut kids = Vec::new();
    for w in 0..workers {
        let mut c = Command::new(&exe)
            .args(["worker", prop, &seed.to_string(), &w.to_string(), &runs.to_string(), &workers.to_string()])
            .arg(root)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .map_err(|e| e.to_string())?;
        let mut so = c.stdout.take().ok_or("no pipe")?;
        let h = std::thread::spawn(move || {
            let mut b = Vec::new();
            let _ = so.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        });
        kids.push((w, c, h));
    }
    let mut t = Total::default();
    for (w, mut c, h) in kids {
        let text = h.join().map_err(|_| "reader died")?;
        let status = c.wait().map_err(|e| e.to_string())?;
        let mut at = w;
        let mut done = false;
        for l in text.lines() {
            let mut it = l.split(' ');
            let tag = it.next().unwrap_or("");
            let hex = |s: Option<&str>| u64::from_str_radix(s.unwrap_or("0"), 16).unwrap_or(0);
            match tag {
                "at" => at = num(it.next().unwrap_or("0")),
                "stats" => {
                    for k in 0..5 {
                        t.st[k] += num(it.next().unwrap_or("0"));
                    }
                    t.sim += f64::from_bits(hex(it.next()));
                    t.longest = t.longest.max(num(it.next().unwrap_or("0")));
                    t.digest = t.digest.wrapping_add(hex(it.next()));
                }
                "fault" => {
                    let i = num(it.next().unwrap_or("0")) as usize;
                    t.faults[i] += num(it.next().unwrap_or("0"));
                }
                "known" => {
                    let k = it.next().unwrap_or("").to_string();
                    *t.known.entry(k).or_default() += num(it.next().unwrap_or("0"));
                }
                "t" => {
                    t.trans.insert(hex(it.next()));
                }
                "s" => {
                    t.sigs.insert(hex(it.next()));
                }
                "n" => {
                    t.non.insert(hex(it.next()));
                }
                "hang" => {
                    let i = num(it.next().unwrap_or("0"));
                    let v = Viol { kind: "hang".into(), detail: format!("a run did not end within {} s", HANG_S), step: 0 };
                    offer(&mut t, i, v, w);
                    done = true;
                }
                "viol" => {
                    let i = num(it.next().unwrap_or("0"));
                    let step = num(it.next().unwrap_or("0")) as usize;
                    let kind = it.next().unwrap_or("").to_string();
                    let detail = it.collect::<Vec<_>>().join(" ");
                    offer(&mut t, i, Viol { kind, detail, step }, w);
                }
                "done" => done = true,
                _ => {}
            }
        }
        if !done {
            use std::os::unix::process::ExitStatusExt;
            match status.signal() {
                // Killed from outside (memory, operator): not a verdict.
                Some(9) | Some(15) | Some(2) | None => return Err(format!("worker {} ended with {:?}", w, status)),
                Some(s) => {
                    let i = locate(prop, seed, at, runs, workers);
                    let v = Viol { kind: "abort".into(), detail: format!("process died of signal {}", s), step: 0 };
                    offer(&mut t, i, v, w);
                }
            }
        }
    }
    Ok(t)
}

/// First run at or after `at` that kills the process it runs in.
fn locate(prop: &str, seed: u64, at: u64, runs: u64, stride: u64) -> u64 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap_or_default();
    let mut i = at;
    while i < runs && i < at + 64 * stride {
        let s = Command::new(&exe)
            .args(["one", prop, &seed.to_string(), &i.to_string()])
            .stdout(Stdio::null())
            .status();
        if s.map(|s| s.signal().is_some()).unwrap_or(false) {
            return i;
        }
        i += stride;
    }
    at
}

fn shrink(prop: &str, seed: u64, idx: u64, out: &Path, root: &Path) -> i32 {
    watchdog();
    let t = generate(prop, seed, idx);
    let mut st = Stats::new();
    let l = listed(root, prop);
    st.listed = l.clone();
    let Some(v) = execute(&t, prop, &mut st) else { return 5 };
    let (small, w, tries) = minimise(&t, &v, &l);
    // The full trace first, then the shrunk one: the caller keeps the last that replays.
    let full = record(&t, &v, "trace", &format!("unshrunk, {} events", t.ev.len()));
    let tiny = record(&small, &w, "trace", &format!("shrunk from {} to {} events in {} runs", t.ev.len(), small.ev.len(), tries));
    if fs::write(out.with_extension("full"), full).is_err() || fs::write(out, tiny).is_err() {
        return 3;
    }
    0
}

fn record(t: &Trace, v: &Viol, how: &str, note: &str) -> String {
    format!(
        "# {} property={} seed={} run={}: {}\n# {}\nexpect {} {} {}\n{}",
        how,
        t.prop,
        t.seed,
        t.idx,
        note,
        "replay: /verif/run.sh replay <this file>",
        v.kind,
        v.step,
        v.detail.replace('\n', " "),
        t.encode()
    )
}

/// 1: reproduced exactly. 0: does not fail any more. 5: fails, but not as recorded.
fn replay(file: &Path) -> i32 {
    watchdog();
    let text = match fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file.display(), e);
            return 2;
        }
    };
    let exp = text.lines().find_map(|l| l.strip_prefix("expect ")).unwrap_or("").to_string();
    let mut it = exp.splitn(3, ' ');
    let (kind, step, detail) = (it.next().unwrap_or(""), num(it.next().unwrap_or("0")) as usize, it.next().unwrap_or(""));
    let mut st = Stats::new();
    let prop;
    let got = if let Some(b) = text.lines().find_map(|l| l.strip_prefix("batch ")) {
        // Runs from..=last in steps of stride, in one process.
        let f: Vec<&str> = b.split(' ').collect();
        prop = f[0].to_string();
        st.listed = listed(&root(), &prop);
        let (seed, from, last, stride) = (num(f[1]), num(f[2]), num(f[3]), num(f[4]));
        let mut got = None;
        let mut i = from;
        while i <= last && got.is_none() {
            CUR.store(i, Ordering::SeqCst);
            got = execute(&generate(&prop, seed, i), &prop, &mut st);
            i += stride;
        }
        got
    } else {
        let t = match Trace::decode(&text) {
            Some(t) => t,
            None => {
                eprintln!("{}: not a trace", file.display());
                return 2;
            }
        };
        prop = t.prop.clone();
        st.listed = listed(&root(), &prop);
        CUR.store(t.idx, Ordering::SeqCst);
        execute(&t, &prop, &mut st)
    };
    CUR.store(u64::MAX, Ordering::SeqCst);
    match got {
        None => {
            println!("replay of {} does not fail", prop);
            0
        }
        Some(v) => {
            println!("step {}: {}: {}", v.step, v.kind, v.detail);
            println!("VIOLATION property={} replay={}", prop, file.display());
            if v.kind == kind && v.step == step && v.detail.replace('\n', " ") == detail {
                1
            } else {
                5
            }
        }
    }
}

fn replays(file: &Path, want: &str) -> bool {
    let exe = std::env::current_exe().unwrap_or_default();
    let Ok(s) = Command::new(exe).arg("replay").arg(file).stdout(Stdio::null()).status() else { return false };
    use std::os::unix::process::ExitStatusExt;
    match want {
        "hang" => s.code() == Some(4),
        "abort" => s.signal().is_some(),
        _ => s.code() == Some(1),
    }
}

/// Writes a replay file for the violation, the smallest that reproduces in a fresh process.
fn make_replay(prop: &str, seed: u64, i: u64, v: &Viol, w: u64, root: &Path) -> Result<PathBuf, String> {
    let dir = root.join("replays");
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let out = dir.join(format!("{}-{}-{}.trace", prop, seed, i));
    let full = out.with_extension("full");
    let _ = fs::remove_file(&out);
    let _ = fs::remove_file(&full);
    let t = generate(prop, seed, i);
    if v.kind == "hang" || v.kind == "abort" {
        fs::write(&out, record(&t, v, "trace", "unshrunk")).map_err(|e| e.to_string())?;
        if replays(&out, &v.kind) {
            return Ok(out);
        }
    } else {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let _ = Command::new(exe)
            .args(["shrink", prop, &seed.to_string(), &i.to_string()])
            .arg(&out)
            .arg(root)
            .stdout(Stdio::null())
            .status();
        if out.exists() && replays(&out, &v.kind) {
            let _ = fs::remove_file(&full);
            return Ok(out);
        }
        if full.exists() && replays(&full, &v.kind) {
            fs::rename(&full, &out).map_err(|e| e.to_string())?;
            return Ok(out);
        }
    }
    let _ = fs::remove_file(&full);
    // State left over from earlier runs of the process matters: find how many of them are needed.
    let mut back = 1u64;
    loop {
        let from = i.saturating_sub(back.saturating_mul(WORKERS)).max(w);
        let from = i - (i - from) / WORKERS * WORKERS;
        let text = format!(
            "# batch property={} seed={} run={}: needs the earlier runs of its process\nexpect {} {} {}\nbatch {} {} {} {} {}\n",
            prop,
            seed,
            i,
            v.kind,
            v.step,
            v.detail.replace('\n', " "),
            prop,
            seed,
            from,
            i,
            WORKERS
        );
        fs::write(&out, text).map_err(|e| e.to_string())?;
        if replays(&out, &v.kind) {
            return Ok(out);
        }
        if from < WORKERS {
            return Err("the violation does not reproduce: the simulation is not deterministic".into());
        }
        back *= 4;
    }
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let root = root();
    let seed = std::env::var("VERIF_SEED").map(|s| num(&s)).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let mut runs = quick_runs(prop) * if thorough { thorough_factor(prop) } else { 1 };
    if let Ok(n) = std::env::var("VERIF_RUNS") {
        runs = num(&n);
    }
    let t = match fan_out(prop, seed, runs, WORKERS, &root) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("check error: {}", e);
            return 3;
        }
    };
    let mut code = 0;
    if let Some((i, v, w)) = &t.viol {
        match make_replay(prop, seed, *i, v, *w, &root) {
            Ok(p) => {
                println!("seed {} run {} step {}: {}: {}", seed, i, v.step, v.kind, v.detail);
                println!("VIOLATION property={} replay={}", prop, p.display());
                code = 1;
            }
            Err(e) => {
                eprintln!("check error: seed {} run {} {}: {}: {}", seed, i, v.kind, v.detail, e);
                return 3;
            }
        }
    }
    for (k, text) in known(&root, prop) {
        if t.known.get(&k).copied().unwrap_or(0) > 0 {
            println!("KNOWN-FINDING: property={} {}", prop, text);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    if let Err(e) = evidence(prop, seed, thorough, &t, wall, code, &root) {
        eprintln!("check error: {}", e);
        return 3;
    }
    println!(
        "{} seed {} {}: {} runs, {} events, {:.0} s simulated, {} transitions, digest {:016x}, {:.1} s",
        prop,
        seed,
        if thorough { "thorough" } else { "quick" },
        t.st[0],
        t.st[1],
        t.sim,
        t.trans.len(),
        t.digest,
        wall
    );
    code
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn evidence(prop: &str, seed: u64, thorough: bool, t: &Total, wall: f64, code: i32, root: &Path) -> Result<(), String> {
    let dir = root.join("evidence");
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let mut faults = String::new();
    for (i, n) in t.faults.iter().enumerate() {
        if *n > 0 {
            faults.push_str(&format!("{}\"{}\": {}", if faults.is_empty() { "" } else { ", " }, FAULTS[i], n));
        }
    }
    let mut samples = Vec::new();
    let mut i = 0;
    while samples.len() < 2 && i < t.st[0].max(1) {
        let tr = generate(prop, seed, i);
        let text = tr.encode();
        if text.len() < 6000 || i > 40 {
            let cut: String = text.chars().take(6000).collect();
            samples.push(format!("\"{}\"", esc(&cut)));
        }
        i += 1;
    }
    let known: Vec<String> = t.known.iter().map(|(k, n)| format!("\"{}\": {}", esc(k), n)).collect();
    let (real, stub) = if matches!(prop, "P16" | "P27") {
        ("linalg (Vector, Matrix), quaternion, utils", "no stubs: containers have no environment")
    } else {
        (
            "open_ahrs filters (Ar, Aqua, Davenport) and sensors, quaternion, linalg, utils, libm",
            "vehicle, sensors' physics, sample bus, clock and supervisor are simulated",
        )
    };
    let js = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"samples\": [{}],\n  \"runs\": {},\n  \"runs_per_hour\": {},\n  \"events\": {},\n  \"events_accepted\": {},\n  \"events_refused\": {},\n  \"monitor_evaluations\": {},\n  \"simulated_seconds\": {:.1},\n  \"longest_run_accepted_updates\": {},\n  \"faults_injected\": {{{}}},\n  \"distinct_transitions\": {},\n  \"transition_measure\": \"distinct (kind of object, event, fault mask, answer, previous event's value of the same) tuples\",\n  \"distinct_run_signatures\": {},\n  \"known_findings_met\": {{{}}},\n  \"history_digest\": \"{:016x}\",\n  \"real_components\": \"{}\",\n  \"simulated_components\": \"{}\"\n }},\n \"assumptions\": [\"every run is a pure function of VERIF_SEED, the property and the run number\", \"single-threaded callers: the library takes &mut self and has no shared state of its own\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        prop,
        if thorough { "thorough" } else { "quick" },
        seed as i64,
        t.st[0],
        t.non.len(),
        "one evaluation is one seeded run: a schedule of calls, samples, faults, reconfigurations and crashes generated from (seed, run number) and executed against the real code; non-trivial means at least one injected fault and at least one accepted call; distinct by the hash of the run's sequence of (object, event, faults, answer)",
        samples.join(", "),
        t.st[0],
        (t.st[0] as f64 / wall.max(1e-9) * 3600.0) as u64,
        t.st[1],
        t.st[2],
        t.st[3],
        t.st[4],
        t.sim,
        t.longest,
        faults,
        t.trans.len(),
        t.sigs.len(),
        known.join(", "),
        t.digest,
        real,
        stub,
        wall,
        if code == 1 { 1 } else { 0 }
    );
    let tmp = dir.join(format!("{}.json.tmp", prop));
    fs::write(&tmp, js).map_err(|e| e.to_string())?;
    fs::rename(&tmp, dir.join(format!("{}.json", prop))).map_err(|e| e.to_string())
}

/// The same runs under different process counts must give the same history, bit for bit.
fn determinism(prop: &str, seed: u64, runs: u64) -> i32 {
    let mut seen = Vec::new();
    for w in [1u64, 3, 8, 8] {
        match fan_out(prop, seed, runs, w, &root()) {
            Ok(t) => {
                let mut tr = sorted(&t.trans);
                tr.extend(sorted(&t.sigs));
                seen.push((t.digest, t.st, tr, t.faults));
            }
            Err(e) => {
                eprintln!("{}", e);
                return 3;
            }
        }
    }
    let ok = seen.iter().all(|x| *x == seen[0]);
    println!("{} seed {} runs {}: digest {:016x} {}", prop, seed, runs, seen[0].0, if ok { "same" } else { "DIFFERENT" });
    if ok {
        0
    } else {
        3
    }
}
