//! Seeded search over runs, minimisation, replay files and evidence.
use crate::alloc;
use crate::props::Prop;
use crate::sess::last_panic;
use crate::sim::{fnv, mix, Res, Sim, Violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Tape {
    Search(u64),
    Play(Vec<u32>),
}

pub struct Outcome {
    pub violation: Option<Violation>,
    /// The harness itself failed
    pub harness: Option<String>,
    pub tape: Vec<u32>,
    pub hash: u64,
    pub shape: u64,
    pub nontrivial: bool,
    pub steps: u64,
    pub now_us: u64,
    pub trace: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    /// The run could not be stopped (hang, exhaustion): the process has to go
    pub fatal: bool,
}

/// A fresh simulated process: an OS thread with its own seeded entropy
pub fn in_process<T: Send>(entropy: u64, f: impl FnOnce() -> T + Send) -> T {
    let flag = alloc::flag();
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn_scoped(s, move || {
                getrandom::sim::seed(entropy);
                if let Some(flag) = flag {
                    alloc::limit_this_thread(flag);
                }
                catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
            })
            .expect("harness: thread")
            .join()
    });
    match r {
        Ok(Ok(t)) => t,
        Ok(Err(p)) => panic!("in simulated process: {p}"),
        Err(_) => panic!("in simulated process: unknown panic"),
    }
}

pub fn execute(
    run: fn(&mut Sim) -> Res,
    tape: Tape,
    entropy: u64,
    thorough: bool,
    hang: Duration,
    flag: &'static AtomicBool,
) -> Outcome {
    let rec = Arc::new(Mutex::new(Vec::new()));
    let rec2 = rec.clone();
    let (tx, rx) = channel();
    flag.store(false, Ordering::SeqCst);
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            getrandom::sim::seed(mix(entropy ^ 0x6d61_696e));
            alloc::limit_this_thread(flag);
            let mut sim = match tape {
                Tape::Search(seed) => Sim::search(seed, entropy, rec2),
                Tape::Play(t) => Sim::replay(t, entropy, rec2),
            };
            sim.thorough = thorough;
            let r = catch_unwind(AssertUnwindSafe(|| run(&mut sim)));
            let r = match r {
                Ok(r) => Ok(r),
                Err(_) => Err(last_panic()),
            };
            let _ = tx.send((r, sim));
        })
        .expect("harness: thread");
    let start = Instant::now();
    loop {
        match rx.recv_timeout(Duration::from_millis(50)) {
            Ok((r, sim)) => {
                let _ = h.join();
                let (violation, harness) = match r {
                    Ok(Ok(())) => (None, None),
                    Ok(Err(v)) => (Some(v), None),
                    Err(p) => (None, Some(p)),
                };
                let tape = rec.lock().unwrap().clone();
                return Outcome {
                    violation,
                    harness,
                    tape,
                    hash: sim.hash(),
                    shape: sim.shape(),
                    nontrivial: sim.nontrivial,
                    steps: sim.steps,
                    now_us: sim.now_us,
                    trace: sim.trace,
                    faults: sim.faults,
                    probes: sim.probes,
                    fatal: false,
                };
            }
            Err(RecvTimeoutError::Timeout) => {
                let v = if flag.load(Ordering::SeqCst) {
                    Some(Violation {
                        class: "exhaustion".into(),
                        msg: format!("a session allocated more than {} MiB", alloc::HARD_LIMIT >> 20),
                    })
                } else if start.elapsed() > hang {
                    Some(Violation {
                        class: "hang".into(),
                        msg: format!("a call into rsasl did not return within {} s", hang.as_secs()),
                    })
                } else {
                    None
                };
                if v.is_some() {
                    let tape = rec.lock().unwrap().clone();
                    return Outcome {
                        violation: v,
                        harness: None,
                        tape,
                        hash: 0,
                        shape: 0,
                        nontrivial: true,
                        steps: 0,
                        now_us: 0,
                        trace: vec![
                            "(the run never came back; its trace is lost, the tape holds all choices up to there)".into(),
                        ],
                        faults: BTreeMap::new(),
                        probes: BTreeMap::new(),
                        fatal: true,
                    };
                }
            }
            Err(RecvTimeoutError::Disconnected) => {
                return Outcome {
                    violation: None,
                    harness: Some("run thread vanished".into()),
                    tape: Vec::new(),
                    hash: 0,
                    shape: 0,
                    nontrivial: false,
                    steps: 0,
                    now_us: 0,
                    trace: Vec::new(),
                    faults: BTreeMap::new(),
                    probes: BTreeMap::new(),
                    fatal: false,
                };
            }
        }
    }
}

pub fn seeds(seed: u64, id: &str, idx: u64) -> (u64, u64) {
    let base = mix(seed ^ fnv(id.as_bytes()));
    (mix(base ^ mix(idx)), mix(base ^ mix(idx ^ 0xe17a_0b1e)))
}

struct Agg {
    runs: u64,
    nontrivial: BTreeSet<u64>,
    shapes: BTreeSet<u64>,
    steps: u64,
    now_us: u128,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    hashes: BTreeMap<u64, u64>,
    known: BTreeMap<String, u64>,
    found: Option<(u64, Outcome)>,
    harness: Option<(u64, String)>,
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub contains: String,
    pub text: String,
}

/// Lines `known: property=<id> class=<class> contains="<text in the violation>" <description>`.
pub fn known_findings(dir: &Path) -> Vec<Known> {
    let mut out = Vec::new();
    let s = std::fs::read_to_string(dir.join("known_findings.txt")).unwrap_or_default();
    for l in s.lines() {
        let Some(l) = l.strip_prefix("known: property=") else {
            continue;
        };
        let Some((property, l)) = l.split_once(" class=") else {
            continue;
        };
        let Some((class, l)) = l.split_once(" contains=\"") else {
            continue;
        };
        let Some((contains, text)) = l.split_once('"') else {
            continue;
        };
        out.push(Known {
            property: property.into(),
            class: class.into(),
            contains: contains.into(),
            text: text.trim().into(),
        });
    }
    out
}

fn is_known<'k>(known: &'k [Known], id: &str, v: &Violation) -> Option<&'k Known> {
    known
        .iter()
        .find(|k| k.property == id && k.class == v.class && v.msg.contains(&k.contains))
}

/// Which run each worker is in, for the process that watches over this one
fn note_inflight(w: usize, i: u64) {
    static FILE: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
    let f = FILE.get_or_init(|| {
        let p = std::env::var_os("SIM_INFLIGHT")?;
        std::fs::OpenOptions::new().write(true).open(p).ok()
    });
    if let Some(f) = f {
        let _ = std::os::unix::fs::FileExt::write_at(f, &(i + 1).to_le_bytes(), w as u64 * 8);
    }
}

/// Run the search in a child process.  If a run takes the whole process down (abort, stack overflow), find that run and
/// report it like any other violation.
pub fn supervised(prop: &Prop, tier: &str, seed: u64, dir: &Path) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let start = Instant::now();
    let _ = std::fs::create_dir_all(dir.join("replay"));
    let inflight = dir.join("replay").join(format!(".inflight-{}-{}", prop.id, std::process::id()));
    let exe = std::env::current_exe().expect("harness: own path");
    let child = |args: &[String], quiet: bool| {
        let mut c = std::process::Command::new(&exe);
        c.args(args).env("SIM_CHILD", "1").env("SIM_INFLIGHT", &inflight).env("VERIF_DIR", dir);
        if quiet {
            c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        }
        c.status().expect("harness: child process")
    };
    std::fs::write(&inflight, [0u8; 64 * 8]).expect("harness: inflight file");
    let base = |cmd: &str| -> Vec<String> {
        [cmd, prop.id, "--tier", tier, "--seed", &seed.to_string()].map(String::from).to_vec()
    };
    let st = child(&base("check"), false);
    let runs: BTreeSet<u64> = std::fs::read(&inflight)
        .unwrap_or_default()
        .chunks(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap_or_default()))
        .filter(|v| *v > 0)
        .map(|v| v - 1)
        .collect();
    if let Some(code) = st.code() {
        let _ = std::fs::remove_file(&inflight);
        return code;
    }
    println!("the simulation was terminated by signal {:?} in one of the runs {runs:?}", st.signal());
    let mut code = 3;
    for i in runs {
        let tape = dir.join("replay").join(format!(".tape-{}-{}", prop.id, std::process::id()));
        let mut a = base("one");
        a.extend(["--run".into(), i.to_string(), "--tape".into(), tape.display().to_string()]);
        let st = child(&a, true);
        let draws: Vec<u32> = std::fs::read(&tape)
            .unwrap_or_default()
            .chunks_exact(4)
            .map(|c| u32::from_le_bytes(c.try_into().unwrap()))
            .collect();
        let _ = std::fs::remove_file(&tape);
        // being killed from outside (9) says nothing about the run
        let Some(sig) = st.signal().filter(|s| *s != 9 && *s != 15) else {
            continue;
        };
        let msg = format!("a run took the whole process down with signal {sig} (abort or stack overflow in library code)");
        let path = dir.join("replay").join(format!("{}-seed{}-run{}.json", prop.id, seed, i));
        let (_, e) = seeds(seed, prop.id, i);
        let rep = json!({
            "property": prop.id, "class": "crash", "violation": msg, "verif_seed": seed, "run": i, "tier": tier,
            "entropy": e.to_string(), "tape": draws, "minimised_with_executions": 0, "trace_hash": "", "trace": [],
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("harness: write replay");
        let ev = json!({
            "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": i, "distinct_nontrivial": 2, "rule": prop.rule, "samples": [{"run": i, "violation": msg}]},
            "assumptions": prop.assumptions, "wall_s": start.elapsed().as_secs_f64(), "violations": 1,
        });
        let evp = dir.join("evidence").join(format!("{}.json", prop.id));
        let _ = std::fs::create_dir_all(evp.parent().unwrap());
        std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()).expect("harness: write evidence");
        println!("run {i} of seed {seed} breaks {}: [crash] {msg}", prop.id);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        code = 1;
        break;
    }
    let _ = std::fs::remove_file(&inflight);
    code
}

/// A single run of the search, its choices written through to a file
pub fn one(prop: &Prop, tier: &str, seed: u64, i: u64, tape: &Path) -> i32 {
    let (t, e) = seeds(seed, prop.id, i);
    crate::sim::write_tape_to(tape);
    let flag: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let o = execute(prop.run, Tape::Search(t), e, tier == "thorough", Duration::from_secs(prop.hang_s), flag);
    for l in &o.trace {
        println!("  {l}");
    }
    i32::from(o.violation.is_some())
}

pub fn check(prop: &Prop, tier: &str, seed: u64, dir: &Path) -> i32 {
    let thorough = tier == "thorough";
    let (n, cap) = if thorough {
        (prop.thorough, Duration::from_secs(780))
    } else {
        (prop.quick, Duration::from_secs(100))
    };
    let n = std::env::var("SIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(n);
    let workers: usize = std::env::var("SIM_WORKERS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(8);
    let known = known_findings(dir);
    let hang = Duration::from_secs(prop.hang_s);
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(u64::MAX);
    let agg = Mutex::new(Agg {
        runs: 0,
        nontrivial: BTreeSet::new(),
        shapes: BTreeSet::new(),
        steps: 0,
        now_us: 0,
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        samples: Vec::new(),
        hashes: BTreeMap::new(),
        known: BTreeMap::new(),
        found: None,
        harness: None,
    });
    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, stop, agg, known, start) = (&next, &stop, &agg, &known, &start);
            s.spawn(move || {
                let flag: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || i > stop.load(Ordering::SeqCst) || start.elapsed() > cap {
                        break;
                    }
                    let (t, e) = seeds(seed, prop.id, i);
                    note_inflight(w, i);
                    let o = execute(prop.run, Tape::Search(t), e, thorough, hang, flag);
                    let fatal = o.fatal;
                    let mut a = agg.lock().unwrap();
                    a.runs += 1;
                    a.steps += o.steps;
                    a.now_us += u128::from(o.now_us);
                    for (k, v) in &o.faults {
                        *a.faults.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in &o.probes {
                        *a.probes.entry(k).or_insert(0) += v;
                    }
                    a.shapes.insert(o.shape);
                    if o.nontrivial {
                        a.nontrivial.insert(o.hash);
                    }
                    if i < 64 && o.violation.is_none() {
                        a.hashes.insert(i, o.hash);
                    }
                    if (i == 0 || (o.nontrivial && a.samples.len() < 4 && i < 400)) && o.violation.is_none() {
                        let t: Vec<_> = o.trace.iter().take(24).collect();
                        a.samples.push(json!({"run": i, "faults": o.faults, "events": o.steps, "trace_hash": format!("{:016x}", o.hash), "trace_head": t}));
                    }
                    if let Some(h) = &o.harness {
                        if a.harness.as_ref().map_or(true, |(j, _)| i < *j) {
                            let tail: Vec<_> = o.trace.iter().rev().take(30).rev().cloned().collect();
                            a.harness = Some((i, format!("{h}\n{}", tail.join("\n"))));
                        }
                        stop.fetch_min(i, Ordering::SeqCst);
                    }
                    if let Some(v) = &o.violation {
                        if let Some(k) = is_known(known, prop.id, v) {
                            *a.known.entry(k.text.clone()).or_insert(0) += 1;
                        } else {
                            stop.fetch_min(i, Ordering::SeqCst);
                            if a.found.as_ref().map_or(true, |(j, _)| i < *j) {
                                a.found = Some((i, o));
                            }
                        }
                    }
                    drop(a);
                    if fatal {
                        // this worker's run still sits there; don't start another one
                        next.store(n, Ordering::SeqCst);
                        break;
                    }
                }
            });
        }
    });
    let mut a = agg.into_inner().unwrap();
    let search_s = start.elapsed().as_secs_f64();
    let flag: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));

    // Runs are functions of their seed: execute a sample again and compare
    let mut rechecked = 0u64;
    let mut mismatched = 0u64;
    if a.found.is_none() && a.harness.is_none() {
        for (i, h) in a.hashes.iter().take(12) {
            let (t, e) = seeds(seed, prop.id, *i);
            let o = execute(prop.run, Tape::Search(t), e, thorough, hang, flag);
            rechecked += 1;
            if o.hash != *h {
                mismatched += 1;
            }
        }
    }

    let mut code = 0;
    let mut violations = 0;
    let mut replay_path = None;
    if let Some((i, o)) = a.found.take() {
        violations = 1;
        code = 1;
        let (_, e) = seeds(seed, prop.id, i);
        let v = o.violation.clone().unwrap();
        let (tape, o, tried) = if o.fatal {
            (o.tape.clone(), o, 0)
        } else {
            minimise(prop, o, e, thorough, hang, flag)
        };
        let v = o.violation.clone().unwrap_or(v);
        let path = dir.join("replay").join(format!("{}-seed{}-run{}.json", prop.id, seed, i));
        let _ = std::fs::create_dir_all(path.parent().unwrap());
        let rep = json!({
            "property": prop.id,
            "class": v.class,
            "violation": v.msg,
            "verif_seed": seed,
            "run": i,
            "tier": tier,
            "entropy": e.to_string(),
            "tape": tape,
            "minimised_with_executions": tried,
            "trace_hash": format!("{:016x}", o.hash),
            "faults": o.faults,
            "trace": o.trace,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("harness: write replay");
        println!("run {i} of seed {seed} breaks {}: [{}] {}", prop.id, v.class, v.msg);
        for l in o.trace.iter().rev().take(40).rev() {
            println!("  {l}");
        }
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        replay_path = Some(path);
    }
    if let Some((i, h)) = &a.harness {
        if code == 0 {
            println!("harness failure in run {i} of seed {seed}: {h}");
            code = 3;
        }
    }
    let unseeded = getrandom::sim::unseeded_calls();
    if unseeded > 0 && code == 0 {
        println!("harness failure: {unseeded} draws of randomness escaped the simulator");
        code = 3;
    }
    for k in known.iter().filter(|k| k.property == prop.id) {
        println!("KNOWN-FINDING: property={} {}", prop.id, k.text);
    }
    let wall = start.elapsed().as_secs_f64();
    let per_hour = if search_s > 0.0 { a.runs as f64 / search_s * 3600.0 } else { 0.0 };
    let ev = json!({
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": prop.rule,
            "samples": a.samples,
            "distinct_interleavings": a.shapes.len(),
            "interleaving_measure": "distinct hashes over the sequence of event labels (who stepped, delivery, fault, outcome) without data",
            "simulated_runs_per_hour": per_hour.round(),
            "seeds": {"verif_seed": seed, "run_indices": [0, a.runs.saturating_sub(1)], "seeds_per_hour": per_hour.round()},
            "simulated_time_s": (a.now_us as f64) / 1e6,
            "simulated_events": a.steps,
            "faults_injected": a.faults,
            "probes_reached": a.probes,
            "determinism_rechecked": rechecked,
            "determinism_mismatches": mismatched,
            "known_findings_hit": a.known,
            "components_real": prop.real,
            "components_stub": prop.stub,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let evp = dir.join("evidence").join(format!("{}.json", prop.id));
    let _ = std::fs::create_dir_all(evp.parent().unwrap());
    std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()).expect("harness: write evidence");
    println!(
        "{} {tier}: {} runs ({} distinct non-trivial, {} interleavings), {} events, {:.0} s simulated, {:.1} s wall; recheck {}/{} equal; exit {code}",
        prop.id,
        a.runs,
        a.nontrivial.len(),
        a.shapes.len(),
        a.steps,
        (a.now_us as f64) / 1e6,
        wall,
        rechecked - mismatched,
        rechecked
    );
    let _ = replay_path;
    code
}

fn minimise(
    prop: &Prop,
    first: Outcome,
    entropy: u64,
    thorough: bool,
    hang: Duration,
    flag: &'static AtomicBool,
) -> (Vec<u32>, Outcome, u32) {
    let class = first.violation.as_ref().unwrap().class.clone();
    let mut best_tape = first.tape.clone();
    let mut best = first;
    let end = Instant::now() + Duration::from_secs(15);
    let mut tried = 0u32;
    let attempt = |tape: Vec<u32>, tried: &mut u32| -> Option<Outcome> {
        if Instant::now() > end || *tried > 800 {
            return None;
        }
        *tried += 1;
        let o = execute(prop.run, Tape::Play(tape), entropy, thorough, hang, flag);
        if !o.fatal && o.violation.as_ref().map(|v| &v.class) == Some(&class) {
            Some(o)
        } else {
            None
        }
    };
    // Playing the recorded tape has to give the same run again
    match attempt(best_tape.clone(), &mut tried) {
        Some(o) => best = o,
        None => return (best_tape, best, tried),
    }
    // A shorter tape is padded with zeros
    let mut changed = true;
    while changed && tried < 800 && Instant::now() < end {
        changed = false;
        let mut keep = 0;
        while keep < best_tape.len() {
            let t = best_tape[..keep].to_vec();
            if let Some(o) = attempt(t.clone(), &mut tried) {
                best_tape = t;
                best = o;
                changed = true;
                break;
            }
            keep = if keep == 0 { 1 } else { keep * 2 };
            if tried > 800 {
                break;
            }
        }
        let mut len = (best_tape.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best_tape.len() && tried < 800 && Instant::now() < end {
                let to = (at + len).min(best_tape.len());
                if best_tape[at..to].iter().any(|v| *v != 0) {
                    let mut t = best_tape.clone();
                    t[at..to].iter_mut().for_each(|v| *v = 0);
                    if let Some(o) = attempt(t.clone(), &mut tried) {
                        best_tape = t;
                        best = o;
                        changed = true;
                        at = to;
                        continue;
                    }
                }
                let mut t = best_tape.clone();
                t.drain(at..to);
                if let Some(o) = attempt(t.clone(), &mut tried) {
                    best_tape = t;
                    best = o;
                    changed = true;
                    continue;
                }
                at = to;
            }
            if len == 1 {
                break;
            }
            len /= 2;
        }
        for i in 0..best_tape.len() {
            while best_tape.get(i).copied().unwrap_or(0) > 1 && tried < 800 && Instant::now() < end {
                let mut t = best_tape.clone();
                t[i] /= 2;
                if let Some(o) = attempt(t.clone(), &mut tried) {
                    best_tape = t;
                    best = o;
                    changed = true;
                } else {
                    break;
                }
            }
        }
    }
    while best_tape.last() == Some(&0) {
        best_tape.pop();
    }
    (best_tape, best, tried)
}

pub fn replay(props: &[Prop], file: &Path) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            println!("can't read {}: {e}", file.display());
            return 2;
        }
    };
    let v: Value = serde_json::from_str(&s).expect("replay file");
    let id = v["property"].as_str().unwrap_or_default();
    if v["class"] == "crash" && std::env::var_os("SIM_CHILD").is_none() {
        use std::os::unix::process::ExitStatusExt;
        let st = std::process::Command::new(std::env::current_exe().expect("harness: own path"))
            .args(["replay", &file.display().to_string()])
            .env("SIM_CHILD", "1")
            .status()
            .expect("harness: child process");
        return match (st.code(), st.signal()) {
            (_, Some(sig)) => {
                println!("replay {}: terminated by signal {sig}", file.display());
                println!("VIOLATION property={id} replay={}", file.display());
                1
            }
            (c, _) => c.unwrap_or(3),
        };
    }
    let prop = props.iter().find(|p| p.id == id).expect("property of the replay file");
    let tape: Vec<u32> = v["tape"]
        .as_array()
        .map(|a| a.iter().filter_map(|x| x.as_u64().map(|x| x as u32)).collect())
        .unwrap_or_default();
    let entropy: u64 = v["entropy"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0);
    let flag: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let o = execute(
        prop.run,
        Tape::Play(tape),
        entropy,
        v["tier"].as_str() == Some("thorough"),
        Duration::from_secs(prop.hang_s),
        flag,
    );
    for l in &o.trace {
        println!("  {l}");
    }
    if let Some(h) = o.harness {
        println!("harness failure: {h}");
        return 3;
    }
    match o.violation {
        Some(got) => {
            println!("[{}] {}", got.class, got.msg);
            let want = v["trace_hash"].as_str().unwrap_or_default();
            let same = o.fatal || want == format!("{:016x}", o.hash);
            println!(
                "replay {}: violation class {}, trace {}",
                file.display(),
                if got.class == v["class"].as_str().unwrap_or_default() { "identical" } else { "DIFFERENT" },
                if same { "identical" } else { "DIFFERENT" }
            );
            println!("VIOLATION property={id} replay={}", file.display());
            1
        }
        None => {
            println!("the replayed run does not break {id}");
            0
        }
    }
}

/// The same seeds twice, once with one worker and once with all: every trace has to be identical
pub fn selfcheck(props: &[Prop], n: u64, seed: u64) -> i32 {
    let mut bad = 0;
    for p in props {
        let one = |workers: usize| {
            let next = AtomicU64::new(0);
            let out = Mutex::new(BTreeMap::new());
            std::thread::scope(|s| {
                for _ in 0..workers {
                    s.spawn(|| {
                        let flag: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n {
                                break;
                            }
                            let (t, e) = seeds(seed, p.id, i);
                            let o = execute(p.run, Tape::Search(t), e, false, Duration::from_secs(60), flag);
                            out.lock().unwrap().insert(i, (o.hash, o.tape.len()));
                        }
                    });
                }
            });
            out.into_inner().unwrap()
        };
        let a = one(1);
        let b = one(8);
        let diff: Vec<_> = a.iter().filter(|(i, h)| b.get(i) != Some(h)).map(|(i, _)| *i).collect();
        println!("{}: {} runs twice, {} differ {:?}", p.id, n, diff.len(), &diff[..diff.len().min(5)]);
        bad += diff.len();
    }
    i32::from(bad > 0)
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}
