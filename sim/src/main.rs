//! Deterministic simulation of knx-ip-client: checks, replays, traces and self-tests.

mod alloc;
mod app;
mod clock;
mod gen;
mod oracle;
mod plan;
mod rng;
mod shrink;
mod trace;
mod wire;
mod world;

#[global_allocator]
static HEAP: alloc::Counting = alloc::Counting;

use oracle::{judge, Viol};
use plan::Plan;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::process::exit;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    rule: String,
    text: String,
    at_ms: u64,
    seed: u64,
    profile: String,
    plan: Plan,
    trace: Vec<String>,
}

/// Profiles a property is searched with, and how many of every hundred runs each gets.
fn portfolio(p: usize) -> &'static [(&'static str, u32)] {
    match p {
        1 => &[("calm-c", 25), ("calm-b", 10), ("dense-c", 2), ("lossy-c", 20), ("outage-c", 10), ("noise-c", 15), ("cancel-c", 8), ("mixed-c", 10)],
        2 => &[("calm-c", 25), ("calm-b", 10), ("dense-c", 2), ("lossy-c", 20), ("outage-c", 10), ("noise-c", 15), ("cancel-c", 8), ("mixed-c", 10)],
        3 => &[("calm-c", 15), ("calm-m", 15), ("calm-b", 15), ("dense-b", 2), ("lossy", 20), ("outage", 10), ("cancel", 8), ("mixed", 15)],
        4 => &[("calm", 20), ("dense", 4), ("wrap", 5), ("lossy", 30), ("outage", 15), ("cancel", 10), ("mixed", 15), ("hostile", 4), ("churn", 5)],
        5 => &[("calm", 15), ("dense", 4), ("wrap", 5), ("lossy", 25), ("outage", 12), ("hostile", 20), ("noise", 8), ("mixed", 14), ("overload", 4), ("flooded", 4), ("deluge", 2)],
        6 => &[("calm-m", 20), ("dense-m", 4), ("wrap-m", 5), ("lossy-m", 20), ("outage-m", 13), ("hostile-m", 8), ("noise-m", 6), ("overload-m", 8), ("flooded-m", 4), ("mixed-b", 12), ("cancel-m", 10), ("deluge-m", 2)],
        7 => &[("calm", 15), ("lossy", 20), ("outage", 28), ("hostile", 10), ("noise", 5), ("flooded", 5), ("mixed", 15), ("lifecycle", 5)],
        8 => &[("lossy", 35), ("outage", 42), ("mixed", 15), ("churn", 8)],
        9 => &[("calm", 25), ("lossy", 20), ("outage", 30), ("hostile", 10), ("flooded", 5), ("mixed", 10)],
        10 => &[("hostile", 48), ("noise", 22), ("outage", 10), ("mixed", 14), ("churn", 3), ("lossy", 3)],
        11 => &[("lifecycle", 65), ("flooded", 10), ("mixed", 10), ("outage", 15)],
        12 => &[("outage", 35), ("hostile", 18), ("lifecycle", 10), ("flooded", 12), ("mixed", 15), ("churn", 10)],
        13 => &[("calm-c", 35), ("outage-c", 25), ("lossy-c", 10), ("hostile-c", 10), ("mixed-c", 20)],
        14 => &[("search", 100)],
        15 => &[("outage-m", 47), ("lifecycle-m", 10), ("lossy-m", 15), ("mixed-m", 18), ("churn-m", 10)],
        16 => &[("cancel", 85), ("mixed", 15)],
        17 => &[("lifecycle", 70), ("outage", 10), ("flooded", 10), ("mixed", 10)],
        18 => &[("overload", 75), ("flooded", 15), ("mixed", 10)],
        19 => &[("calm", 25), ("lossy", 20), ("outage", 20), ("hostile", 10), ("lifecycle", 15), ("mixed", 10)],
        22 => &[("outage", 45), ("lossy", 15), ("hostile", 10), ("lifecycle", 10), ("mixed", 10), ("churn", 10)],
        23 => &[("churn", 45), ("outage", 15), ("lifecycle", 20), ("cancel", 10), ("mixed", 10)],
        24 => &[("deluge", 45), ("overload", 10), ("flooded", 5), ("churn", 20), ("wrap", 5), ("hostile", 10), ("mixed", 5)],
        _ => &[],
    }
}

/// Runs of the quick check: about a minute on eight cores.
fn quick_runs(p: usize) -> u64 {
    match p {
        14 => 100_000,
        24 => 14_000,
        1 | 2 | 11 | 12 | 13 | 15 | 17 => 72_000,
        _ => 56_000,
    }
}

fn profile_for(p: usize, i: u64) -> &'static str {
    // a fixed shuffle, so that a short batch already has the right mix
    let pf = portfolio(p);
    let total: u32 = pf.iter().map(|x| x.1).sum();
    let mut k = (rng::hash(4242, p as u64, i) % total as u64) as u32;
    for (name, w) in pf {
        if k < *w {
            return name;
        }
        k -= w;
    }
    pf[0].0
}

fn plan_for(p: usize, base: u64, i: u64) -> Plan {
    gen::generate(profile_for(p, i), rng::hash(base, 1000 + p as u64, i) >> 16)
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|k| a.get(k + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn prop_no(s: &str) -> usize {
    s.trim_start_matches('C').parse().unwrap_or(0)
}

fn thread_cpu_ms(t: libc::clockid_t) -> Option<u64> {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::syscall(libc::SYS_clock_gettime, t, &mut ts) } != 0 {
        return None;
    }
    Some(ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000)
}

#[derive(Default)]
struct Agg {
    runs: u64,
    sim_ms: u64,
    polls: u64,
    evals: u64,
    nontrivial: u64,
    sched: HashSet<u64>,
    states: HashSet<u64>,
    by_profile: BTreeMap<&'static str, u64>,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    rules: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    skipped: u64,
    repeated: u64,
    identical: u64,
}

struct Found {
    i: u64,
    r: app::RunResult,
    v: Viol,
}

fn write_replay(path: &str, v: &Viol, plan: &Plan, r: &app::RunResult) {
    let rp = Replay {
        property: format!("C{:02}", v.prop),
        rule: v.rule.into(),
        text: v.text.clone(),
        at_ms: v.t,
        seed: plan.seed,
        profile: plan.profile.clone(),
        plan: plan.clone(),
        trace: trace::lines(r),
    };
    let _ = std::fs::create_dir_all(std::path::Path::new(path).parent().unwrap());
    std::fs::write(path, serde_json::to_string_pretty(&rp).unwrap()).unwrap();
}

thread_local! {
    /// The run this thread is busy with.
    static RUN: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}
/// The run that is being minimised.
static SHRINKING: AtomicU64 = AtomicU64::new(u64::MAX);
static CRASH_FD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
const CRASHED: i32 = 77;

/// The code under test took the process down (a stack overflow, say): leave the run's number.
extern "C" fn on_abort(_: libc::c_int) {
    let i = RUN.with(|c| c.get()).min(SHRINKING.load(Ordering::SeqCst)).to_le_bytes();
    unsafe {
        libc::write(CRASH_FD.load(Ordering::SeqCst), i.as_ptr() as *const libc::c_void, 8);
        libc::_exit(CRASHED);
    }
}

/// Runs the check in a process of its own, so that even its sudden end can be reported.
fn check() -> i32 {
    if std::env::args().any(|a| a == "--inner") {
        return check_inner();
    }
    let prop = arg("--prop").expect("--prop");
    let p = prop_no(&prop);
    let mut fds = [0i32; 2];
    if unsafe { libc::pipe(fds.as_mut_ptr()) } != 0 {
        return check_inner();
    }
    let t0 = Instant::now();
    let mut cmd = std::process::Command::new(std::env::current_exe().expect("own path"));
    cmd.args(std::env::args().skip(1)).args(["--inner", "--crash-fd", &fds[1].to_string()]);
    let mut child = cmd.spawn().expect("child");
    unsafe { libc::close(fds[1]) };
    let code = child.wait().expect("child").code().unwrap_or(4);
    if code != CRASHED {
        return code;
    }
    let mut b = [0u8; 8];
    let n = unsafe { libc::read(fds[0], b.as_mut_ptr() as *mut libc::c_void, 8) };
    let i = u64::from_le_bytes(b);
    if n != 8 || i == u64::MAX {
        return 4;
    }
    let plan = plan_for(p, num("--seed", 1), i);
    let path = format!("{}/{}-{}.json", arg("--replays").unwrap_or("/verif/replays".into()), prop, plan.seed);
    let text = "the code under test took the whole process down";
    println!("run {} profile {} seed {}: {}", i, plan.profile, plan.seed, text);
    let rp = Replay {
        property: prop.clone(),
        rule: "process survives".into(),
        text: text.into(),
        at_ms: 0,
        seed: plan.seed,
        profile: plan.profile.clone(),
        plan,
        trace: vec![],
    };
    let _ = std::fs::create_dir_all(std::path::Path::new(&path).parent().unwrap());
    std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()).unwrap();
    let a = Agg { runs: i + 1, ..Agg::default() };
    finish(&prop, &arg("--tier").unwrap_or("quick".into()), num("--seed", 1), &a, t0, 1, arg("--evidence").as_deref());
    println!("VIOLATION property={} replay={}", prop, path);
    1
}

fn check_inner() -> i32 {
    if let Some(fd) = arg("--crash-fd").and_then(|f| f.parse().ok()) {
        CRASH_FD.store(fd, Ordering::SeqCst);
        unsafe { libc::signal(libc::SIGABRT, on_abort as *const () as libc::sighandler_t) };
    }
    let prop = arg("--prop").expect("--prop");
    let p = prop_no(&prop);
    let tier = arg("--tier").unwrap_or("quick".into());
    let base = num("--seed", 1);
    let workers = num("--workers", 8).max(1);
    let (def_runs, def_cap) = if tier == "thorough" { (u64::MAX, 600) } else { (quick_runs(p), 100) };
    let max_runs = num("--runs", def_runs);
    let cap = Duration::from_secs(num("--cap", def_cap));
    let replays = arg("--replays").unwrap_or("/verif/replays".into());
    let evidence = arg("--evidence");
    let t0 = Instant::now();

    let next = Arc::new(AtomicU64::new(0));
    let stop_at = Arc::new(AtomicU64::new(u64::MAX));
    let done = Arc::new(AtomicBool::new(false));
    let agg = Arc::new(Mutex::new(Agg::default()));
    let found: Arc<Mutex<Option<Found>>> = Arc::new(Mutex::new(None));
    // what each worker is running, for the watchdog
    let now_running: Arc<Vec<Mutex<Option<(u64, libc::clockid_t, u64)>>>> = Arc::new((0..workers).map(|_| Mutex::new(None)).collect());
    let hung: Arc<Mutex<Vec<u64>>> = Arc::new(Mutex::new(vec![]));

    let spawn_worker = {
        let (next, stop_at, agg, found, now_running) = (next.clone(), stop_at.clone(), agg.clone(), found.clone(), now_running.clone());
        move |w: usize| {
            let (next, stop_at, agg, found, now_running) = (next.clone(), stop_at.clone(), agg.clone(), found.clone(), now_running.clone());
            std::thread::spawn(move || loop {
                if t0.elapsed() > cap {
                    return;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= max_runs || i > stop_at.load(Ordering::SeqCst) {
                    return;
                }
                let name = profile_for(p, i);
                let plan = plan_for(p, base, i);
                let nr = now_running.clone();
                let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
                    let mut clk: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
                    *nr[w].lock().unwrap() = Some((i, clk, 0));
                    RUN.with(|c| c.set(i));
                    // a few runs are repeated: the same seed has to be the same execution
                    let again = (i % 1000 == 7).then(|| plan.clone());
                    let r = app::run_here(plan);
                    let rep = judge(&r);
                    let same = again.map(|p| trace::digest(&app::run_here(p)) == trace::digest(&r));
                    *nr[w].lock().unwrap() = None;
                    (r, rep, same)
                });
                let Ok((r, rep, same)) = h.expect("thread").join() else {
                    // a history the judge cannot make sense of; the other runs still count
                    eprintln!("simulator error in run {} ({})", i, name);
                    *now_running[w].lock().unwrap() = None;
                    agg.lock().unwrap().skipped += 1;
                    continue;
                };
                let mut a = agg.lock().unwrap();
                a.runs += 1;
                a.sim_ms += r.sim_ms;
                if let Some(same) = same {
                    a.repeated += 1;
                    a.identical += same as u64;
                }
                a.polls += r.polls;
                let fresh = a.sched.insert(r.sched_hash);
                for s in trace::states(&r) {
                    a.states.insert(s);
                }
                *a.by_profile.entry(name).or_insert(0) += 1;
                for (k, v) in &r.stats.faults {
                    *a.faults.entry(k).or_insert(0) += v;
                }
                for (k, v) in &r.stats.probes {
                    *a.probes.entry(k).or_insert(0) += v;
                }
                let n: u64 = rep.rules.iter().filter(|((q, _), _)| *q == p).map(|(_, n)| *n).sum();
                a.evals += n;
                if n > 0 && fresh {
                    a.nontrivial += 1;
                }
                for ((q, rule), n) in &rep.rules {
                    if *q == p {
                        *a.rules.entry(rule).or_insert(0) += n;
                    }
                }
                if i < 3 {
                    let s = json!({"run": i, "profile": name, "seed": r.plan.seed, "steps": r.plan.steps.len(),
                        "simulated_ms": r.sim_ms, "faults": r.stats.faults.clone(), "judged": n,
                        "first_steps": r.plan.steps.iter().take(4).map(|s| format!("{} {:?}", s.at, s.act)).collect::<Vec<_>>()});
                    a.samples.push(s);
                }
                drop(a);
                if let Some(v) = rep.viol.into_iter().find(|v| v.prop == p) {
                    let mut f = found.lock().unwrap();
                    if f.as_ref().map(|f| i < f.i).unwrap_or(true) {
                        *f = Some(Found { i, r, v });
                        stop_at.fetch_min(i, Ordering::SeqCst);
                    }
                }
            })
        }
    };
    let mut handles: Vec<_> = (0..workers as usize).map(&spawn_worker).collect();
    // watchdog: a run that burns CPU without returning to the scheduler
    let limit_ms = num("--hang-ms", 60_000);
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        for w in 0..workers as usize {
            let mut g = now_running[w].lock().unwrap();
            if let Some((i, clk, _)) = *g {
                if thread_cpu_ms(clk).unwrap_or(0) > limit_ms {
                    *g = None;
                    hung.lock().unwrap().push(i);
                }
            }
        }
        let hs = hung.lock().unwrap().clone();
        if !hs.is_empty() && found.lock().unwrap().is_none() {
            // Nothing can interrupt that thread; decide now.
            let i = hs[0];
            let plan = plan_for(p, base, i);
            if p == 7 || p == 8 || p == 10 || p == 14 {
                let path = format!("{}/{}-{}.json", replays, prop, plan.seed);
                let rp = Replay {
                    property: prop.clone(),
                    rule: "no livelock".into(),
                    text: "a task of the code under test never returns".into(),
                    at_ms: 0,
                    seed: plan.seed,
                    profile: plan.profile.clone(),
                    plan,
                    trace: vec![],
                };
                let _ = std::fs::create_dir_all(&replays);
                std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()).unwrap();
                finish(&prop, &tier, base, &agg.lock().unwrap(), t0, 1, evidence.as_deref());
                println!("VIOLATION property={} replay={}", prop, path);
                println!("  a task of the code under test never returns (run {}, {} CPU ms)", i, limit_ms);
                exit(1);
            }
            // another property's business; what was explored so far stands
            agg.lock().unwrap().skipped += hs.len() as u64;
            next.store(u64::MAX / 2, Ordering::SeqCst);
            break;
        }
    }
    done.store(true, Ordering::SeqCst);
    if hung.lock().unwrap().is_empty() {
        for h in handles.drain(..) {
            let _ = h.join();
        }
    }
    let f = found.lock().unwrap().take();
    let a = agg.lock().unwrap();
    let code = match f {
        None if a.skipped > 10 + a.runs / 100 => {
            eprintln!("{} of {} runs could not be judged", a.skipped, a.runs + a.skipped);
            3
        }
        None => {
            finish(&prop, &tier, base, &a, t0, 0, evidence.as_deref());
            println!(
                "OK property={} tier={} seed={} runs={} simulated_hours={:.1} judged={} wall_s={:.1}",
                prop,
                tier,
                base,
                a.runs,
                a.sim_ms as f64 / 3.6e6,
                a.evals,
                t0.elapsed().as_secs_f64()
            );
            0
        }
        Some(f) => {
            let path = format!("{}/{}-{}.json", replays, prop, f.r.plan.seed);
            let budget = Duration::from_secs(num("--shrink", 40));
            SHRINKING.store(f.i, Ordering::SeqCst);
            match shrink::shrink(&f.r, &f.v, budget) {
                Some(s) => {
                    write_replay(&path, &s.viol, &s.plan, &s.result);
                    println!(
                        "minimised: {} of {} steps, {} of {} scheduling and network decisions",
                        s.plan.steps.len(),
                        s.steps_before,
                        s.plan.explicit.as_ref().unwrap().len(),
                        s.choices_before
                    );
                    println!("  {} [{}] at {} ms: {}", prop, s.viol.rule, s.viol.t, s.viol.text);
                }
                None => {
                    write_replay(&path, &f.v, &f.r.plan, &f.r);
                    println!("  {} [{}] at {} ms: {}", prop, f.v.rule, f.v.t, f.v.text);
                }
            }
            finish(&prop, &tier, base, &a, t0, 1, evidence.as_deref());
            println!("run {} profile {} seed {}", f.i, f.r.plan.profile, f.r.plan.seed);
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    exit(code)
}

fn finish(prop: &str, tier: &str, seed: u64, a: &Agg, t0: Instant, violations: u64, path: Option<&str>) {
    let Some(path) = path else { return };
    let wall = t0.elapsed().as_secs_f64();
    let e = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial,
            "rule": "One case is one simulated run: a plan (application calls, bus traffic, gateway behaviour, faults) generated from a profile and a seed, executed with every task switch, wake-up order, delay and loss decided by the seed. Distinct: its full schedule hash (every event delivery and every scheduling decision, in order) is new. Non-trivial: the property's antecedent occurred at least once and was judged.",
            "samples": a.samples,
            "judgements": a.evals,
            "judgements_by_rule": a.rules,
            "distinct_schedules": a.sched.len(),
            "distinct_protocol_states": a.states.len(),
            "protocol_state_measure": "per instance, at every event: (event kind, tunnel up, own requests unacknowledged, calls in flight, messages since the last connect, gateway up), capped counts",
            "runs_per_hour": (a.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "simulated_hours": a.sim_ms as f64 / 3.6e6,
            "task_polls": a.polls,
            "runs_by_profile": a.by_profile,
            "faults_injected": a.faults,
            "conditions_reached": a.probes,
            "runs_abandoned": a.skipped,
            "runs_repeated_for_determinism": a.repeated,
            "repeats_identical": a.identical,
            "real_code": ["knx-ip-client: transport (client, monitor, search), packet codecs", "tokio 1.54.1: timers, select!, channels, locks, task scheduler (current thread, paused clock)"],
            "simulated": ["UDP sockets and network", "the KNXnet/IP gateway (strict state machine)", "the bus and its devices", "the calling application", "clock and entropy"],
        },
        "assumptions": [
            "The gateway follows the tunnelling specification except for the faults injected.",
            "Tasks run one at a time on one thread, preempted at await points, locks, channel and socket operations.",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(path, serde_json::to_string_pretty(&e).unwrap() + "\n").expect("evidence");
}

fn replay() -> i32 {
    let file = std::env::args().nth(2).expect("file");
    let rp: Replay = serde_json::from_str(&std::fs::read_to_string(&file).expect("replay file")).expect("replay file");
    if rp.rule == "process survives" && !std::env::args().any(|a| a == "--inner") {
        let own = std::env::current_exe().expect("own path");
        let st = std::process::Command::new(own).args(std::env::args().skip(1)).arg("--inner").status().expect("child");
        if st.code().is_none() {
            println!("  the code under test took the whole process down");
            println!("VIOLATION property={} replay={}", rp.property, file);
            return 1;
        }
        return st.code().unwrap();
    }
    let r = shrink::run(&rp.plan);
    let rep = judge(&r);
    if std::env::args().any(|a| a == "--trace") {
        for l in trace::lines(&r) {
            println!("{}", l);
        }
    }
    let p = prop_no(&rp.property);
    for v in rep.viol.iter().filter(|v| v.prop == p) {
        println!("  [{}] at {} ms: {}", v.rule, v.t, v.text);
    }
    if rep.viol.iter().any(|v| v.prop == p) {
        println!("VIOLATION property={} replay={}", rp.property, file);
        1
    } else {
        println!("OK: property {} holds on this history", rp.property);
        0
    }
}

/// Many runs of every profile, all properties: a table of which rules failed.
fn survey() -> i32 {
    let runs = num("--runs", 200);
    let base = num("--seed", 1);
    let only = arg("--profile");
    let names: Vec<String> = match only {
        Some(n) => n.split(',').map(|s| s.to_string()).collect(),
        None => gen::PROFILES.iter().map(|s| s.to_string()).collect(),
    };
    let next = Arc::new(AtomicU64::new(0));
    type Row = (u64, u64, String);
    let fails: Arc<Mutex<BTreeMap<(usize, String), Vec<Row>>>> = Default::default();
    let evals: Arc<Mutex<BTreeMap<(usize, &'static str), u64>>> = Default::default();
    let probes: Arc<Mutex<BTreeMap<&'static str, u64>>> = Default::default();
    let names = Arc::new(names);
    let total = runs * names.len() as u64;
    let t0 = Instant::now();
    let sim = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..num("--workers", 8))
        .map(|_| {
            let (next, fails, evals, probes, names, sim) = (next.clone(), fails.clone(), evals.clone(), probes.clone(), names.clone(), sim.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= total {
                    return;
                }
                let name = &names[(i % names.len() as u64) as usize];
                let seed = rng::hash(base, 99, i) >> 16;
                let plan = gen::generate(name, seed);
                let r = shrink::run(&plan);
                let rep = judge(&r);
                sim.fetch_add(r.sim_ms, Ordering::Relaxed);
                if std::env::var("MEM").is_ok() {
                    println!("mem {} {} peak {} end {} insts {} epochs", name, seed, r.peak_mem.1, r.end_mem, r.plan.insts.len());
                }
                let mut seen = HashSet::new();
                for v in rep.viol {
                    if seen.insert((v.prop, v.rule)) {
                        fails.lock().unwrap().entry((v.prop, format!("{} <{}>", v.rule, name))).or_default().push((seed, v.t, v.text));
                    }
                }
                let mut e = evals.lock().unwrap();
                for (k, n) in rep.rules {
                    *e.entry(k).or_insert(0) += n;
                }
                let mut e = probes.lock().unwrap();
                for (k, n) in r.stats.faults.iter().chain(r.stats.probes.iter()) {
                    *e.entry(k).or_insert(0) += n;
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    if std::env::args().any(|a| a == "--evals") {
        for ((p, r), n) in evals.lock().unwrap().iter() {
            println!("eval C{:02} {:<50} {}", p, r, n);
        }
        for (k, n) in probes.lock().unwrap().iter() {
            println!("fired {:<40} {}", k, n);
        }
    }
    let mut bad = 0;
    for ((p, r), v) in fails.lock().unwrap().iter() {
        bad += 1;
        let (seed, t, text) = v.iter().min_by_key(|x| x.0).unwrap();
        println!("FAIL C{:02} {:<45} x{:<5} e.g. seed {} at {}: {}", p, r, v.len(), seed, t, text);
    }
    println!(
        "{} runs, {:.1} simulated hours, {:.1} s, {} kinds of failure",
        total,
        sim.load(Ordering::Relaxed) as f64 / 3.6e6,
        t0.elapsed().as_secs_f64(),
        bad
    );
    (bad > 0) as i32
}

/// Full trace of one generated run.
fn show() -> i32 {
    let name = std::env::args().nth(2).expect("profile");
    let seed: u64 = std::env::args().nth(3).expect("seed").parse().expect("seed");
    let plan = gen::generate(&name, seed);
    let r = shrink::run(&plan);
    let rep = judge(&r);
    for l in trace::lines(&r) {
        println!("{}", l);
    }
    for v in &rep.viol {
        println!("BAD C{:02} [{}] at {}: {}", v.prop, v.rule, v.t, v.text);
    }
    0
}

/// Minimise the first failure of a rule in one generated run.
fn mini() -> i32 {
    let name = std::env::args().nth(2).expect("profile");
    let seed: u64 = std::env::args().nth(3).expect("seed").parse().expect("seed");
    let p = prop_no(&std::env::args().nth(4).expect("property"));
    let plan = gen::generate(&name, seed);
    let r = shrink::run(&plan);
    let rep = judge(&r);
    let rule = arg("--rule");
    let Some(v) = rep.viol.into_iter().find(|v| v.prop == p && rule.as_ref().map(|x| x == v.rule).unwrap_or(true)) else {
        println!("no violation");
        return 0;
    };
    let s = shrink::shrink(&r, &v, Duration::from_secs(num("--shrink", 30))).expect("explicit replay differs");
    for st in &s.plan.steps {
        println!("step {} {:?}", st.at, st.act);
    }
    println!("choices {:?}", s.plan.explicit);
    println!("quiet {} end {} knobs {:?}", s.plan.quiet_at, s.plan.end_at, s.plan.knobs);
    for d in &s.plan.devices {
        println!("device {:?}", d);
    }
    for l in trace::lines(&s.result) {
        println!("{}", l);
    }
    println!("BAD C{:02} [{}] at {}: {}", s.viol.prop, s.viol.rule, s.viol.t, s.viol.text);
    0
}

/// Event-log digests of many runs, for comparing processes and worker counts.
fn digest() -> i32 {
    let runs = num("--runs", 400);
    let base = num("--seed", 1);
    let next = Arc::new(AtomicU64::new(0));
    let out: Arc<Mutex<BTreeMap<u64, String>>> = Default::default();
    let hs: Vec<_> = (0..num("--workers", 8))
        .map(|_| {
            let (next, out) = (next.clone(), out.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= runs {
                    return;
                }
                let name = gen::PROFILES[(i % gen::PROFILES.len() as u64) as usize];
                let seed = rng::hash(base, 77, i) >> 16;
                let mut plan = gen::generate(name, seed);
                let r = shrink::run(&plan);
                let d = trace::digest(&r);
                // the explicit form must reproduce it exactly
                plan.explicit = Some(r.taken.clone());
                let d2 = trace::digest(&shrink::run(&plan));
                out.lock().unwrap().insert(i, format!("{} {} {:016x} {} {}", name, seed, d, r.hist.len(), if d == d2 { "same" } else { "EXPLICIT-DIFFERS" }));
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    for (i, s) in out.lock().unwrap().iter() {
        println!("{} {}", i, s);
    }
    0
}

fn main() {
    app::install_panic_hook();
    let code = match std::env::args().nth(1).as_deref() {
        Some("check") => check(),
        Some("replay") => replay(),
        Some("survey") => survey(),
        Some("show") => show(),
        Some("mini") => mini(),
        Some("digest") => digest(),
        _ => {
            eprintln!("usage: knxsim check|replay|survey|show|mini|digest ...");
            2
        }
    };
    exit(code)
}
