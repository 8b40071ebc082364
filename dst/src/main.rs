//! Deterministic simulation of multicalc under injected faults.
//!
//!   dst check <property>          run the property's worlds, write evidence, exit 0 or 1
//!   dst replay <file>             re-execute a replay file, exit 1 if it still fails
//!   dst determinism [n]           run every world's seeds twice and compare the event logs
//!   dst show <world> <seed>       print the trace a seed stands for

mod about;
mod alloc_count;
mod conv;
mod core;
mod evidence;
mod refs;
mod registry;
mod worlds;

use crate::core::*;
use crate::registry::{Check, checks};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOCATOR: alloc_count::Counting = alloc_count::Counting;

pub fn root() -> std::path::PathBuf {
    std::env::var("DST_ROOT")
        .map(Into::into)
        .unwrap_or_else(|_| "/verif".into())
}

fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

fn base_seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("check") => parent(&args[2]),
        Some("inner") => inner(&args[2]),
        Some("one") => one(&args[2], args[3].parse().unwrap_or(0)),
        Some("replay") => replay(&args[2]),
        Some("determinism") => determinism(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(200)),
        Some("show") => show(&args[2], args[3].parse().unwrap_or(0)),
        Some("list") => {
            for c in checks() {
                println!("{} {}", c.id, c.worlds.iter().map(|w| w.0.name()).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: dst check|replay|determinism|show|list");
            2
        }
    };
    std::process::exit(code);
}

fn find_world(name: &str) -> Option<&'static dyn World> {
    checks()
        .iter()
        .flat_map(|c| c.worlds.iter())
        .map(|w| w.0)
        .find(|w| w.name() == name)
}

fn progress_path(id: &str) -> std::path::PathBuf {
    root().join("replays").join(format!(".progress-{id}"))
}

const SLOTS: usize = 64;

/// Runs the check in a child, so that a run that kills the process is still reported with its seed.
fn parent(id: &str) -> i32 {
    let _ = std::fs::create_dir_all(root().join("replays"));
    let _ = std::fs::create_dir_all(root().join("evidence"));
    let exe = std::env::current_exe().expect("own path");
    let status = std::process::Command::new(&exe)
        .args(["inner", id])
        .status()
        .expect("child runs");
    if let Some(code) = status.code()
        && (code == 0 || code == 1)
    {
        let _ = std::fs::remove_file(progress_path(id));
        return code;
    }
    eprintln!("the simulation process ended abnormally: {status:?}; looking for the run that did it");
    let progress = std::fs::read(progress_path(id)).unwrap_or_default();
    let check = checks().iter().find(|c| c.id == id).expect("known property");
    for slot in progress.chunks_exact(16) {
        let which = u64::from_le_bytes(slot[..8].try_into().expect("8 bytes"));
        let seed = u64::from_le_bytes(slot[8..].try_into().expect("8 bytes"));
        if which == 0 {
            continue;
        }
        let world = check.worlds[(which - 1) as usize].0;
        let status = std::process::Command::new(&exe)
            .args(["one", world.name(), &seed.to_string()])
            .stderr(std::process::Stdio::null())
            .status()
            .expect("child runs");
        if status.signal().is_some() || !matches!(status.code(), Some(0) | Some(1)) {
            let trace = world.generate(&mut Rng::new(seed));
            let message = format!("the process was killed | {status:?}");
            let path = write_replay(id, world.name(), seed, &trace, &message);
            println!("violation: {message}");
            println!("VIOLATION property={id} replay={path}");
            evidence::write_killed(id, &tier(), base_seed(), &message);
            return 1;
        }
    }
    2
}

fn one(world: &str, seed: u64) -> i32 {
    let world = find_world(world).expect("known world");
    let trace = world.generate(&mut Rng::new(seed));
    i32::from(execute(world, &trace).0.is_err())
}

fn show(world: &str, seed: u64) -> i32 {
    let world = find_world(world).expect("known world");
    let trace = world.generate(&mut Rng::new(seed));
    let (result, cx) = execute(world, &trace);
    println!("{}", render("-", world.name(), seed, &trace, &format!("{result:?}")));
    println!("faults {:?}\nprobes {:?}", cx.faults, cx.probes);
    0
}

fn write_replay(id: &str, world: &str, seed: u64, trace: &Trace, message: &str) -> String {
    let path = root().join("replays").join(format!("{id}-{}-{seed}.replay", world.replace(' ', "-")));
    let _ = std::fs::create_dir_all(root().join("replays"));
    let _ = std::fs::write(&path, render(id, world, seed, trace, message));
    path.display().to_string()
}

fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let r = match parse(&text) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let Some(world) = find_world(&r.world) else {
        eprintln!("no world named {}", r.world);
        return 2;
    };
    println!("replaying seed {} of world {}", r.seed, r.world);
    match execute(world, &r.trace).0 {
        Err(m) => {
            println!("violation: {m}");
            println!(
                "{}",
                if m.replace('\n', " ") == r.message {
                    "the same violation as recorded"
                } else {
                    "a different message from the recorded one"
                }
            );
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        Ok(()) => {
            println!("the replay passes");
            0
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub sim_time: f64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub per_world: BTreeMap<&'static str, u64>,
    pub shapes: HashSet<u64>,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    pub faulty_runs: u64,
    pub log: u64,
    pub rechecked: u64,
    pub known: BTreeMap<String, u64>,
}

impl Stats {
    fn merge(&mut self, other: Stats) {
        self.runs += other.runs;
        self.steps += other.steps;
        self.sim_time += other.sim_time;
        self.faulty_runs += other.faulty_runs;
        self.rechecked += other.rechecked;
        for (k, v) in other.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in other.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in other.per_world {
            *self.per_world.entry(k).or_insert(0) += v;
        }
        for (k, v) in other.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        self.shapes.extend(other.shapes);
        self.states.extend(other.states);
        self.samples.extend(other.samples);
        self.log ^= other.log;
    }
}

struct Failure {
    index: u64,
    world: &'static dyn World,
    seed: u64,
    trace: Trace,
    message: String,
}

/// The lines of the known-findings file that name this property: (class, whole text).
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={id} ")))
        .filter_map(|l| {
            let rest = l.strip_prefix("class=\"")?;
            let (class, what) = rest.split_once('"')?;
            Some((class.to_string(), what.trim().to_string()))
        })
        .collect()
}

fn inner(id: &str) -> i32 {
    let started = Instant::now();
    let Some(check) = checks().iter().find(|c| c.id == id) else {
        eprintln!("no property {id}");
        return 2;
    };
    let check: &'static Check = check;
    let tier = tier();
    let seed0 = base_seed();
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("DST_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cap = Duration::from_secs_f64(if thorough { 780.0 } else { 240.0 });
    let workers: usize = std::env::var("DST_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()))
        .clamp(1, SLOTS);
    let known = known_findings(id);

    // The runs, as (world index, how many). Interleaved so that every world is reached early.
    let mut jobs: Vec<(usize, u64)> = Vec::new();
    let counts: Vec<u64> = check
        .worlds
        .iter()
        .map(|w| {
            let n = w.1 as f64 * scale * if thorough { check.thorough_factor } else { 1.0 };
            (n as u64).max(1)
        })
        .collect();
    let most = counts.iter().copied().max().unwrap_or(0);
    // One world alone needs no list.
    let alone = counts.len() == 1;
    for i in 0..if alone { 0 } else { most } {
        for (w, &n) in counts.iter().enumerate() {
            // spread the smaller worlds over the whole run
            if (i * n) / most != ((i + 1) * n) / most {
                jobs.push((w, (i * n) / most));
            }
        }
    }
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let failures: Arc<Mutex<Vec<Failure>>> = Arc::default();
    let progress = Arc::new(
        std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(progress_path(id))
            .expect("progress file"),
    );
    let clocks: Arc<Vec<[AtomicU64; 3]>> = Arc::new(
        (0..SLOTS)
            .map(|_| [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)])
            .collect(),
    );

    let handles: Vec<_> = (0..workers)
        .map(|slot| {
            let (jobs, next, stop, failures, progress, clocks, known) = (
                jobs.clone(),
                next.clone(),
                stop.clone(),
                failures.clone(),
                progress.clone(),
                clocks.clone(),
                known.clone(),
            );
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut stats = Stats::default();
                    loop {
                        if stop.load(Ordering::Relaxed) || started.elapsed() > cap {
                            break;
                        }
                        let job = next.fetch_add(1, Ordering::Relaxed);
                        let (w, i) = match jobs.get(job) {
                            Some(&found) => found,
                            None if alone && (job as u64) < most => (0, job as u64),
                            None => break,
                        };
                        let world = check.worlds[w].0;
                        let seed = mix(mix(seed0, hash_str(world.name())), i) >> 11;
                        let mut record = [0u8; 16];
                        record[..8].copy_from_slice(&(w as u64 + 1).to_le_bytes());
                        record[8..].copy_from_slice(&seed.to_le_bytes());
                        let _ = progress.write_at(&record, slot as u64 * 16);
                        clocks[slot][1].store(w as u64, Ordering::Relaxed);
                        clocks[slot][2].store(seed, Ordering::Relaxed);
                        clocks[slot][0].store(
                            started.elapsed().as_millis() as u64 + 1,
                            Ordering::Release,
                        );
                        let trace = world.generate(&mut Rng::new(seed));
                        let (result, cx) = execute(world, &trace);
                        clocks[slot][0].store(0, Ordering::Release);

                        stats.runs += 1;
                        stats.steps += cx.steps;
                        stats.sim_time += cx.sim_time;
                        *stats.per_world.entry(world.name()).or_insert(0) += 1;
                        let faulty = !cx.faults.is_empty();
                        stats.faulty_runs += u64::from(faulty);
                        if faulty || !cx.probes.is_empty() {
                            stats.shapes.insert(cx.shape);
                        }
                        stats.states.extend(cx.states.iter().take(if thorough { 64 } else { 512 }));
                        stats.log ^= mix(seed, cx.log);
                        for (k, v) in &cx.faults {
                            *stats.faults.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in &cx.probes {
                            *stats.probes.entry(k).or_insert(0) += v;
                        }
                        if i < 2 {
                            stats.samples.push(format!(
                                "world {} seed {seed}: {} -> {}",
                                world.name(),
                                brief(&trace),
                                if result.is_ok() { "held" } else { "violated" }
                            ));
                        }
                        match result {
                            Err(message) => {
                                let class = class_of(&message);
                                if known.iter().any(|(c, _)| *c == class) {
                                    *stats.known.entry(class).or_insert(0) += 1;
                                } else {
                                    failures.lock().expect("lock").push(Failure {
                                        index: job as u64,
                                        world,
                                        seed,
                                        trace,
                                        message,
                                    });
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Ok(()) if i % 16 == 0 => {
                                // The same trace must produce the same event log.
                                let again = execute(world, &trace).1;
                                stats.rechecked += 1;
                                if again.log != cx.log {
                                    failures.lock().expect("lock").push(Failure {
                                        index: job as u64,
                                        world,
                                        seed,
                                        trace,
                                        message: "one trace executed twice gave two different event logs".into(),
                                    });
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Ok(()) => {}
                        }
                    }
                    stats
                })
                .expect("worker thread")
        })
        .collect();

    // Watch for a run that never ends.
    let hang_ms = std::env::var("DST_HANG_MS").ok().and_then(|v| v.parse().ok()).unwrap_or(120_000);
    while handles.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        let now = started.elapsed().as_millis() as u64;
        for clock in clocks.iter() {
            let since = clock[0].load(Ordering::Acquire);
            if since != 0 && now > since + hang_ms {
                let world = check.worlds[clock[1].load(Ordering::Relaxed) as usize].0;
                let seed = clock[2].load(Ordering::Relaxed);
                let trace = world.generate(&mut Rng::new(seed));
                let message = format!("a run did not end | more than {hang_ms} ms");
                let path = write_replay(id, world.name(), seed, &trace, &message);
                println!("violation: {message}");
                println!("VIOLATION property={id} replay={path}");
                evidence::write_killed(id, &tier, seed0, &message);
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        }
    }
    let mut stats = Stats::default();
    for h in handles {
        stats.merge(h.join().expect("worker"));
    }
    let mut failures = std::mem::take(&mut *failures.lock().expect("lock"));
    failures.sort_by_key(|f| f.index);
    let explore_s = started.elapsed().as_secs_f64();

    let mut code = 0;
    if let Some(first) = failures.first() {
        println!("violation found by world {} seed {}: {}", first.world.name(), first.seed, first.message);
        let (small, message) = minimise(first.world, &first.trace, &first.message, 20.0);
        println!(
            "minimised from {} to {} events: {message}",
            first.trace.evs.len(),
            small.evs.len()
        );
        let path = write_replay(id, first.world.name(), first.seed, &small, &message);
        println!("VIOLATION property={id} replay={path}");
        code = 1;
    }
    for (class, what) in &known {
        if stats.known.contains_key(class) {
            println!("KNOWN-FINDING: property={id} {what}");
        } else if code == 0 {
            println!("note: the listed finding was not met in this run: {class}");
        }
    }
    evidence::write(check, &tier, seed0, &stats, workers, explore_s, started.elapsed().as_secs_f64(), failures.len());
    println!(
        "{id}: {} runs, {} steps, {} faults fired, {} distinct, {:.1} s",
        stats.runs,
        stats.steps,
        stats.faults.values().sum::<u64>(),
        stats.shapes.len(),
        explore_s
    );
    code
}

/// Runs each world's seeds on one worker and again spread over many, and compares the event logs.
fn determinism(n: u64) -> i32 {
    let mut worlds: Vec<&'static dyn World> = Vec::new();
    for c in checks() {
        for w in &c.worlds {
            if !worlds.iter().any(|x| x.name() == w.0.name()) {
                worlds.push(w.0);
            }
        }
    }
    let mut bad = 0;
    for world in worlds {
        let count = if world.name().starts_with("loop-") { n / 20 + 1 } else { n };
        let run = move |i: u64| {
            let seed = mix(99, i) >> 11;
            let t = world.generate(&mut Rng::new(seed));
            let (r, cx) = execute(world, &t);
            (cx.log, r.is_ok(), cx.faults.values().sum::<u64>())
        };
        let serial: Vec<_> = (0..count).map(run).collect();
        let next = Arc::new(AtomicU64::new(0));
        let out: Arc<Mutex<BTreeMap<u64, (u64, bool, u64)>>> = Arc::default();
        std::thread::scope(|s| {
            for _ in 0..7 {
                let (next, out) = (next.clone(), out.clone());
                s.spawn(move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= count {
                            break;
                        }
                        let r = run(i);
                        out.lock().expect("lock").insert(i, r);
                    }
                });
            }
        });
        let out = out.lock().expect("lock");
        let differ = serial.iter().enumerate().filter(|(i, v)| out.get(&(*i as u64)) != Some(v)).count();
        let faults: u64 = serial.iter().map(|v| v.2).sum();
        println!("{:28} {count} seeds, {faults} faults, {differ} differ", world.name());
        bad += differ;
    }
    println!("digest comparisons that differ: {bad}");
    i32::from(bad > 0)
}
