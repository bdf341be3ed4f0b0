//! Runs a property's simulations, and what becomes of a violation.

use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

use serde::{Deserialize, Serialize};
use serde_json::json;

use crate::min;
use crate::proc::{self, End};
use crate::props::{self, Ctx, Prop, Violation};
use crate::rng::{hash_bytes, mix, Rng};
use crate::scen::*;
use crate::seams;
use crate::sut;

/// Edges one call may take. Far beyond what any call takes on the recordings simulated here.
pub fn steps_allowed(len: u64) -> u64 {
    1_500_000_000 + 2_000 * len
}

const WALL_SECS: u64 = 240;

pub fn find(id: &str) -> Option<Prop> {
    props::all().into_iter().find(|p| p.id == id)
}

pub fn scenario(p: &Prop, seed: u64, index: u64) -> Scenario {
    let s = mix(mix(seed, hash_bytes(p.id.as_bytes())), index);
    let mut rng = Rng::new(s);
    let mut env = rng.fork(7);
    let (recs, plan) = (p.gen)(&mut rng, index);
    Scenario {
        prop: p.id.to_string(),
        seed: s,
        index,
        recs,
        plan,
        hash_seed: env.u64(),
        clock_ns: match env.below(6) {
            0 => env.range(-4_000_000_000_000_000_000, 4_000_000_000_000_000_000),
            1 => 0,
            _ => env.range(900_000_000_000_000_000, 1_900_000_000_000_000_000),
        },
    }
}

/// One simulated run, judged. Never returns if the code under test takes the process down.
pub fn execute(p: &Prop, s: &Scenario, ctx: &mut Ctx) -> Result<(), Violation> {
    seams::fresh_thread(s.hash_seed, s.clock_ns, || {
        seams::set_progress("");
        seams::allow_steps(steps_allowed(1 << 20));
        (p.eval)(s, ctx)
    })
}

// ---------------------------------------------------------------- outcome of one scenario

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Fine(u64, Vec<(u64, u8)>),
    Bad(Violation, Vec<(u64, u8)>),
    /// The harness failed.
    Broken(String),
}

#[derive(Serialize, Deserialize)]
struct OneReport {
    violation: Option<Violation>,
    digest: u64,
    taken: Vec<(u64, u8)>,
}

fn death(end: &End, note: &str) -> Result<Violation, String> {
    let what = if note.is_empty() { "preparing the run" } else { note };
    Ok(match end {
        End::Exit(c) if *c == seams::EXIT_DEADLOCK => props::fail(
            format!("{what}: deadlock"),
            format!("{what}: every task waits for another one"),
        ),
        End::Exit(c) if *c == seams::EXIT_STUCK => props::fail(
            format!("{what}: does not come back"),
            format!("{what}: gave up after the allowed number of steps"),
        ),
        End::Timeout if !note.is_empty() => props::fail(
            format!("{what}: does not come back"),
            format!("{what}: gave up after the allowed time"),
        ),
        End::Signal(s) if !note.is_empty() => props::fail(
            format!("{what}: process ends"),
            format!("{what}: the process was ended by signal {s}"),
        ),
        End::Exit(c) if !note.is_empty() && *c != proc::EXIT_HARNESS && !(90..=96).contains(c) => {
            props::fail(
                format!("{what}: process ends"),
                format!("{what}: the process ended with status {c}"),
            )
        }
        other => return Err(format!("{what}: {other:?}")),
    })
}

/// Runs scenarios one after the other in one fresh process; the outcome of the last.
pub fn try_out(warmup: &[Scenario], s: &Scenario) -> Outcome {
    let Some(p) = find(&s.prop) else {
        return Outcome::Broken(format!("no property {}", s.prop));
    };
    let board = seams::new_board();
    let end = proc::in_child(WALL_SECS, || {
        seams::use_board(board);
        for w in warmup {
            let mut ctx = Ctx::default();
            if let Some(p) = find(&w.prop) {
                let _ = execute(&p, w, &mut ctx);
            }
        }
        let mut ctx = Ctx::default();
        board.run.store(1, std::sync::atomic::Ordering::SeqCst);
        let r = execute(&p, s, &mut ctx);
        serde_json::to_vec(&OneReport {
            violation: r.err(),
            digest: ctx.digest,
            taken: ctx.taken,
        })
        .unwrap()
    });
    let note = seams::progress(board);
    let last = board.run.load(std::sync::atomic::Ordering::SeqCst) == 1;
    seams::drop_board(board);
    match end {
        End::Done(b) => match serde_json::from_slice::<OneReport>(&b) {
            Ok(r) => match r.violation {
                Some(v) => Outcome::Bad(v, r.taken),
                None => Outcome::Fine(r.digest, r.taken),
            },
            Err(e) => Outcome::Broken(format!("unreadable report: {e}")),
        },
        // died while warming up: not this scenario's failure
        _ if !last => Outcome::Fine(0, vec![]),
        end => match death(&end, &note) {
            Ok(v) => Outcome::Bad(v, vec![]),
            Err(e) => Outcome::Broken(e),
        },
    }
}

// ---------------------------------------------------------------- a batch

#[derive(Serialize, Deserialize, Default)]
struct ChunkReport {
    runs: u64,
    digest: u64,
    keys: Vec<u64>,
    shapes: Vec<u64>,
    interleavings: Vec<u64>,
    nontrivial: u64,
    counts: BTreeMap<String, u64>,
    fired: BTreeMap<String, u64>,
    fired_runs: BTreeMap<String, u64>,
    max: BTreeMap<String, f64>,
    sim_ms: u64,
    steps: u64,
    sample: Option<(u64, serde_json::Value)>,
    violation: Option<(u64, Violation)>,
    random_calls: u64,
    clock_calls: u64,
}

fn chunk(p: &Prop, seed: u64, from: u64, to: u64, board: &'static seams::Board) -> ChunkReport {
    let mut r = ChunkReport::default();
    for i in from..to {
        board.run.store(i, std::sync::atomic::Ordering::SeqCst);
        seams::set_progress("");
        let s = scenario(p, seed, i);
        let mut ctx = Ctx::default();
        let res = execute(p, &s, &mut ctx);
        seams::set_progress("");
        r.runs += 1;
        if ctx.nontrivial {
            r.nontrivial += 1;
            r.keys.push(mix(ctx.key, hash_bytes(&serde_json::to_vec(&s.plan).unwrap_or_default())));
        }
        r.digest = r
            .digest
            .wrapping_add(mix(mix(i, ctx.digest), mix(ctx.key, ctx.interleaving)));
        r.shapes.push(ctx.shape);
        if ctx.interleaving != 0 {
            r.interleavings.push(ctx.interleaving);
        }
        for (k, n) in &ctx.counts {
            *r.counts.entry(k.clone()).or_default() += n;
        }
        for (k, n) in &ctx.fired {
            *r.fired.entry(k.clone()).or_default() += n;
            *r.fired_runs.entry(k.clone()).or_default() += 1;
        }
        for (k, v) in &ctx.max {
            let e = r.max.entry(k.clone()).or_insert(*v);
            *e = e.max(*v);
        }
        r.sim_ms += ctx.sim_ms;
        r.steps += ctx.steps;
        if r.sample.is_none() && ctx.nontrivial && i < 64 {
            r.sample = Some((i, describe(&s)));
        }
        if let Err(v) = res {
            r.violation = Some((i, v));
            break;
        }
    }
    r.random_calls = seams::random_calls();
    r.clock_calls = seams::clock_calls();
    r
}

/// A scenario in a few words.
fn describe(s: &Scenario) -> serde_json::Value {
    let recs: Vec<_> = s
        .recs
        .iter()
        .map(|r| {
            let base = match &r.base {
                Base::Sim { frames } => {
                    let text: Vec<String> = frames
                        .iter()
                        .filter(|f| !f.signon && !f.parts.is_empty())
                        .take(4)
                        .map(|f| {
                            let mut t = format!("{:?}", f.parts);
                            if t.len() > 220 {
                                let mut n = 220;
                                while !t.is_char_boundary(n) {
                                    n -= 1;
                                }
                                t.truncate(n);
                                t.push('…');
                            }
                            format!("+{} ms target {}: {t}", f.ms, f.ty & 7)
                        })
                        .collect();
                    json!({"simulated frames": frames.len(), "begins": text})
                }
                Base::Corpus { file, from, len } => {
                    json!({"real demo": file, "from": from, "bytes": len})
                }
                Base::Bytes { bytes } => json!({"forged bytes": bytes.0.len(),
                    "begins": bytes.0.iter().take(60).map(|b| *b as char).collect::<String>()}),
            };
            let short = |v: serde_json::Value| {
                let t = v.to_string();
                if t.len() > 500 {
                    json!(t.chars().take(500).collect::<String>())
                } else {
                    v
                }
            };
            json!({"recording": base, "relay faults": short(json!(r.net)), "disk faults": short(json!(r.disk))})
        })
        .collect();
    let plan = serde_json::to_string(&s.plan).unwrap_or_default();
    json!({
        "index": s.index,
        "seed": format!("{:#018x}", s.seed),
        "recordings": recs,
        "plan": plan.chars().take(600).collect::<String>(),
    })
}

pub struct Batch {
    total: ChunkReport,
    keys: HashSet<u64>,
    shapes: HashSet<u64>,
    interleavings: HashSet<u64>,
    samples: BTreeMap<u64, serde_json::Value>,
    edges: usize,
    processes: u64,
    bad: Option<(u64, u64, Violation)>,
    broken: Option<String>,
    capped: bool,
    pub secs: f64,
}

fn mem_workers() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 8)
}

pub fn batch(p: &Prop, seed: u64, runs: u64, workers: usize, cap_secs: f64) -> Batch {
    let start = Instant::now();
    let boards: Vec<&'static seams::Board> = (0..workers).map(|_| seams::new_board()).collect();
    let mut b = Batch {
        total: ChunkReport::default(),
        keys: HashSet::new(),
        shapes: HashSet::new(),
        interleavings: HashSet::new(),
        samples: BTreeMap::new(),
        edges: 0,
        processes: 0,
        bad: None,
        broken: None,
        capped: false,
        secs: 0.0,
    };
    let mut free: Vec<usize> = (0..workers).rev().collect();
    let mut started: Vec<(u64, u64)> = vec![(0, 0); workers];
    let mut children: Vec<(usize, proc::Child)> = vec![];
    let mut next = 0;
    loop {
        while b.bad.is_none() && b.broken.is_none() && !b.capped && next < runs {
            let Some(w) = free.pop() else { break };
            if start.elapsed().as_secs_f64() > cap_secs {
                b.capped = true;
                free.push(w);
                break;
            }
            let (from, to) = (next, (next + p.chunk).min(runs));
            next = to;
            started[w] = (from, to);
            let board = boards[w];
            b.processes += 1;
            children.push((
                w,
                proc::spawn(WALL_SECS * 2, || {
                    seams::use_board(board);
                    serde_json::to_vec(&chunk(p, seed, from, to, board)).unwrap()
                }),
            ));
        }
        if children.is_empty() {
            break;
        }
        let (w, end) = proc::wait_any(&mut children);
        free.push(w);
        let from = started[w].0;
        let mut bad = |i: u64, v: Violation| {
            if b.bad.as_ref().map_or(true, |(j, _, _)| i < *j) {
                b.bad = Some((i, from, v));
            }
        };
        match end {
            End::Done(bytes) => {
                let Ok(r) = serde_json::from_slice::<ChunkReport>(&bytes) else {
                    b.broken = Some("unreadable report of a chunk".into());
                    continue;
                };
                if let Some((i, v)) = r.violation {
                    bad(i, v);
                }
                let t = &mut b.total;
                t.runs += r.runs;
                t.nontrivial += r.nontrivial;
                t.digest = t.digest.wrapping_add(r.digest);
                t.sim_ms += r.sim_ms;
                t.steps += r.steps;
                t.random_calls += r.random_calls;
                t.clock_calls += r.clock_calls;
                for (into, from) in [
                    (&mut t.counts, &r.counts),
                    (&mut t.fired, &r.fired),
                    (&mut t.fired_runs, &r.fired_runs),
                ] {
                    for (k, n) in from {
                        *into.entry(k.clone()).or_default() += n;
                    }
                }
                for (k, v) in r.max {
                    let e = t.max.entry(k).or_insert(v);
                    *e = e.max(v);
                }
                b.keys.extend(r.keys);
                b.shapes.extend(r.shapes);
                b.interleavings.extend(r.interleavings);
                if let Some((i, s)) = r.sample {
                    b.samples.insert(i, s);
                }
            }
            end => {
                let i = boards[w].run.load(std::sync::atomic::Ordering::SeqCst);
                match death(&end, &seams::progress(boards[w])) {
                    Ok(v) => {
                        b.total.runs += i + 1 - from;
                        bad(i, v)
                    }
                    Err(e) => b.broken = Some(format!("run {i}: {e}")),
                }
            }
        }
    }
    for i in 0..seams::MAX_EDGES {
        if boards
            .iter()
            .any(|b| b.edges[i].load(std::sync::atomic::Ordering::Relaxed) != 0)
        {
            b.edges += 1;
        }
    }
    for x in boards {
        seams::drop_board(x);
    }
    b.secs = start.elapsed().as_secs_f64();
    b
}

// ---------------------------------------------------------------- replay files

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    /// VERIF_SEED and the number of the run that found it.
    pub verif_seed: u64,
    pub index: u64,
    pub how_to: String,
    /// Runs that have to happen before it in the same process, if any.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub warmup: Vec<Scenario>,
    pub scenario: Scenario,
}

fn root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| "/verif".into(), Into::into)
}

fn replay(file: &str) -> i32 {
    let r: Replay = match std::fs::read(file)
        .map_err(|e| e.to_string())
        .and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()))
    {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    match try_out(&r.warmup, &r.scenario) {
        Outcome::Bad(v, _) => {
            println!("{}", v.detail);
            if v.class == r.class && v.detail == r.detail {
                println!("reproduced exactly");
            } else {
                println!("differs from what was recorded: {} / {}", r.class, r.detail);
            }
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
        Outcome::Fine(..) => {
            println!("property={} holds on {file}", r.property);
            0
        }
        Outcome::Broken(e) => {
            eprintln!("harness error: {e}");
            2
        }
    }
}

/// Makes the failing run small, writes it down and makes sure it can be replayed.
fn report(p: &Prop, seed: u64, index: u64, chunk_from: u64, found: &Violation) -> (Violation, String) {
    let mut s = scenario(p, seed, index);
    let mut warmup: Vec<Scenario> = vec![];
    let mut v = found.clone();
    match try_out(&[], &s) {
        Outcome::Bad(now, taken) => {
            if !taken.is_empty() {
                pin(&mut s, taken, &now.class);
            }
            v = now;
            s = min::minimise(s, &v.class, 45.0, |c| try_out(&[], c));
        }
        _ => {
            // depends on what the process did before
            warmup = (chunk_from..index).map(|i| scenario(p, seed, i)).collect();
            if let Outcome::Bad(now, taken) = try_out(&warmup, &s) {
                if !taken.is_empty() {
                    s.plan.switches = Some(taken);
                }
                v = now;
                let until = Instant::now() + std::time::Duration::from_secs(60);
                warmup = min::list(warmup, until, &mut |w| {
                    matches!(try_out(w, &s), Outcome::Bad(x, _) if x.class == v.class)
                });
                let w = warmup.clone();
                s = min::minimise(s, &v.class, 30.0, |c| try_out(&w, c));
            }
        }
    }
    if let Outcome::Bad(now, _) = try_out(&warmup, &s) {
        v = now;
    }
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", p.id, s.seed));
    let shown = path.display().to_string();
    let r = Replay {
        property: p.id.into(),
        class: v.class.clone(),
        detail: v.detail.clone(),
        verif_seed: seed,
        index,
        how_to: format!("./check.sh replay {shown}"),
        warmup,
        scenario: s,
    };
    let text = serde_json::to_string_pretty(&r).unwrap();
    if let Err(e) = std::fs::write(&path, text) {
        eprintln!("{shown}: {e}");
    }
    // and it has to fail the same way in a process that knows nothing but the file
    let again = std::env::current_exe()
        .and_then(|me| std::process::Command::new(me).arg("replay").arg(&path).output());
    match again {
        Ok(o) if String::from_utf8_lossy(&o.stdout).contains("reproduced exactly") => {
            println!("replay: reproduced exactly in a fresh process")
        }
        Ok(o) => println!("replay: {}", String::from_utf8_lossy(&o.stdout).trim()),
        Err(e) => println!("replay: {e}"),
    }
    (v, shown)
}

/// Replaces the random schedule by the switches it made, if that is the same run.
fn pin(s: &mut Scenario, taken: Vec<(u64, u8)>, class: &str) {
    if s.plan.tasks.is_empty() {
        return;
    }
    let mut c = s.clone();
    c.plan.switches = Some(taken);
    if matches!(try_out(&[], &c), Outcome::Bad(v, _) if v.class == class) {
        *s = c;
    }
}

// ---------------------------------------------------------------- commands

fn env_u64(k: &str, default: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(default)
}

fn check(args: &[String]) -> i32 {
    let Some(p) = args.first().and_then(|a| find(a)) else {
        eprintln!("usage: dst check <property> [--runs N] [--workers N] [--tier quick|thorough]");
        return 2;
    };
    let opt = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let tier = opt("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .filter(|t| t == "thorough")
        .unwrap_or_else(|| "quick".into());
    let seed = env_u64("VERIF_SEED", 1);
    let runs = opt("--runs").and_then(|v| v.parse().ok()).unwrap_or(if tier == "thorough" {
        p.thorough
    } else {
        p.quick
    });
    let workers = opt("--workers").and_then(|v| v.parse().ok()).unwrap_or_else(mem_workers);
    let cap = if tier == "thorough" { 3000.0 } else { 240.0 };
    println!("property {} tier {tier} seed {seed} runs {runs} workers {workers}", p.id);
    let start = Instant::now();
    // what is known to fail, looked at in a process of its own
    let mut known: Vec<(String, bool)> = vec![];
    match proc::in_child(WALL_SECS, || {
        let k = seams::fresh_thread(1, 0, || (p.known)());
        serde_json::to_vec(&k).unwrap()
    }) {
        End::Done(b) => known = serde_json::from_slice(&b).unwrap_or_default(),
        other => println!("known findings could not be looked at: {other:?}"),
    }
    for (what, fails) in &known {
        if *fails {
            println!("KNOWN-FINDING: property={} {what}", p.id);
        }
    }
    let b = batch(&p, seed, runs, workers, cap);
    if let Some(e) = &b.broken {
        if b.bad.is_none() {
            eprintln!("harness error: {e}");
            return 2;
        }
    }
    let mut line = None;
    if let Some((index, from, v)) = &b.bad {
        println!("run {index} (seed {seed}): {}: {}", v.class, v.detail);
        let (v, path) = report(&p, seed, *index, *from, v);
        println!("smallest: {}: {}", v.class, v.detail);
        line = Some(format!("VIOLATION property={} replay={path}", p.id));
    }
    if seams::edges_instrumented() == 0 {
        eprintln!("built without rustc-seam.sh: no scheduling points, no step budget");
        return 2;
    }
    let evidence = evidence(&p, &tier, seed, runs, workers, &b, &known, start.elapsed().as_secs_f64());
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    ) {
        eprintln!("evidence: {e}");
        return 2;
    }
    println!(
        "{} runs, {} distinct non-trivial, {} shapes, {} of {} edges, {:.1} s, digest {:016x}",
        b.total.runs,
        b.keys.len(),
        b.shapes.len(),
        b.edges,
        seams::edges_instrumented(),
        b.secs,
        b.total.digest
    );
    match line {
        Some(l) => {
            println!("{l}");
            1
        }
        None => 0,
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Prop,
    tier: &str,
    seed: u64,
    runs: u64,
    workers: usize,
    b: &Batch,
    known: &[(String, bool)],
    wall: f64,
) -> serde_json::Value {
    let per_hour = |n: u64| (n as f64 / b.secs.max(0.001) * 3600.0).round() as u64;
    let samples: Vec<_> = b.samples.values().take(4).cloned().collect();
    json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": b.total.runs,
            "distinct_nontrivial": b.keys.len(),
            "rule": p.rule,
            "samples": samples,
            "planned_runs": runs,
            "stopped_by_time_cap": b.capped,
            "processes": b.processes,
            "workers": workers,
            "simulated_runs_per_hour_one_seed_each": per_hour(b.total.runs),
            "simulated_seconds_covered": b.total.sim_ms as f64 / 1000.0,
            "fault_kinds_fired": b.total.fired,
            "runs_in_which_the_fault_fired": b.total.fired_runs,
            "distinct_run_shapes": b.shapes.len(),
            "distinct_run_shapes_measure": "fault kinds, event kinds and result sizes of a run, each count rounded to a power of two",
            "distinct_interleavings": if b.interleavings.is_empty() {
                json!("not applicable: one reader at a time")
            } else {
                json!({"number": b.interleavings.len(),
                    "measure": "sequence of (scheduling point, task switched to), together with the recordings"})
            },
            "edges_reached": b.edges,
            "edges_instrumented": seams::edges_instrumented(),
            "scheduling_points_or_steps": b.total.steps,
            "probes": b.total.counts,
            "largest": b.total.max,
            "seam_calls": {"randomness drawn by the process": b.total.random_calls, "clock read by the code under test": b.total.clock_calls},
            "digest_of_everything_observed": format!("{:016x}", b.total.digest),
            "known_findings_probed": known.iter().map(|(w, f)| json!({"what": w, "still_fails": f})).collect::<Vec<_>>(),
            "real_code": "all of mvdparser and its dependencies, compiled from /repo's working tree with edge instrumentation, overflow checks and debug assertions",
            "stubs": "game server and players, recorder, relay and disk (simulated); operating system randomness, clocks, sleeping and futex waits as seen by the code under test (interposed)",
        },
        "assumptions": [
            "sampling: a clean batch is evidence, not proof",
            "the simulated server and recorder write what MVDSV/KTX write, as documented in DESIGN.md",
            "the reference model in sim/src/refmodel.rs and the oracles in sim/src/props state the property correctly",
        ],
        "wall_s": wall,
        "violations": u64::from(b.bad.is_some()),
    })
}

/// The same runs again and again, in other processes and numbers of them.
fn selftest(args: &[String]) -> i32 {
    let only = args.first().filter(|a| !a.starts_with('-'));
    let runs = args
        .iter()
        .position(|a| a == "--runs")
        .and_then(|i| args.get(i + 1))
        .and_then(|v| v.parse().ok())
        .unwrap_or(400);
    let mut bad = 0;
    for p in props::all() {
        if only.is_some_and(|o| o != p.id) {
            continue;
        }
        for seed in 1..=3u64 {
            let digests: Vec<(usize, u64, bool)> = [1usize, 8, 3, 8]
                .iter()
                .map(|w| {
                    let b = batch(&p, seed, runs, *w, 1e9);
                    (*w, b.total.digest, b.bad.is_some() || b.broken.is_some())
                })
                .collect();
            let same = digests.iter().all(|d| d.1 == digests[0].1 && !d.2);
            println!(
                "{} seed {seed}: {runs} runs with 1, 8, 3 and 8 workers: {}",
                p.id,
                if same {
                    format!("same digest {:016x}", digests[0].1)
                } else {
                    bad += 1;
                    format!("DIFFERENT {digests:x?}")
                }
            );
        }
    }
    i32::from(bad > 0)
}

/// The same addresses in every run, as far as the machine lets us.
fn steady_addresses() {
    const NO_RANDOMIZE: u64 = 0x0040000;
    if std::env::var_os("DST_STEADY").is_some() {
        return;
    }
    unsafe {
        let now = libc::personality(0xffff_ffff);
        if now < 0 || now as u64 & NO_RANDOMIZE != 0 {
            return;
        }
        if libc::personality(now as u64 | NO_RANDOMIZE) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    if let Ok(me) = std::env::current_exe() {
        let e = std::process::Command::new(me)
            .args(std::env::args_os().skip(1))
            .env("DST_STEADY", "1")
            .exec();
        eprintln!("note: {e}");
    }
}

pub fn main() -> i32 {
    std::env::remove_var("RUST_BACKTRACE");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    std::env::set_var("TZ", "UTC");
    steady_addresses();
    unsafe {
        let none = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
    }
    sut::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("check") => check(&args[1..]),
        Some("replay") if args.len() > 1 => replay(&args[1]),
        Some("selftest") => selftest(&args[1..]),
        Some("show") if args.len() > 2 => {
            let p = find(&args[1]).expect("property");
            let s = scenario(&p, env_u64("VERIF_SEED", 1), args[2].parse().expect("index"));
            println!("{}", serde_json::to_string_pretty(&s).unwrap());
            0
        }
        _ => {
            eprintln!("usage: dst check <property> | replay <file> | selftest [property] | show <property> <index>");
            2
        }
    }
}
