//! The reader as a library in somebody's process: results depend on the bytes alone (C03) and
//! memory on their number (C04).

use super::*;
use crate::ensure;
use crate::props::c_damage::{small, soup};
use crate::seams::{self, Policy, Schedule};

// ---------------------------------------------------------------- C03

/// The same recording with other contents of the same length: what a cache keyed on anything
/// but the contents takes for the same.
fn twin(rng: &mut Rng, r: &Recording) -> Recording {
    let mut r = r.clone();
    let Base::Sim { frames } = &mut r.base else {
        let n = rng.usize(1, 4);
        for _ in 0..n {
            let at = Pos {
                tag: 0,
                off: rng.below(40_000) as u32,
            };
            let k = rng.usize(1, 30);
            r.disk.push(DiskFault::Over {
                at,
                bytes: junk(rng, k),
            });
        }
        return r;
    };
    let letter = |rng: &mut Rng, b: &mut B| {
        let places: Vec<usize> = (0..b.0.len())
            .filter(|i| b.0[*i].is_ascii_alphabetic() || b.0[*i].is_ascii_digit())
            .collect();
        if !places.is_empty() {
            let i = *rng.pick(&places);
            b.0[i] = match b.0[i] {
                c if c.is_ascii_digit() => b'0' + rng.below(10) as u8,
                _ => b'a' + rng.below(26) as u8,
            };
        }
    };
    let every = *rng.pick(&[1usize, 3, 30]);
    for f in frames.iter_mut() {
        if rng.below(every) != 0 {
            continue;
        }
        if rng.p(0.2) {
            f.ms = rng.below(60) as u8;
        }
        for p in &mut f.parts {
            match p {
                Part::Print { text, .. } => letter(rng, text),
                Part::Obit { killer, victim, .. } => {
                    let b = if rng.p(0.5) { killer } else { victim };
                    letter(rng, b)
                }
                Part::Flag { name, .. } => letter(rng, name),
                Part::Frags { frags, .. } => *frags = rng.range(-5, 60) as i16,
                Part::Pings(v) => {
                    for x in v {
                        x.1 = rng.below(300) as u16;
                    }
                }
                Part::Settings(kv) => {
                    for (_, v) in kv {
                        letter(rng, v);
                    }
                }
                Part::Slot(s) => {
                    for (k, v) in &mut s.info {
                        if k.0 == b"name" || k.0 == b"team" || k.0 == b"topcolor" {
                            letter(rng, v);
                        }
                    }
                }
                Part::Stats { content, .. } => letter(rng, content),
                _ => {}
            }
        }
    }
    r
}

/// The same recording with other facts in it.
fn variant(rng: &mut Rng, r: &Recording) -> Recording {
    let mut r = r.clone();
    let Base::Sim { frames } = &mut r.base else {
        return twin(rng, &r);
    };
    let facts = rng.usize(1, 7);
    let zone = world::zone(rng).0;
    for p in frames.iter_mut().flat_map(|f| &mut f.parts) {
        match p {
            Part::Print { text, .. } if text.0.starts_with(b"matchdate: ") => {
                if facts & 1 != 0 && text.0.len() > 31 {
                    text.0.truncate(31);
                    text.0.extend_from_slice(format!("{zone}\n").as_bytes());
                }
            }
            Part::Print { text, .. } if facts & 2 != 0 => text.0.insert(0, b'a' + rng.below(26) as u8),
            Part::Obit { kill, phrase, .. } if facts & 2 != 0 => {
                *phrase = rng.below(phrases(*kill)) as u8;
            }
            Part::Settings(kv) if facts & 4 != 0 => {
                let (a, b) = (rng.below(kv.len()), rng.below(kv.len()));
                let v = kv[a].1.clone();
                kv[a].1 = std::mem::replace(&mut kv[b].1, v);
            }
            Part::Slot(s) if facts & 4 != 0 && s.occupied() => {
                for (k, v) in &mut s.info {
                    if k.0 == b"name" || k.0 == b"team" {
                        *v = world::name(rng, 0.3, 10);
                    }
                }
            }
            _ => {}
        }
    }
    r
}

/// The same recording, read while it was still being written, or after more was written.
fn grown(rng: &mut Rng, r: &Recording) -> Recording {
    let mut r = r.clone();
    let Base::Sim { frames } = &mut r.base else {
        return twin(rng, &r);
    };
    let first = frames.iter().position(|f| !f.signon).unwrap_or(frames.len());
    let dump = |f: &Frame| matches!(f.parts.first(), Some(Part::Stats { .. }));
    let dumps: Vec<Frame> = frames.iter().filter(|f| dump(f)).cloned().collect();
    if rng.p(0.4) && first < frames.len() {
        let keep = rng.usize(first, frames.len() - 1);
        frames.truncate(keep);
        return r;
    }
    let more: Vec<Frame> = if !dumps.is_empty() && rng.p(0.6) {
        dumps
    } else {
        let from = rng.usize(first, frames.len());
        frames[from..].to_vec()
    };
    let mut tag = frames.iter().map(|f| f.tag).max().unwrap_or(0);
    let later = twin(
        rng,
        &Recording {
            base: Base::Sim { frames: more },
            net: vec![],
            disk: vec![],
        },
    );
    if let Base::Sim { frames: more } = later.base {
        for mut f in more {
            tag += 1;
            f.tag = tag;
            frames.push(f);
        }
    }
    r
}

/// A few tasks call the same function on recordings that differ in little.
fn duel(rng: &mut Rng) -> (Vec<Recording>, Plan) {
    let mut p = swarm_profile(rng);
    p.events = (0, 10);
    p.clients = (1, 4);
    p.matchdate = 0.0;
    p.epoch = 0.3;
    p.stats = *rng.pick(&[0.1, 0.3, 1.0]);
    p.bulk = 0.0;
    p = p.weight(Ev::Big, 0.0);
    let told = p.stats == 1.0;
    if told {
        p.endings = [1.0, 0.0, 0.0, 0.0, 0.0];
    }
    let mut first = sim(generate(rng, &p));
    if let (Base::Sim { frames }, true) = (&mut first.base, rng.p(0.9)) {
        let tag = frames.iter().map(|f| f.tag).max().unwrap_or(0) + 1;
        let at = frames.iter().position(|f| !f.signon).unwrap_or(frames.len());
        let text = format!(
            "matchdate: {} {}\n",
            world::datetime(rng.range(0, 2_000_000_000)),
            world::zone(rng).0
        );
        let parts = vec![Part::Print {
            id: 2,
            text: B::s(text),
        }];
        let date = Frame {
            tag,
            ms: rng.byte(),
            ty: 6,
            mask: 0,
            parts,
            rep: 1,
            signon: false,
        };
        frames.insert(at, date);
    }
    let mut recs = vec![];
    for _ in 0..rng.usize(1, 2) {
        recs.push(if rng.p(0.35) {
            grown(rng, &first)
        } else {
            variant(rng, &first)
        });
    }
    recs.push(first);
    let named = |n: &str| sut::APIS.iter().position(|a| a.name == n).unwrap_or(0);
    let api = if rng.p(0.3) {
        named(rng.pick(&["timestamp", "matchdate", "matchdate_string", "countdown_duration"]))
    } else if told && rng.p(0.4) {
        named(rng.pick(&["ktxstats_string", "ktxstats_v3", "players", "teams", "match_duration"]))
    } else {
        rng.below(sut::APIS.len())
    } as u16;
    let tasks = (0..rng.usize(2, 3))
        .map(|_| {
            (0..rng.usize(3, 10))
                .map(|_| Step::Call {
                    api,
                    rec: rng.below(recs.len()) as u8,
                })
                .collect()
        })
        .collect();
    let plan = Plan {
        tasks,
        one_in: *rng.pick(&[2, 3, 6, 20, 100]),
        rare: rng.p(0.8),
        ..Default::default()
    };
    (recs, plan)
}

pub fn gen_c03(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    if rng.p(0.35) {
        return duel(rng);
    }
    let mut recs = vec![];
    let first = match rng.below(10) {
        0 => Recording {
            base: Base::Bytes { bytes: soup(rng) },
            net: vec![],
            disk: vec![],
        },
        1 => corpus(rng, 60_000).unwrap_or_else(|| {
            let p = small(rng);
            sim(generate(rng, &p))
        }),
        _ => {
            let mut p = swarm_profile(rng);
            p.events = if rng.p(0.5) { (0, 15) } else { (5, 50) };
            p.stats = 0.5;
            let mut r = sim(generate(rng, &p));
            if rng.p(0.15) {
                disk_faults(rng, &mut r, 1);
            }
            r
        }
    };
    recs.push(first);
    if rng.p(0.75) {
        recs.push(twin(rng, &recs[0].clone()));
    }
    if rng.p(0.35) {
        let mut p = swarm_profile(rng);
        p.events = (0, 30);
        p.stats = 0.5;
        recs.push(sim(generate(rng, &p)));
    }
    let n = rng.weighted(&[1.0, 3.0, 3.0, 2.0]) + 1;
    // either every function, or many calls of few
    let few: Vec<u16> = (0..rng.usize(1, 3))
        .map(|_| rng.below(sut::APIS.len()) as u16)
        .collect();
    let focus = rng.p(0.6);
    let reuse = *rng.pick(&[0.0, 0.3, 0.8]);
    let tasks = (0..n)
        .map(|_| {
            (0..rng.usize(2, 7))
                .map(|_| {
                    let api = if focus {
                        *rng.pick(&few)
                    } else {
                        rng.below(sut::APIS.len()) as u16
                    };
                    let rec = rng.below(recs.len()) as u8;
                    if rng.p(reuse) {
                        Step::Reuse { api, rec }
                    } else {
                        Step::Call { api, rec }
                    }
                })
                .collect()
        })
        .collect();
    let plan = Plan {
        tasks,
        one_in: *rng.pick(&[3, 20, 200, 2000, 20_000]),
        rare: rng.p(0.4),
        zone: rng
            .pick(&["", "UTC", "EST5EDT", "CET-1CEST,M3.5.0,M10.5.0/3", "XXX-14", "YYY12"])
            .to_string(),
        ..Default::default()
    };
    (recs, plan)
}

/// What a call returns when nothing else ever happened in its process.
fn alone(api: u16, bytes: &[u8]) -> Result<String, Violation> {
    let a = &sut::APIS[api as usize];
    let r = crate::proc::in_child(60, || {
        let (r, _) = seams::fresh_thread(0xA10E, 1_700_000_000_000_000_000, || {
            seams::allow_steps(crate::orch::steps_allowed(bytes.len() as u64));
            (a.call)(bytes)
        });
        match r {
            Ok(t) => format!("v{t}").into_bytes(),
            Err(p) => format!("p{}", p.0).into_bytes(),
        }
    });
    match r {
        crate::proc::End::Done(b) => Ok(String::from_utf8_lossy(&b).into_owned()),
        other => Err(fail(
            format!("{}: does not return alone", a.name),
            format!("{} alone in a process: {other:?}", a.name),
        )),
    }
}

pub fn eval_c03(s: &Scenario, ctx: &mut Ctx) -> Res {
    let data: Vec<Vec<u8>> = s.recs.iter().map(|r| ctx.deliver(r).bytes).collect();
    if data.is_empty() || s.plan.tasks.is_empty() {
        return Ok(());
    }
    let rec = |r: u8| r as usize % data.len();
    let mut want = BTreeMap::new();
    let mut reused = false;
    seams::set_progress("a call alone in its process");
    for step in s.plan.tasks.iter().flatten() {
        let (api, r) = match step {
            Step::Call { api, rec } => (*api, *rec),
            Step::Reuse { api, rec } => {
                reused = true;
                (*api, *rec)
            }
        };
        let key = (api, rec(r));
        if !want.contains_key(&key) {
            want.insert(key, alone(api, &data[key.1])?);
            ctx.count("calls alone in a process");
        }
    }
    if !s.plan.zone.is_empty() {
        std::env::set_var("TZ", &s.plan.zone);
    }
    let capacity = data.iter().map(|d| d.len()).max().unwrap_or(0);
    let names: Vec<String> = s
        .plan
        .tasks
        .iter()
        .flatten()
        .map(|st| match st {
            Step::Call { api, .. } | Step::Reuse { api, .. } => {
                sut::APIS[*api as usize].name.to_string()
            }
        })
        .collect();
    let mut note = names.clone();
    note.sort();
    note.dedup();
    seams::set_progress(&format!("concurrent calls of {}", note.join(", ")));
    let policy = match &s.plan.switches {
        Some(sw) => Policy::Fixed(Schedule {
            switches: sw.clone(),
        }),
        None if s.plan.rare => Policy::Rare {
            rng: Rng::new(mix(s.seed, 0x5CED)),
            one_in: s.plan.one_in.clamp(2, 200),
            passed: vec![0; seams::MAX_EDGES],
            until: 0,
        },
        None => Policy::Random {
            rng: Rng::new(mix(s.seed, 0x5CED)),
            one_in: s.plan.one_in.max(2),
        },
    };
    let seeds: Vec<u64> = (0..s.plan.tasks.len())
        .map(|i| mix(s.hash_seed, i as u64 + 1))
        .collect();
    let longest = capacity as u64;
    let tasks = s
        .plan
        .tasks
        .iter()
        .map(|steps| {
            let data = &data;
            let f: Box<dyn FnOnce() -> Vec<Result<String, sut::Panicked>> + Send + '_> =
                Box::new(move || {
                    seams::allow_steps(crate::orch::steps_allowed(longest));
                    let mut buffer: Vec<u8> = Vec::with_capacity(capacity + 1);
                    steps
                        .iter()
                        .inspect(|_| seams::next_call())
                        .map(|step| match step {
                            Step::Call { api, rec } => {
                                (sut::APIS[*api as usize].call)(&data[*rec as usize % data.len()]).0
                            }
                            Step::Reuse { api, rec } => {
                                buffer.clear();
                                buffer.extend_from_slice(&data[*rec as usize % data.len()]);
                                (sut::APIS[*api as usize].call)(&buffer).0
                            }
                        })
                        .collect()
                });
            f
        })
        .collect();
    let ran = seams::run_tasks(policy, &seeds, s.clock_ns, tasks);
    ctx.steps += ran.steps;
    ctx.add("scheduler switches", ran.taken.len() as u64);
    ctx.taken = ran.taken.clone();
    let mut h = 0u64;
    for (a, b) in &ran.taken {
        h = mix(h, mix(*a, *b as u64));
    }
    ctx.interleaving = mix(h, ctx.key);
    ctx.nontrivial = reused || ran.taken.len() >= s.plan.tasks.len();
    ctx.shape("switches", ran.taken.len() as u64);
    for (t, (steps, results)) in s.plan.tasks.iter().zip(&ran.results).enumerate() {
        for (i, (step, got)) in steps.iter().zip(results).enumerate() {
            let (how, api, r) = match step {
                Step::Call { api, rec } => ("on the shared recording", *api, *rec),
                Step::Reuse { api, rec } => ("on a reused buffer", *api, *rec),
            };
            let want = &want[&(api, rec(r))];
            let got = match got {
                Ok(t) => format!("v{t}"),
                Err(p) => format!("p{}", p.0),
            };
            ctx.count("calls compared");
            ctx.saw(&got);
            let name = sut::APIS[api as usize].name;
            ensure!(
                got == *want,
                format!("{name}: result differs"),
                "task {t} call {i}: {name} {how} {}: alone in a process {:?}, here {:?}",
                rec(r),
                cut(want, &got).0,
                cut(want, &got).1
            );
        }
    }
    Ok(())
}

/// The two texts around the place where they begin to differ.
fn cut(a: &str, b: &str) -> (String, String) {
    let same = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    let from = same.saturating_sub(40);
    (
        a.chars().skip(from).take(200).collect(),
        b.chars().skip(from).take(200).collect(),
    )
}

// ---------------------------------------------------------------- C04

/// What any call may use whatever the recording.
const FIXED: f64 = 256.0 * 1024.0;
/// Bytes per byte of the recording.
const PER_BYTE: f64 = 160.0;
const PER_BYTE_JSON: f64 = 2500.0;

fn dense(rng: &mut Rng) -> B {
    let kind = rng.below(9);
    let from = if rng.p(0.3) { rng.below(1 << 24) as u32 } else { 0 };
    let size = match rng.below(6) {
        0 => rng.usize(1_000, 20_000),
        1..=4 => rng.usize(20_000, 300_000),
        _ => rng.usize(300_000, 1_500_000),
    };
    dense_of(rng, kind, from, size)
}

/// Small messages of one kind, numbered.
fn dense_of(rng: &mut Rng, kind: usize, from: u32, size: usize) -> B {
    let mut v = vec![];
    if rng.p(0.8) {
        v.extend_from_slice(b"\0\x06\x40\0\0\0\x09fullserverinfo \"\\maxfps\\77\\*version\\x\\hostname\\h\\map\\dm3\"\n\0");
        v.truncate(6);
        let body: &[u8] = b"\x09fullserverinfo \"\\maxfps\\77\\hostname\\h\\map\\dm3\\mode\\4on4\"\n\0";
        v[2..6].copy_from_slice(&(body.len() as u32).to_le_bytes());
        v.extend_from_slice(body);
        let body: &[u8] = b"\x09cmd spawn 1 0\n\0\x0e\0\0\0\x24\0\0\0\x35\0\0\x25\0\0\0\0\0\x28\0\x01\0\0\0\\name\\a\\team\\b\0";
        v.extend_from_slice(b"\0\x06");
        v.extend_from_slice(&(body.len() as u32).to_le_bytes());
        v.extend_from_slice(body);
    }
    let head = |v: &mut Vec<u8>, n: usize| {
        v.extend_from_slice(b"\x01\x06");
        v.extend_from_slice(&(n as u32).to_le_bytes());
    };
    let mut i = from;
    while v.len() < size {
        i = i.wrapping_add(1);
        match kind {
            0 => {
                // the shortest messages there are
                head(&mut v, 4);
                v.extend_from_slice(&[8, 3, b'a' + (i % 26) as u8, 0]);
            }
            1 => {
                let name = format!("{i:x}");
                let t = format!("{name} died\n");
                head(&mut v, t.len() + 3);
                v.extend_from_slice(&[8, 1]);
                v.extend_from_slice(t.as_bytes());
                v.push(0);
            }
            2 => {
                head(&mut v, 7);
                v.extend_from_slice(&[36, i as u8, (i >> 8) as u8, 0, 53, i as u8, 0]);
            }
            3 => {
                // many sign-on entries
                head(&mut v, 18);
                v.extend_from_slice(&[40, i as u8, 1, 0, 0, 0]);
                v.extend_from_slice(format!("\\name\\{:05x}\0", i & 0xFFFFF).as_bytes());
                let extra = v.len();
                v.truncate(extra);
            }
            4 => {
                let mut t = format!("{i:x}").into_bytes();
                t.extend(flag_words(FlagDeed::Got, i & 1 == 0));
                head(&mut v, t.len() + 3);
                v.extend_from_slice(&[8, 2]);
                v.extend_from_slice(&t);
                v.push(0);
            }
            5 => v.extend_from_slice(&[1, 0]),
            6 => {
                head(&mut v, 5);
                v.extend_from_slice(&[8, 3, b'a' + (i % 26) as u8, b'\n', 0]);
            }
            7 => {
                // team kills nobody is to blame for
                let t = format!("{:x} was jumped by his teammate\n", i & 63);
                head(&mut v, t.len() + 3);
                v.extend_from_slice(&[8, 1]);
                v.extend_from_slice(t.as_bytes());
                v.push(0);
                if i.wrapping_sub(from) > 2_000 {
                    break;
                }
            }
            _ => v.extend_from_slice(&[1, 6, 0, 0, 0, 0]),
        }
    }
    B(v)
}

/// A statistics dump made of the entries that are largest in memory for their text.
fn dense_stats(rng: &mut Rng) -> Recording {
    let n = match rng.below(3) {
        0 => rng.usize(1, 30),
        1 => rng.usize(30, 400),
        _ => rng.usize(400, 4_000),
    };
    let ps: Vec<world::StatsPlayer> = (0..n)
        .map(|i| world::StatsPlayer {
            name: format!("{i}"),
            team: ["a", "b"][i % 2].into(),
            colors: [4, 13],
            frags: i as i32,
            ping: 10,
            login: String::new(),
            bot: false,
        })
        .collect();
    let mut json = world::stats_json(rng, "2024-05-01 12:00:00 +0000", "dm3", "h", 26_000, "4on4", 600, "x", &ps);
    if rng.p(0.3) {
        // the same with nothing in the entries
        let entries = vec!["{}"; n * 20].join(",");
        if let (Some(a), Some(b)) = (json.find("\"players\""), json.rfind(']')) {
            json = format!("{}\"players\": [{entries}{}", &json[..a], &json[b..]);
        }
    }
    let mut v: Vec<Frame> = vec![];
    let parts = world::stats_blocks(rng, &json);
    for (i, p) in parts.into_iter().enumerate() {
        v.push(Frame {
            tag: i as u32,
            ms: 0,
            ty: 3,
            mask: 0,
            parts: vec![p],
            rep: 1,
            signon: false,
        });
    }
    Recording {
        base: Base::Sim { frames: v },
        net: vec![],
        disk: vec![],
    }
}

pub fn gen_c04(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    let bytes = |b: B| Recording {
        base: Base::Bytes { bytes: b },
        net: vec![],
        disk: vec![],
    };
    if rng.p(0.015) {
        // a long-running reader: one recording after the other, and it must not grow
        let mut plan = Plan::default();
        if rng.p(0.4) {
            // ever new names
            plan.note = "fresh".into();
            let mut p = small(rng);
            p.mark = true;
            p.stats = *rng.pick(&[0.0, 1.0]);
            p.clients = (4, 12);
            p.events = (0, 40);
            p.bulk = 0.0;
            return (vec![sim(generate(rng, &p))], plan);
        }
        if rng.p(0.5) {
            plan.note = "kept".into();
            let size = rng.usize(15_000, 40_000);
            let kind = *rng.pick(&[1usize, 1, 3, 4, 0, 2, 9]);
            let recs = (0..16)
                .map(|i| {
                    if kind == 9 {
                        let mut p = swarm_profile(rng);
                        p.events = (50, 150);
                        return sim(generate(rng, &p));
                    }
                    bytes(dense_of(rng, kind, i << 18, size))
                })
                .collect();
            return (recs, plan);
        }
        plan.note = format!("again {}", rng.pick(sut::APIS).name);
        let recs = (0..rng.usize(1, 3))
            .map(|_| {
                let mut p = small(rng);
                p.events = (0, 8);
                let mut r = sim(generate(rng, &p));
                if rng.p(0.3) {
                    disk_faults(rng, &mut r, 1);
                }
                r
            })
            .collect();
        return (recs, plan);
    }
    let rec = match rng.below(20) {
        0..=8 => {
            let p = small(rng);
            let mut r = sim(generate(rng, &p));
            let d = deliver(&r);
            let with: Vec<u32> = d
                .frames
                .iter()
                .filter(|f| f.header_len() >= 6)
                .map(|f| f.tag)
                .collect();
            for _ in 0..rng.usize(1, 4) {
                if with.is_empty() {
                    break;
                }
                let value = forged_length(rng, d.clean.len());
                r.disk.push(DiskFault::Length {
                    tag: *rng.pick(&with),
                    value,
                });
            }
            // also the lengths inside the messages
            if rng.p(0.5) {
                let hidden: Vec<u32> = d
                    .frames
                    .iter()
                    .filter(|f| {
                        f.parts
                            .iter()
                            .any(|p| matches!(p, Part::Stats { .. } | Part::Hidden { .. }))
                    })
                    .map(|f| f.tag)
                    .collect();
                if !hidden.is_empty() {
                    let value = forged_length(rng, d.clean.len());
                    r.disk.push(DiskFault::Over {
                        at: Pos {
                            tag: *rng.pick(&hidden),
                            off: 10,
                        },
                        bytes: B(value.to_le_bytes().to_vec()),
                    });
                }
            }
            if rng.p(0.3) {
                disk_faults(rng, &mut r, 1);
            }
            r
        }
        9..=11 => bytes(soup(rng)),
        12..=15 => {
            let mut r = bytes(dense(rng));
            if rng.p(0.2) {
                disk_faults(rng, &mut r, 1);
            }
            r
        }
        16 | 17 => dense_stats(rng),
        18 => corpus(rng, 400_000).unwrap_or_else(|| bytes(dense(rng))),
        _ => {
            let mut p = swarm_profile(rng);
            p.events = (50, 400);
            sim(generate(rng, &p))
        }
    };
    (vec![rec], Plan::default())
}

/// What may stay behind when calls have returned, whatever has been read.
const KEPT: i64 = 64 * 1024;

fn eval_kept(s: &Scenario, ctx: &mut Ctx) -> Res {
    let all: Vec<Vec<u8>> = s.recs.iter().map(|r| ctx.deliver(r).bytes).collect();
    let longest = all.iter().map(|d| d.len()).max().unwrap_or(0) as i64;
    ctx.nontrivial = true;
    let (apis, rounds): (Vec<&sut::Api>, usize) = match s.plan.note.strip_prefix("again ") {
        Some(name) => (sut::APIS.iter().filter(|a| a.name == name).collect(), 4_000),
        None if s.plan.note == "fresh" => (sut::APIS.iter().collect(), 2_000),
        None => (sut::APIS.iter().collect(), all.len()),
    };
    let mark = world::MARK.as_bytes();
    let marks: Vec<usize> = match s.plan.note == "fresh" {
        true => all[0].windows(mark.len()).enumerate().filter(|(_, w)| *w == mark).map(|(i, _)| i).collect(),
        false => vec![],
    };
    let mut all = all;
    for a in apis {
        seams::set_progress(a.name);
        let mut now = 0i64;
        let mut first = None;
        for i in 0..rounds {
            let at = i % all.len();
            for m in &marks {
                all[at][*m..*m + mark.len()].copy_from_slice(format!("{i:04}").as_bytes());
            }
            now += (a.kept)(&all[at]);
            ctx.steps += 1;
            if i + 1 >= rounds / 2 && first.is_none() {
                first = Some(now);
            }
        }
        ctx.add("calls", rounds as u64);
        ctx.saw((a.name, now));
        let grown = now - first.unwrap_or(0);
        ctx.max("bytes still held after a series of calls", now as f64);
        ctx.shape(a.name, now.max(0) as u64);
        let bound = KEPT + 2 * longest;
        ensure!(
            grown <= bound,
            format!("{}: memory is kept", a.name),
            "{} calls on recordings of up to {longest} bytes left {grown} bytes behind; allowed are {bound}",
            rounds - rounds / 2
        );
    }
    Ok(())
}

pub fn eval_c04(s: &Scenario, ctx: &mut Ctx) -> Res {
    if !s.plan.note.is_empty() {
        return eval_kept(s, ctx);
    }
    let d = ctx.deliver(&s.recs[0]);
    let len = d.bytes.len() as f64;
    let forged = d.fired.contains_key("disk.torn_length")
        || d.fired.contains_key("disk.overwrite")
        || matches!(s.recs[0].base, Base::Bytes { .. });
    ctx.nontrivial = forged || len > 65_536.0;
    for a in sut::APIS {
        seams::set_progress(a.name);
        let (r, usage) = (a.call)(&d.bytes);
        ctx.add("calls", 1);
        ctx.saw((a.name, usage.peak, r.is_ok()));
        ctx.steps += usage.steps;
        let per_byte = if a.json { PER_BYTE_JSON } else { PER_BYTE };
        let peak = usage.peak as f64;
        if len < 4096.0 {
            ctx.max("peak bytes for recordings below 4 KiB", peak);
        } else {
            ctx.max(
                if a.json {
                    "peak bytes per byte, statistics readers"
                } else {
                    "peak bytes per byte, other functions"
                },
                peak / len,
            );
            if std::env::var_os("DST_MEM").is_some() && peak / len > 12.0 {
                eprintln!("{} {} {} {}", a.name, peak, len, peak / len);
            }
        }
        ctx.shape(a.name, usage.peak as u64);
        let bound = FIXED + per_byte * len;
        ensure!(
            peak <= bound,
            format!("{}: memory", a.name),
            "{} held {peak} bytes at once for a recording of {len} bytes; allowed are {bound}",
            a.name
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

/// How many times larger the second reading is.
const GROWTH: usize = 6;
/// What proportional may mean at most for steps that are counted exactly.
const SLACK: f64 = 1.7;
const STEPS_FIXED: f64 = 60_000.0;
const BYTES_MOVED_IN_A_STEP: u64 = 16;

/// `size` bytes of one thing over and over, numbered.
fn series(kind: usize, with_signon: bool, from: u32, size: usize) -> B {
    let mut v = vec![];
    let frame = |v: &mut Vec<u8>, body: &[u8]| {
        v.extend_from_slice(b"\x01\x06");
        v.extend_from_slice(&(body.len() as u32).to_le_bytes());
        v.extend_from_slice(body);
    };
    if with_signon {
        frame(&mut v, b"\x09fullserverinfo \"\\maxfps\\77\\hostname\\h\\map\\dm3\\mode\\4on4\"\n\0");
        let mut body = b"\x09cmd spawn 1 0\n\0".to_vec();
        for slot in 0..6u8 {
            body.extend_from_slice(&[40, slot, 1, 0, 0, 0]);
            body.extend_from_slice(format!("\\name\\p{slot}\\team\\{}\0", ["a", "b"][slot as usize % 2]).as_bytes());
        }
        body.resize(body.len() + 700, 0x30);
        frame(&mut v, &body);
        frame(&mut v, &[36, 0, 20, 0, 53, 0, 0]);
    }
    // one frame, or one message, that is made of all of it
    let one = |v: &mut Vec<u8>, item: &dyn Fn(u32) -> Vec<u8>| {
        let mut body = vec![];
        let mut i = from;
        while body.len() < size {
            i = i.wrapping_add(1);
            body.extend(item(i));
        }
        v.extend_from_slice(b"\x01\x06");
        v.extend_from_slice(&(body.len() as u32).to_le_bytes());
        v.extend_from_slice(&body);
    };
    let print = |id: u8, text: &[u8]| [&[8, id], text, &[0]].concat();
    match kind {
        0 => one(&mut v, &|i| print(2, format!("{i:x} says\n").as_bytes())),
        1 => one(&mut v, &|i| {
            let mut t = format!("{i:x}").into_bytes();
            t.extend(flag_words(FlagDeed::Got, i & 1 == 0));
            print(2, &t)
        }),
        2 => one(&mut v, &|i| vec![36, i as u8, (i >> 3) as u8, 0, 53, i as u8, 0]),
        3 => one(&mut v, &|_| b"words ".to_vec()),
        4 => {
            // a message that never ends
            let mut b = vec![8, 2];
            b.resize(size, b'f');
            frame(&mut v, &b);
        }
        5 => one(&mut v, &|i| {
            [&[40, i as u8, 1, 0, 0, 0][..], format!("\\name\\{:05x}\0", i & 0xFFFFF).as_bytes()].concat()
        }),
        6 => v.resize(v.len() + size, 0),
        7 => v.resize(v.len() + size, 7),
        8 => {
            // marks, as often as there is room for them
            let marks: [&[u8]; 9] = [
                b"\x08\x02matchdate: 2024-05-01 12:00:00 CEST\n\0",
                b"\x08\x02The match is over\n\0",
                b"\x34status\0Standby\0",
                b"\x08\x02bob paused the game\n\0",
                b"{\"version\": ",
                b"\x02EndOfDemo\0",
                b"fullserverinfo \"",
                b"\x09cmd spawn",
                b"\\name\\ab\0",
            ];
            let mut i = from as usize;
            while v.len() < size {
                i += 1;
                frame(&mut v, marks[i % marks.len()]);
            }
        }
        9 => {
            // blocks of a dump that have no end
            let mut i = 0u16;
            while v.len() < size {
                i = i.wrapping_add(1);
                let content: &[u8] = if i == 1 { b"{\"version\": 3, \"x\": [" } else { b"1, " };
                v.extend_from_slice(&[0, 3, 0, 0, 0, 0]);
                v.extend_from_slice(&(content.len() as u32 + 8).to_le_bytes());
                v.extend_from_slice(&(content.len() as u32 + 2).to_le_bytes());
                v.extend_from_slice(&[3, 0]);
                v.extend_from_slice(&i.to_le_bytes());
                v.extend_from_slice(content);
            }
        }
        10 => one(&mut v, &|_| vec![8]),
        11 => one(&mut v, &|i| print(2, &colored(&format!("f{i}flag")))),
        _ => {
            // team kills, updates and stretches of empty frames
            let mut i = from;
            while v.len() < size {
                i = i.wrapping_add(1);
                match i % 7 {
                    0 => frame(&mut v, &print(1, b"p1 was jumped by his teammate\n")),
                    1 => frame(&mut v, &[14, (i % 6) as u8, 0, 0]),
                    _ => frame(&mut v, b""),
                }
            }
        }
    }
    B(v)
}

fn stats_of(rng: &mut Rng, players: usize, block: usize) -> Recording {
    let teams = *rng.pick(&[4usize, 4, 1, usize::MAX]);
    let names = *rng.pick(&[usize::MAX, usize::MAX, 1, 20]);
    let ps: Vec<world::StatsPlayer> = (0..players)
        .map(|i| world::StatsPlayer {
            name: format!("player {}", i % names),
            team: match teams {
                usize::MAX => format!("team {i}"),
                _ => ["red", "blue", "x", "y"][i % teams].into(),
            },
            colors: [4, 13],
            frags: (i % 50) as i32,
            ping: 10 + (i % 90) as i32,
            login: String::new(),
            bot: i % 3 == 0,
        })
        .collect();
    let json = world::stats_json(rng, "2024-05-01 12:00:00 +0000", "dm3", "h", 26_000, "4on4", 600, "x", &ps);
    let chunks: Vec<&[u8]> = json.as_bytes().chunks(block).collect();
    let frames = chunks
        .iter()
        .enumerate()
        .map(|(i, c)| Frame {
            tag: i as u32,
            ms: 0,
            ty: 3,
            mask: 0,
            parts: vec![Part::Stats {
                number: if i + 1 == chunks.len() { 0 } else { (i + 1) as u16 },
                content: B(c.to_vec()),
            }],
            rep: 1,
            signon: false,
        })
        .collect();
    Recording {
        base: Base::Sim { frames },
        net: vec![],
        disk: vec![],
    }
}

pub fn gen_c16(rng: &mut Rng, i: u64) -> (Vec<Recording>, Plan) {
    let bytes = |b: B| Recording {
        base: Base::Bytes { bytes: b },
        net: vec![],
        disk: vec![],
    };
    let plan = Plan {
        note: "grow".into(),
        ..Default::default()
    };
    let size = if rng.p(0.1) { rng.usize(80_000, 200_000) } else { rng.usize(4_000, 24_000) };
    let from = if rng.p(0.5) { 0 } else { rng.below(1 << 24) as u32 };
    match i % 8 {
        0..=2 => {
            let kind = rng.below(15) as usize; // the last ones are the last one again
            let signon = rng.p(0.6);
            let a = bytes(series(kind, signon, from, size));
            let b = bytes(series(kind, signon, from, size * GROWTH));
            (vec![a, b], plan)
        }
        3 => {
            let kind = *rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 8]);
            let mut twin = rng.clone();
            let a = bytes(dense_of(rng, kind, from, size));
            let b = bytes(dense_of(&mut twin, kind, from, size * GROWTH));
            (vec![a, b], plan)
        }
        4 => {
            let n = if rng.p(0.3) { rng.usize(200, 500) } else { rng.usize(10, 60) };
            let block = *rng.pick(&[8086usize, 1000, 100, 40]);
            let mut twin = rng.clone();
            let a = stats_of(rng, n, block);
            let b = stats_of(&mut twin, n * GROWTH, block);
            (vec![a, b], plan)
        }
        5 => (
            vec![corpus(rng, 30_000).unwrap_or_else(|| bytes(soup(rng)))],
            plan,
        ),
        _ => {
            let mut p = swarm_profile(rng);
            p.events = (20, 120);
            let mut r = sim(generate(rng, &p));
            net_faults(rng, &mut r, 4);
            (vec![r], plan)
        }
    }
}

pub fn eval_c16(s: &Scenario, ctx: &mut Ctx) -> Res {
    let d = ctx.deliver(&s.recs[0]);
    let mut small = d.bytes.clone();
    if s.recs.len() == 1 {
        // a frame cut short would swallow what is written after it
        small.truncate(whole_frames(&small).last().map_or(0, |f| f.1));
    }
    let large = match s.recs.get(1) {
        Some(r) => ctx.deliver(r).bytes,
        None => {
            // the same match over and over, after one sign-on
            let first = d
                .frames
                .iter()
                .position(|f| !f.signon)
                .map_or(0, |i| d.starts[i])
                .min(small.len());
            let mut v = small.clone();
            for _ in 1..GROWTH {
                v.extend_from_slice(&small[first..]);
            }
            v
        }
    };
    if small.len() < 200 || large.len() <= small.len() {
        return Ok(());
    }
    // the sign-on is there once, so most of the steps may be in what is there more often
    let times = (large.len() as f64 / small.len() as f64).max(GROWTH as f64);
    ctx.nontrivial = true;
    for a in sut::APIS {
        seams::set_progress(a.name);
        let (_, little) = (a.call)(&small);
        let (_, much) = (a.call)(&large);
        ctx.add("calls", 2);
        ctx.steps += little.steps + much.steps;
        ctx.saw((a.name, little.steps, much.steps));
        ctx.shape(a.name, much.steps);
        let work = |u: &seams::Usage| u.steps + u.moved / BYTES_MOVED_IN_A_STEP;
        let (little, much) = (work(&little), work(&much));
        // one step for every byte is no sign of anything: some only look at recordings that are
        // long enough
        let bound = STEPS_FIXED + SLACK * times * (little.max(small.len() as u64)) as f64;
        ctx.max("largest share of the allowed growth used", much as f64 / bound);
        ctx.max("steps per byte", much as f64 / large.len().max(4096) as f64);
        if std::env::var_os("DST_GROW").is_some() && much as f64 > 0.6 * bound {
            eprintln!("{} {} {}: {} {little} {much}", s.index, small.len(), large.len(), a.name);
        }
        ensure!(
            much as f64 <= bound,
            format!("{}: time", a.name),
            "{} took {little} steps for {} bytes and {much} for {}: more than {SLACK} times in proportion",
            a.name,
            small.len(),
            large.len()
        );
    }
    Ok(())
}
