//! Damage: whatever happens to a recording, nothing breaks (C01), a cut costs only what was cut
//! (C02), and damage stays where it is (C15).

use super::*;
use crate::ensure;
use crate::seams;

// ---------------------------------------------------------------- C01

pub fn small(rng: &mut Rng) -> Profile {
    let mut p = swarm_profile(rng);
    p.events = (0, 60);
    p.clients = (0, 8);
    p.stats = 0.6;
    p.odd_clock = 0.4;
    p
}

pub fn soup(rng: &mut Rng) -> B {
    let n = match rng.below(4) {
        0 => rng.below(40),
        1 => rng.below(300),
        _ => rng.below(3000),
    };
    let mut v = vec![];
    if rng.p(0.3) {
        v.extend_from_slice(b"\0\x06\0\0\0\0");
    }
    while v.len() < n {
        match rng.below(12) {
            0 => {
                // a frame around something
                let k = rng.below(60);
                let b = junk(rng, k);
                v.push(rng.byte());
                v.push(*rng.pick(&[6u8, 6, 3, 4, 5, 1, 0, 2, 7]));
                if v.last() == Some(&3) {
                    v.extend_from_slice(&[0; 4]);
                }
                let claimed = if rng.p(0.7) { b.0.len() as u32 } else { forged_length(rng, n) };
                v.extend_from_slice(&claimed.to_le_bytes());
                v.extend_from_slice(&b.0);
            }
            1 => {
                v.extend_from_slice(b"fullserverinfo \"\\mode\\hoonymode\\epoch\\");
                v.extend(rng.range(-3_000_000_000, 3_000_000_000).to_string().bytes());
                if rng.p(0.8) {
                    v.push(b'"');
                }
            }
            2 => {
                v.extend_from_slice(b"\x08\x02matchdate: ");
                let k = rng.usize(19, 26);
                match rng.below(6) {
                    0 => v.extend_from_slice(b"2024-05-01 12:00:00 CEST"),
                    4 | 5 => {
                        // time zones that are none
                        let mut t = b"2024-05-01 12:00:00 ".to_vec();
                        let k = t.len() + rng.usize(2, 6);
                        t.push(*rng.pick(b"+--++-A "));
                        while t.len() < k {
                            t.extend(
                                rng.pick(&["0", "1", "2", "5", "9", ":", "+", "-", " ", "é", "€", "Z"]).bytes(),
                            );
                        }
                        v.extend(t);
                    }
                    1 => v.extend(junk(rng, k).0),
                    2 => {
                        let mut t = b"2024-05-01 12:00:00 +0100".to_vec();
                        let at = rng.below(t.len());
                        let with = *rng.pick(&["é", "€", "x", "9", " ", "-", "𐍈"]);
                        t.splice(at..at + 1, with.bytes());
                        v.extend(t);
                    }
                    _ => {
                        for _ in 0..8 {
                            v.extend("é".bytes());
                        }
                        v.extend(b"1234567");
                    }
                }
                v.push(b'\n');
            }
            3 => {
                v.extend_from_slice(b"\x09cmd spawn 1 0\n\0");
                for _ in 0..rng.below(5) {
                    let k = rng.below(300);
                    v.push(40);
                    v.push(rng.byte());
                    v.extend_from_slice(&[1, 0, 0, 0]);
                    v.extend_from_slice(b"\\name\\");
                    v.extend(junk(rng, k).0);
                    v.extend_from_slice(b"\\topcolor\\");
                    v.extend(rng.range(-3_000_000_000, 3_000_000_000).to_string().bytes());
                    v.push(0);
                }
            }
            4 | 5 => {
                // statistics blocks
                let count = rng.usize(1, 4);
                for i in 0..count {
                    let mut text: Vec<u8> = if i == 0 { b"{\"version\": 3,".to_vec() } else { vec![] };
                    match rng.below(4) {
                        0 => text.extend_from_slice(b"\"duration\": "),
                        1 => {
                            text.extend_from_slice(b"\"duration\": ");
                            text.extend_from_slice(
                                *rng.pick(&[
                                    &b"-1,"[..],
                                    b"1e400,",
                                    b"NaN,",
                                    b"inf,",
                                    b"99999999999999999999999,",
                                    b"1e19,",
                                    b",",
                                    b"600,",
                                ]),
                            );
                        }
                        2 => text.extend_from_slice(b"\"players\": []}"),
                        _ => {
                            let k = rng.below(100);
                            text.extend(junk(rng, k).0)
                        }
                    }
                    let claimed = if rng.p(0.7) {
                        text.len() as u32 + 2
                    } else {
                        forged_length(rng, n)
                    };
                    v.extend_from_slice(&[0, 3, 0, 0, 0, 0]);
                    v.extend_from_slice(&(text.len() as u32 + 8).to_le_bytes());
                    v.extend_from_slice(&claimed.to_le_bytes());
                    v.extend_from_slice(&[*rng.pick(&[3u8, 3, 3, 7]), 0]);
                    let num = if i + 1 == count { 0 } else { i + 1 };
                    v.extend_from_slice(&[num as u8, 0]);
                    v.extend(text);
                }
            }
            _ => {
                let k = rng.below(80);
                v.extend(junk(rng, k).0)
            }
        }
    }
    if rng.p(0.3) {
        v.extend_from_slice(b"\0\x02EndOfDemo\0");
    }
    if rng.p(0.3) {
        let k = rng.below(v.len() + 1);
        v.truncate(k);
    }
    B(v)
}

pub fn extreme_players(rng: &mut Rng, extreme: bool) -> Vec<PlayerIn> {
    let n = if extreme { rng.usize(0, 6) } else { rng.usize(0, 20) };
    let teams: Vec<B> = (0..rng.usize(1, 4))
        .map(|_| match rng.below(4) {
            0 => B::default(),
            1 => B::s(*rng.pick(&["red", "Red", "RED", "blue", "Blue"])),
            _ => world::name(rng, 0.7, 6),
        })
        .collect();
    (0..n)
        .map(|i| PlayerIn {
            name: if rng.p(0.9) {
                world::name(rng, 0.5, 10)
            } else {
                B::s(format!("p{}", i % 3))
            },
            team: rng.pick(&teams).clone(),
            color: [rng.below(3) as u8, rng.below(2) as u8],
            frags: if extreme && rng.p(0.6) {
                *rng.pick(&[i32::MAX, i32::MIN, i32::MAX - 1, -1, 2_000_000_000, -2_000_000_000])
            } else {
                rng.range(-10, 40) as i32
            },
            ping: if extreme && rng.p(0.6) {
                *rng.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 24, (1 << 24) + 1])
            } else {
                rng.below(400) as u32
            },
            is_bot: rng.p(0.2),
        })
        .collect()
}

/// One frame of the recording, or something next to it, over and over again: a server that was
/// forgotten, a relay that repeats itself, a disk that wrote the same sector everywhere.
fn endless(rng: &mut Rng, rec: &mut Recording) {
    let Base::Sim { frames } = &mut rec.base else { return };
    let mut tag = frames.iter().map(|f| f.tag).max().unwrap_or(0);
    let body = frames.iter().position(|f| !f.signon).unwrap_or(frames.len());
    for _ in 0..rng.usize(1, 2) {
        if frames.is_empty() {
            return;
        }
        // right behind something that is looked at together with what follows
        let obits: Vec<usize> = (body..frames.len())
            .filter(|i| {
                frames[*i]
                    .parts
                    .iter()
                    .any(|p| matches!(p, Part::Obit { kill: Kill::TeamkilledBy, .. }))
            })
            .collect();
        let at = match obits.is_empty() || rng.p(0.4) {
            true => rng.usize(body.min(frames.len()), frames.len()),
            false => *rng.pick(&obits) + 1,
        };
        let mut f = if rng.p(0.6) || at == 0 {
            Frame {
                tag: 0,
                ms: rng.byte(),
                ty: *rng.pick(&[6u8, 6, 1, 4, 7, 0, 3]),
                mask: rng.below(4) as u32,
                parts: vec![],
                rep: 1,
                signon: false,
            }
        } else {
            frames[at - 1].clone()
        };
        tag += 1;
        f.tag = tag;
        let mut one = vec![];
        f.rep = 1;
        f.encode(&mut one);
        f.rep = (rng.usize(50_000, 2_500_000) / one.len().max(1)) as u32;
        frames.insert(at, f);
    }
}

pub fn gen_c01(rng: &mut Rng, i: u64) -> (Vec<Recording>, Plan) {
    let mut plan = Plan::default();
    if i % 500 == 250 {
        let mut p = small(rng).weight(Ev::TeamkilledBy, 20.0);
        p.clients = (2, 8);
        let mut r = sim(generate(rng, &p));
        endless(rng, &mut r);
        plan.note = "endless".into();
        return (vec![r], plan);
    }
    let bytes = |b: B| Recording {
        base: Base::Bytes { bytes: b },
        net: vec![],
        disk: vec![],
    };
    match rng.below(20) {
        0..=9 => {
            let p = small(rng);
            let mut r = sim(generate(rng, &p));
            if rng.p(0.5) {
                net_faults(rng, &mut r, 4);
            }
            let n = rng.usize(1, 6);
            disk_faults(rng, &mut r, n);
            (vec![r], plan)
        }
        10 => {
            let mut r = corpus(rng, 120_000).unwrap_or_else(|| bytes(soup(rng)));
            let n = rng.usize(1, 6);
            disk_faults(rng, &mut r, n);
            (vec![r], plan)
        }
        11..=17 => {
            let mut r = bytes(soup(rng));
            if rng.p(0.4) {
                let n = rng.usize(1, 3);
                disk_faults(rng, &mut r, n);
            }
            (vec![r], plan)
        }
        _ => {
            plan.note = "values".into();
            plan.players = extreme_players(rng, true);
            let ps: Vec<world::StatsPlayer> = plan
                .players
                .iter()
                .map(|p| world::StatsPlayer {
                    name: p.name.text(),
                    team: p.team.text(),
                    colors: [
                        *rng.pick(&[0, 4, 13, -1, 255, 256, i32::MAX, i32::MIN]),
                        *rng.pick(&[0, 4, 13, -1, 255, 256, i32::MAX, i32::MIN]),
                    ],
                    frags: p.frags,
                    ping: *rng.pick(&[0, 10, 25, -1, i32::MIN, i32::MAX]),
                    login: if rng.p(0.5) { String::new() } else { "x".into() },
                    bot: p.is_bot,
                })
                .collect();
            let json = world::stats_json(
                rng,
                "2024-05-01 12:00:00 +0000",
                "dm3",
                "host",
                u32::MAX,
                "ffa",
                u32::MAX,
                "x.mvd",
                &ps,
            );
            plan.stats.push(B::s(json.as_bytes()));
            (vec![bytes(B::default())], plan)
        }
    }
}

pub fn eval_c01(s: &Scenario, ctx: &mut Ctx) -> Res {
    let d = ctx.deliver(&s.recs[0]);
    ctx.nontrivial = !d.fired.is_empty()
        || matches!(s.recs[0].base, Base::Bytes { .. })
        || s.plan.note == "values"
        || s.plan.note == "endless";
    if s.plan.note == "endless" {
        ctx.count("recordings with something repeated up to a million times");
    }
    for a in sut::APIS {
        seams::set_progress(a.name);
        let (r, _) = (a.call)(&d.bytes);
        ctx.add("calls", 1);
        match r {
            Ok(text) => {
                ctx.count(match () {
                    _ if text.starts_with("Err(") => "calls that returned an error",
                    _ => "calls that returned a value",
                });
                ctx.shape(a.name, text.len() as u64 / 16);
                ctx.saw(text);
            }
            Err(p) => return Err(panicked(a.name, p)),
        }
    }
    seams::set_progress("value-level calls");
    for (name, r) in sut::value_calls(&s.plan) {
        ctx.add("calls on values", 1);
        match r {
            Ok(text) => ctx.saw(text),
            Err(p) => return Err(panicked(name, p)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

pub fn gen_c02(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    let mut plan = Plan::default();
    let r = if rng.p(0.03) {
        corpus(rng, 150_000)
    } else {
        None
    };
    let r = r.unwrap_or_else(|| {
        let mut p = swarm_profile(rng);
        p.events = (0, 120);
        p = p.weight(Ev::Kill, 12.0).weight(Ev::Ping, 4.0);
        let mut r = sim(generate(rng, &p));
        // the end marker is written once
        if rng.p(0.4) {
            net_faults(rng, &mut r, 4);
            let last = frames_of(&r)
                .iter()
                .filter(|f| f.parts.contains(&Part::EndOfDemo))
                .map(|f| f.tag)
                .collect::<Vec<_>>();
            r.net
                .retain(|f| !matches!(f, NetFault::Dup { tag, .. } if last.contains(tag)));
        }
        r
    });
    let d = deliver(&r);
    let places = spots(&d);
    for _ in 0..rng.usize(3, 7) {
        let o = spot(rng, &d, &places);
        plan.cuts.push(pos_at(&d, o));
    }
    if rng.p(0.15) && d.clean.len() > 40 {
        plan.cuts.push(pos_at(&d, d.clean.len() - 1 - rng.below(16)));
    }
    if rng.p(0.1) {
        let o = rng.below(48).min(d.clean.len().saturating_sub(1));
        plan.cuts.push(pos_at(&d, o));
    }
    (vec![r], plan)
}

struct Read {
    prints: Vec<(u16, Vec<u8>)>,
    frags: BTreeMap<String, i64>,
    pings: Option<BTreeMap<u8, u32>>,
    flags: BTreeMap<String, model::FlagCounts>,
    demo: Option<std::time::Duration>,
}

fn read(d: &[u8]) -> Result<Read, Violation> {
    Ok(Read {
        prints: sut_prints(d)?,
        frags: sut_frags(d)?,
        pings: sut_pings(d)?,
        flags: sut_flags(d)?,
        demo: sut_demo_ms(d)?,
    })
}

pub fn eval_c02(s: &Scenario, ctx: &mut Ctx) -> Res {
    let d = ctx.deliver(&s.recs[0]);
    count_events(ctx, &d.frames);
    let whole = whole_frames(&d.clean);
    let mut cuts: Vec<usize> = s
        .plan
        .cuts
        .iter()
        .filter_map(|p| offset_of(&d, p))
        .filter(|o| *o < d.clean.len())
        .collect();
    cuts.sort_unstable();
    cuts.dedup();
    let marks = |x: &[u8]| {
        model::find(x, model::MATCH_OVER).is_some() || model::find(x, model::STANDBY).is_some()
    };
    let finished = marks(&d.clean);
    let mut before: Option<(Vec<(u16, Vec<u8>)>, Vec<mvdparser::Client>, Option<std::time::Duration>)> = None;
    let mut header: [Option<String>; 4] = Default::default();
    for cut in cuts.iter().copied().chain([d.clean.len()]) {
        let torn = &d.clean[..cut];
        let frames = whole.iter().take_while(|f| f.1 <= cut).count();
        let end = frames.checked_sub(1).map_or(0, |i| whole[i].1);
        let kept = &d.clean[..end];
        let inside = end != cut;
        if cut < d.clean.len() {
            ctx.fired
                .entry("disk.crash_truncate".into())
                .and_modify(|n| *n += 1)
                .or_insert(1);
            if inside {
                ctx.nontrivial = true;
                ctx.count("crashes inside a frame");
            } else {
                ctx.count("crashes between frames");
            }
            ctx.key = crate::rng::mix(ctx.key, cut as u64);
        }
        let a = read(torn)?;
        if inside {
            let b = read(kept)?;
            ensure!(
                a.prints == b.prints,
                "torn frame changes prints",
                "cut at {cut} (last whole frame ends at {end}): {}",
                list_diff(&a.prints, &b.prints)
            );
            ensure!(
                nonzero(&a.frags) == nonzero(&b.frags),
                "torn frame changes frags",
                "cut at {cut} (last whole frame ends at {end}): {}",
                map_diff(&a.frags, &b.frags)
            );
            ensure!(
                a.pings == b.pings,
                "torn frame changes pings",
                "cut at {cut} (last whole frame ends at {end}): {:?} instead of {:?}",
                a.pings,
                b.pings
            );
            ensure!(
                a.flags == b.flags,
                "torn frame changes flags",
                "cut at {cut} (last whole frame ends at {end}): {}",
                map_diff(&a.flags, &b.flags)
            );
            ensure!(
                a.demo == b.demo,
                "torn frame changes elapsed time",
                "cut at {cut} (last whole frame ends at {end}): {:?} instead of {:?}",
                a.demo,
                b.demo
            );
        }
        // and what is left is what the whole frames say
        let want = model::bytes::prints(kept);
        ensure!(
            a.prints == want,
            "prints of a cut recording",
            "cut at {cut} (last whole frame ends at {end}): {}",
            list_diff(&a.prints, &want)
        );
        check_pings(&a.pings, &model::bytes::pings(kept), "pings of a cut recording")?;
        let want = std::time::Duration::from_millis(model::bytes::demo_ms(kept));
        ensure!(
            a.demo == Some(want),
            "elapsed time of a cut recording",
            "cut at {cut} (last whole frame ends at {end}): {:?} instead of {want:?}",
            a.demo
        );
        let clients = sut_clients(torn)?.unwrap_or_default();
        ctx.saw((&a.prints, &a.frags, &a.pings, &a.flags, &a.demo, &clients));
        if !d.frames.is_empty() {
            let n = d
                .starts
                .iter()
                .zip(whole.iter())
                .take_while(|(_, w)| w.1 <= cut)
                .count();
            // repeated frames encode to several, so only look at undisturbed recordings
            if d.frames.iter().all(|f| f.rep == 1) {
                let left = &d.frames[..n];
                let want = model::flags(left);
                ensure!(
                    a.flags == want,
                    "flags of a cut recording",
                    "cut at {cut}: {}",
                    map_diff(&a.flags, &want)
                );
                // with the sign-on complete, blame can be worked out
                if clients.len() == model::roster(&d.frames).len() {
                    let want = model::scores(left, &model::roster(&d.frames));
                    ensure!(
                        nonzero(&a.frags) == nonzero(&want),
                        "frags of a cut recording",
                        "cut at {cut}: {}",
                        map_diff(&nonzero(&a.frags), &nonzero(&want))
                    );
                }
            }
        }
        if let Some((p, c, t)) = &before {
            ensure!(
                a.prints.starts_with(p),
                "prints shrink",
                "at {cut}: {}",
                list_diff(&a.prints, p)
            );
            ensure!(
                clients.starts_with(c),
                "clients change as the recording grows",
                "at {cut}: {}",
                list_diff(&clients, c)
            );
            if !finished {
                ensure!(
                    a.demo >= *t,
                    "elapsed time shrinks",
                    "at {cut}: {:?} after {t:?}",
                    a.demo
                );
            }
        }
        before = Some((a.prints, clients, a.demo));
        for (i, name) in ["serverinfo", "serverinfo_string", "filename", "timestamp"]
            .iter()
            .enumerate()
        {
            let api = &sut::APIS[sut::api(name) as usize];
            let text = (api.call)(torn).0.map_err(|p| panicked(name, p))?;
            if let Some(old) = &header[i] {
                ensure!(
                    *old == text,
                    "header changes",
                    "{name} at {cut}: {text} after {old}"
                );
            }
            if text.starts_with("Ok(") {
                header[i] = Some(text);
            }
        }
        if cut < d.clean.len() {
            let valid = sut::run(|| mvdparser::is_valid(torn)).map_err(|p| panicked("is_valid", p))?;
            let marked = torn.ends_with(b"\0\x02EndOfDemo\0");
            ensure!(
                !valid || marked,
                "cut recording is valid",
                "cut at {cut} of {} is reported as valid",
                d.clean.len()
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

pub fn gen_c15(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    let mut plan = Plan::default();
    let r = if rng.p(0.05) { corpus(rng, 250_000) } else { None };
    let mut r = r.unwrap_or_else(|| {
        let mut p = swarm_profile(rng);
        p.events = (5, 150);
        p = p
            .weight(Ev::Kill, 12.0)
            .weight(Ev::Ping, 4.0)
            .weight(Ev::Flag, 6.0)
            .weight(Ev::TeamkilledBy, 1.0);
        let mut r = sim(generate(rng, &p));
        net_faults(rng, &mut r, 3);
        r
    });
    let d = deliver(&r);
    let frames = whole_frames(&d.clean);
    let first = d
        .frames
        .iter()
        .take_while(|f| f.signon)
        .count()
        .max(if d.frames.is_empty() { frames.len() / 2 } else { 0 });
    let header = |a: usize| match d.clean[a + 1] & 7 {
        3 => 10,
        1 | 4 | 5 | 6 => 6,
        _ => 2,
    };
    let candidates: Vec<usize> = (first..frames.len())
        .filter(|i| frames[*i].1 > frames[*i].0 + header(frames[*i].0))
        .collect();
    if rng.p(0.25) && frames.len() > first + 1 {
        plan.note = "range".into();
        let a = rng.usize(first, frames.len() - 1);
        let b = (a + rng.skewed(20)).min(frames.len() - 1);
        r.disk.push(DiskFault::Lost {
            at: pos_at(&d, frames[a].0),
            len: (frames[b].1 - frames[a].0) as u32,
        });
    } else if !candidates.is_empty() {
        plan.note = "body".into();
        // prefer frames that open with something of interest
        let hot: Vec<usize> = candidates
            .iter()
            .copied()
            .filter(|i| matches!(d.clean[frames[*i].0 + header(frames[*i].0)], 8 | 14 | 36))
            .collect();
        let from = if !hot.is_empty() && rng.p(0.6) { &hot } else { &candidates };
        let i = *rng.pick(from);
        let (a, b) = frames[i];
        let from = a + header(a);
        let len = b - from;
        let mut bytes = match rng.below(8) {
            0 => B(vec![0; len]),
            1 => B(vec![0xFF; len]),
            2 => B(vec![*rng.pick(&[8u8, 14, 36, 40, 9]); len]),
            3 => {
                // a message that never ends
                let mut v = vec![8, rng.below(4) as u8];
                v.resize(len.max(2), b'x');
                v.truncate(len);
                B(v)
            }
            4 => {
                let mut v = d.clean[from..b].to_vec();
                let k = rng.below(v.len());
                v[k] ^= 1 << rng.below(8);
                B(v)
            }
            5 => {
                // some other frame's body
                let j = *rng.pick(&candidates);
                let (c, e) = frames[j];
                let mut v = d.clean[c + header(c)..e].to_vec();
                v.resize(len, 0);
                B(v)
            }
            _ => junk(rng, len),
        };
        if rng.p(0.3) {
            // only part of it is hit
            let k = rng.below(len);
            bytes.0[..k].copy_from_slice(&d.clean[from..from + k]);
        }
        r.disk.push(DiskFault::Over {
            at: pos_at(&d, from),
            bytes,
        });
    }
    (vec![r], plan)
}

pub fn eval_c15(s: &Scenario, ctx: &mut Ctx) -> Res {
    let d = ctx.deliver(&s.recs[0]);
    count_events(ctx, &d.frames);
    let Some(fault) = s.recs[0].disk.first() else {
        return Ok(());
    };
    let frames = whole_frames(&d.clean);
    let (from, to) = match fault {
        DiskFault::Lost { at, len } => match offset_of(&d, at) {
            Some(o) => (o, o + *len as usize),
            None => return Ok(()),
        },
        DiskFault::Over { at, bytes } => match offset_of(&d, at) {
            Some(o) => (o, o + bytes.0.len()),
            None => return Ok(()),
        },
        _ => return Ok(()),
    };
    ctx.nontrivial = !d.intact();
    let lost = s.plan.note == "range";
    // the frames that are not hit
    let first = frames.partition_point(|f| f.1 <= from);
    let last = frames.partition_point(|f| f.0 < to);
    if lost {
        // while a case is made smaller the range may stop fitting the frames
        let fits = frames.get(first).is_some_and(|f| f.0 == from)
            && last >= 1
            && frames[last - 1].1 == to;
        if !fits {
            return Ok(());
        }
    } else if last != first + 1 {
        return Ok(());
    }
    if first < frames.len() && !lost {
        let (a, _) = frames[first];
        let h = match d.clean[a + 1] & 7 {
            3 => 10,
            1 | 4 | 5 | 6 => 6,
            _ => 2,
        };
        if from < a + h {
            return Ok(());
        }
    }
    let hit = frames[first].0;
    let after = frames[last - 1].1;
    let end = frames.last().map_or(0, |f| f.1);
    let (a, b) = (&d.clean[..hit], &d.clean[after..end]);
    let rest = [a, b].concat();
    let got = read(&d.bytes)?;
    ctx.saw((&got.prints, &got.frags, &got.pings, &got.flags, &got.demo));
    let clients: Vec<_> = sut_clients(&rest)?
        .unwrap_or_default()
        .into_iter()
        .map(|c| (c.number, c.name, c.team))
        .collect();
    if lost {
        ctx.count("ranges of frames lost");
        let want = model::bytes::prints(&rest);
        ensure!(
            got.prints == want,
            "prints after a lost range",
            "{}",
            list_diff(&got.prints, &want)
        );
        let want = model::bytes::scores(&rest, &clients);
        ensure!(
            nonzero(&got.frags) == nonzero(&want),
            "frags after a lost range",
            "{}",
            map_diff(&nonzero(&got.frags), &nonzero(&want))
        );
        check_pings(&got.pings, &model::bytes::pings(&rest), "pings after a lost range")?;
        let want = std::time::Duration::from_millis(model::bytes::demo_ms(&rest));
        ensure!(
            got.demo == Some(want),
            "elapsed time after a lost range",
            "{:?} instead of {want:?}",
            got.demo
        );
        if !d.frames.is_empty() {
            let want = sut_flags(&rest)?;
            ensure!(
                got.flags == want,
                "flags after a lost range",
                "{}",
                map_diff(&got.flags, &want)
            );
        }
        return Ok(());
    }
    ctx.count("frame bodies overwritten");
    let damaged = &d.bytes[hit..after];
    let original = &d.clean[hit..after];
    // prints: everything before, something, everything behind
    let (pa, pb) = (model::bytes::prints(a), model::bytes::prints(b));
    let n = got.prints.len();
    ensure!(
        got.prints.starts_with(&pa) && got.prints.ends_with(&pb) && n + 1 >= pa.len() + pb.len(),
        "prints of other frames",
        "frame at {hit}: {} messages before, {} behind, got {}: {}",
        pa.len(),
        pb.len(),
        n,
        if got.prints.starts_with(&pa) {
            "those behind differ".to_string()
        } else {
            list_diff(&got.prints, &pa)
        }
    );
    // frags: the frame itself changes at most one name, by two at most
    let teamkill_near = {
        let near = &frames[first.saturating_sub(60)..first];
        let mut nonempty = 0;
        near.iter().rev().any(|f| {
            let body = model::bytes::bodies(&d.clean[f.0..f.1]);
            let Some(body) = body.first() else { return false };
            if body.raw.is_empty() || nonempty >= 3 {
                return false;
            }
            nonempty += 1;
            model::bytes::frame_prints(body.msgs)
                .first()
                .and_then(|p| model::bytes::obituary(&p.1))
                .is_some_and(|o| o.0 == Kill::TeamkilledBy)
        })
    };
    if !teamkill_near {
        // keep an opaque frame where the damaged one is
        let mut opaque = original.to_vec();
        let h = from_header(&opaque);
        for x in &mut opaque[h..] {
            *x = 0x30;
        }
        let without = [a, &opaque, b].concat();
        let want = nonzero(&model::bytes::scores(&without, &clients));
        let have = nonzero(&got.frags);
        let mut diff: Vec<(String, i64)> = vec![];
        for k in have.keys().chain(want.keys()) {
            let delta = have.get(k).unwrap_or(&0) - want.get(k).unwrap_or(&0);
            if delta != 0 && !diff.iter().any(|(n, _)| n == k) {
                diff.push((k.clone(), delta));
            }
        }
        ensure!(
            diff.len() <= 1 && diff.iter().all(|(_, n)| n.abs() <= 2),
            "frags of other frames",
            "frame at {hit}: scores change by {diff:?}"
        );
        ctx.count("frag scores compared");
    }
    // pings
    let dam = model::bytes::bodies(damaged);
    let own: Vec<_> = dam
        .iter()
        .flat_map(|b| model::bytes::frame_pings(b.msgs))
        .collect();
    if own.is_empty() {
        check_pings(&got.pings, &model::bytes::pings(&rest), "pings of other frames")?;
        ctx.count("pings compared");
    }
    // flags
    if model::find(damaged, b"flag").is_none() {
        let want = sut_flags(&rest)?;
        ensure!(
            got.flags == want,
            "flags of other frames",
            "frame at {hit}: {}",
            map_diff(&got.flags, &want)
        );
        ctx.count("flags compared");
        if !d.frames.is_empty() && d.frames.iter().all(|f| f.rep == 1) {
            let i = d.starts.iter().position(|s| *s == hit);
            if let Some(i) = i {
                let mut left = d.frames.clone();
                left.remove(i);
                let want = model::flags(&left);
                ensure!(
                    got.flags == want,
                    "flags of other frames",
                    "frame at {hit}: {}",
                    map_diff(&got.flags, &want)
                );
            }
        }
    }
    // elapsed time; a mark can also come about where the damage meets what is around it
    let around = &d.bytes[hit.saturating_sub(20)..d.bytes.len().min(after + 20)];
    let marks = |x: &[u8]| {
        model::find(x, model::MATCH_OVER).is_some() || model::find(x, model::STANDBY).is_some()
    };
    if !marks(original) && !marks(around) {
        let want = std::time::Duration::from_millis(model::bytes::demo_ms(&d.clean));
        ensure!(
            got.demo == Some(want),
            "elapsed time",
            "frame at {hit}: {:?} instead of {want:?}",
            got.demo
        );
    }
    Ok(())
}

fn from_header(frame: &[u8]) -> usize {
    match frame[1] & 7 {
        3 => 10,
        1 | 4 | 5 | 6 => 6,
        _ => 2,
    }
}
