//! What the log of a match adds up to: prints, frags, durations, pings, flags.

use super::*;
use crate::ensure;
use std::time::Duration;

fn world(rng: &mut Rng, prof: &Profile) -> Recording {
    sim(generate(rng, prof))
}

fn maybe_corpus(rng: &mut Rng, p: f64) -> Option<Recording> {
    if rng.p(p) {
        corpus(rng, 400_000)
    } else {
        None
    }
}

// ---------------------------------------------------------------- C05

pub fn gen_c05(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    let mut plan = Plan::default();
    if let Some(mut r) = maybe_corpus(rng, 0.04) {
        if rng.p(0.5) {
            let n = rng.usize(1, 3);
            disk_faults(rng, &mut r, n);
        }
        plan.note = "bytes".into();
        return (vec![r], plan);
    }
    let mut prof = swarm_profile(rng);
    if rng.p(0.5) {
        prof = prof
            .weight(Ev::Chat, 14.0)
            .weight(Ev::Repeat, 5.0)
            .weight(Ev::High, 10.0)
            .weight(Ev::EmptyPrint, 2.0)
            .weight(Ev::Hidden, 4.0);
    }
    let mut r = world(rng, &prof);
    net_faults(rng, &mut r, 6);
    if rng.p(0.2) {
        let n = rng.usize(1, 4);
        disk_faults(rng, &mut r, n);
        plan.note = "bytes".into();
    }
    (vec![r], plan)
}

pub fn eval_c05(s: &Scenario, ctx: &mut Ctx) -> Res {
    let d = ctx.deliver(&s.recs[0]);
    let want = if s.plan.note == "bytes" {
        ctx.count("judged by the byte-level model");
        model::bytes::prints(&d.bytes)
    } else {
        ctx.count("judged by the event-level model");
        count_events(ctx, &d.frames);
        model::prints(&d.frames)
    };
    let got = sut_prints(&d.bytes)?;
    ctx.saw(&got);
    ctx.add("messages compared", want.len() as u64);
    ctx.shape("prints", want.len() as u64);
    let packed = d.frames.iter().any(|f| model::frame_prints(f).len() > 1);
    ctx.nontrivial = want.len() >= 3 && (packed || !d.fired.is_empty());
    if got != want {
        let class = if got.len() < want.len() {
            "messages lost"
        } else if got.len() > want.len() {
            "messages invented"
        } else {
            "messages differ"
        };
        let show = |l: &[(u16, Vec<u8>)]| {
            l.iter()
                .map(|(a, t)| format!("{a}:{}", sut::latin1(t)))
                .collect::<Vec<_>>()
        };
        return Err(fail(class, list_diff(&show(&got), &show(&want))));
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

pub fn gen_c06(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    let mut plan = Plan::default();
    if let Some(mut r) = maybe_corpus(rng, 0.03) {
        if rng.p(0.4) {
            let n = rng.usize(1, 3);
            disk_faults(rng, &mut r, n);
        }
        plan.note = "bytes".into();
        return (vec![r], plan);
    }
    let mut prof = swarm_profile(rng);
    prof.clients = (1, 16);
    prof = prof.weight(Ev::Kill, 14.0).weight(Ev::Suicide, 3.0).weight(Ev::LateObit, 2.0).weight(Ev::Near, 2.0);
    match rng.below(4) {
        0 => {
            prof.team_names = 2;
            prof = prof
                .weight(Ev::TeamkilledBy, 14.0)
                .weight(Ev::Teamkill, 5.0)
                .weight(Ev::FragNoise, 6.0)
                .weight(Ev::Empty, 5.0);
        }
        1 => {
            prof.odd_names = 0.9;
        }
        _ => {}
    }
    let mut r = world(rng, &prof);
    net_faults(rng, &mut r, 6);
    (vec![r], plan)
}

pub fn eval_c06(s: &Scenario, ctx: &mut Ctx) -> Res {
    let d = ctx.deliver(&s.recs[0]);
    let want;
    if s.plan.note == "bytes" {
        ctx.count("judged by the byte-level model");
        let clients: Vec<_> = sut_clients(&d.bytes)?
            .unwrap_or_default()
            .into_iter()
            .map(|c| (c.number, c.name, c.team))
            .collect();
        want = model::bytes::scores(&d.bytes, &clients);
        ctx.nontrivial = !want.is_empty();
    } else {
        ctx.count("judged by the event-level model");
        count_events(ctx, &d.frames);
        let roster = model::roster(&d.frames);
        want = model::scores(&d.frames, &roster);
        let mut kinds = BTreeMap::new();
        for f in &d.frames {
            if let Some(Part::Obit { kill, .. }) = f.parts.first() {
                *kinds.entry(format!("obituaries: {kill:?}")).or_insert(0u64) += 1;
            }
        }
        ctx.nontrivial = kinds.values().sum::<u64>() >= 3;
        for (k, n) in kinds {
            ctx.shape(&k, n);
            ctx.add(&k, n);
        }
    }
    let got = sut_frags(&d.bytes)?;
    ctx.saw(&got);
    let (got, want) = (nonzero(&got), nonzero(&want));
    ctx.add("names compared", want.len() as u64);
    ensure!(got == want, "scores differ", "{}", map_diff(&got, &want));
    Ok(())
}

// ---------------------------------------------------------------- C07

pub fn gen_c07(rng: &mut Rng, i: u64) -> (Vec<Recording>, Plan) {
    let mut plan = Plan::default();
    if let Some(mut r) = maybe_corpus(rng, 0.03) {
        if rng.p(0.4) {
            let n = rng.usize(1, 3);
            disk_faults(rng, &mut r, n);
        }
        plan.note = "bytes".into();
        return (vec![r], plan);
    }
    let mut prof = swarm_profile(rng);
    prof.hoony = 0.2;
    prof.endings = [3.0, 1.0, 2.0, 3.0, 1.0];
    prof.stats = 0.5;
    prof.idle_max = 3000;
    prof = prof
        .weight(Ev::Idle, 2.0)
        .weight(Ev::Odd, 2.0)
        .weight(Ev::Empty, 6.0)
        .weight(Ev::Hidden, 3.0)
        .weight(Ev::Near, 2.0);
    let mut r = world(rng, &prof);
    if let Base::Sim { frames } = &mut r.base {
        let body = frames.iter().position(|f| !f.signon).unwrap_or(frames.len());
        let mut tag = frames.iter().map(|f| f.tag).max().unwrap_or(0);
        let mut mark = |rng: &mut Rng, part: Part| {
            tag += 1;
            Frame {
                tag,
                ms: rng.byte(),
                ty: *rng.pick(&[6u8, 6, 4, 1]),
                mask: 0,
                parts: match rng.below(3) {
                    0 => vec![part],
                    1 => vec![Part::Stuff(B::s("bf\n")), part],
                    _ => vec![part, Part::Stuff(B::s("bf\n"))],
                },
                rep: 1,
                signon: false,
            }
        };
        // marks at places where a match does not have them, too
        for _ in 0..rng.below(4) {
            let part = match rng.below(4) {
                // (in a chat message: see the known findings)
                0 => Part::Print {
                    id: 2,
                    text: B::s("The match is over\n"),
                },
                1 => Part::Setting {
                    key: B::s("status"),
                    value: B::s("Standby"),
                },
                2 => Part::Print {
                    id: 2,
                    text: B::s("matchdate: 2024-05-01 12:00:00 CEST\n"),
                },
                _ => Part::Print {
                    id: 2,
                    text: B::s("The match has begun!\n"),
                },
            };
            let at = rng.usize(body, frames.len());
            let f = mark(rng, part);
            frames.insert(at, f);
        }
        if i % 900 == 450 {
            // more than 2^32 milliseconds on the clock
            tag += 1;
            let at = rng.usize(body, frames.len());
            frames.insert(
                at,
                Frame {
                    tag,
                    ms: 255,
                    ty: *rng.pick(&[0u8, 7]),
                    mask: 0,
                    parts: vec![],
                    rep: 16_900_000,
                    signon: false,
                },
            );
            plan.note = "marathon".into();
        } else if rng.p(0.05) {
            tag += 1;
            let at = rng.usize(body, frames.len());
            frames.insert(
                at,
                Frame {
                    tag,
                    ms: 255,
                    ty: 7,
                    mask: 0,
                    parts: vec![],
                    rep: rng.usize(1000, 40_000) as u32,
                    signon: false,
                },
            );
        }
    }
    net_faults(rng, &mut r, 6);
    if plan.note.is_empty() && rng.p(0.15) {
        let n = rng.usize(1, 3);
        disk_faults(rng, &mut r, n);
        plan.note = "bytes".into();
    }
    (vec![r], plan)
}

/// Contents of the statistics dump, if it is whole: only for undamaged recordings.
pub fn dump_of(frames: &[Frame]) -> Option<String> {
    let mut last: Option<Vec<u8>> = None;
    let mut i = 0;
    while i < frames.len() {
        if let Some(Part::Stats { content, .. }) = frames[i].parts.first() {
            if content.0.starts_with(b"{\"version\": ") {
                let mut text = vec![];
                let mut j = i;
                let mut expect = 1;
                last = None;
                while let Some(Part::Stats { number, content }) =
                    frames.get(j).and_then(|f| f.parts.first())
                {
                    if *number != 0 && *number != expect {
                        break;
                    }
                    text.extend_from_slice(&content.0);
                    if *number == 0 {
                        last = Some(text);
                        break;
                    }
                    expect += 1;
                    j += 1;
                }
            }
        }
        i += 1;
    }
    last.and_then(|t| String::from_utf8(t).ok())
}

pub fn eval_c07(s: &Scenario, ctx: &mut Ctx) -> Res {
    let d = ctx.deliver(&s.recs[0]);
    let by_bytes = s.plan.note == "bytes";
    let (demo, countdown, hoony);
    if by_bytes {
        ctx.count("judged by the byte-level model");
        demo = model::bytes::demo_ms(&d.bytes);
        hoony = sut::run(|| mvdparser::serverinfo(&d.bytes))
            .map_err(|p| panicked("serverinfo", p))?
            .is_ok_and(|s| s.mode.as_deref() == Some("hoonymode"));
        countdown = if hoony {
            Some(0)
        } else {
            model::bytes::countdown_ms(&d.bytes)
        };
        ctx.nontrivial = true;
    } else {
        ctx.count("judged by the event-level model");
        count_events(ctx, &d.frames);
        demo = model::demo_ms(&d.frames);
        countdown = model::countdown_ms(&d.frames);
        hoony = model::setting(&d.frames, "mode").as_deref() == Some("hoonymode");
        ctx.nontrivial = countdown.is_some() || demo != model::demo_total(&d.frames);
    }
    if s.plan.note == "marathon" {
        ctx.count("recordings of more than 2^32 ms");
    }
    ctx.shape("demo", demo);
    ctx.shape("countdown", countdown.unwrap_or(0));
    let ms = Duration::from_millis;
    let got = sut_demo_ms(&d.bytes)?;
    ctx.saw(got);
    ensure!(
        got == Some(ms(demo)),
        "demo duration",
        "demo_duration is {got:?} instead of {:?}",
        ms(demo)
    );
    let got = sut::run(|| mvdparser::countdown_duration(&d.bytes))
        .map_err(|p| panicked("countdown_duration", p))?
        .ok();
    ctx.saw(got);
    ensure!(
        got == countdown.map(ms),
        "countdown duration",
        "countdown_duration is {got:?} instead of {:?}",
        countdown.map(ms)
    );
    let seeking = demo.saturating_sub(countdown.unwrap_or(0));
    let got = sut::run(|| mvdparser::all::match_duration_from_seeking(&d.bytes))
        .map_err(|p| panicked("match_duration_from_seeking", p))?
        .ok();
    ensure!(
        got == Some(ms(seeking)),
        "match duration",
        "match_duration_from_seeking is {got:?} instead of {:?}",
        ms(seeking)
    );
    let got = sut::run(|| mvdparser::match_duration(&d.bytes))
        .map_err(|p| panicked("match_duration", p))?
        .ok();
    ctx.saw(got);
    if by_bytes {
        let stats = sut::run(|| mvdparser::all::match_duration_from_ktxstats(&d.bytes))
            .map_err(|p| panicked("match_duration_from_ktxstats", p))?
            .ok();
        let want = if hoony { ms(seeking) } else { stats.unwrap_or(ms(seeking)) };
        ensure!(
            got == Some(want),
            "match duration",
            "match_duration is {got:?} instead of {want:?}"
        );
        return Ok(());
    }
    let mut want = ms(seeking);
    // a dump that lost blocks just before the last is not noticed and is not judged here
    let dump = dump_of(&d.frames)
        .filter(|t| serde_json::from_str::<serde_json::Value>(t).is_ok());
    let has_stats = d
        .frames
        .iter()
        .any(|f| f.parts.iter().any(|p| matches!(p, Part::Stats { .. })));
    if let Some(text) = &dump {
        let from_stats = serde_json::from_str::<serde_json::Value>(text)
            .ok()
            .and_then(|v| v["duration"].as_u64());
        if let (Some(secs), false) = (from_stats, hoony) {
            ctx.count("match durations from the dump");
            want = Duration::from_secs(secs);
        }
    }
    if dump.is_some() || !has_stats {
        ensure!(
            got == Some(want),
            "match duration",
            "match_duration is {got:?} instead of {want:?}"
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

pub fn gen_c08(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    let mut plan = Plan::default();
    if let Some(mut r) = maybe_corpus(rng, 0.04) {
        if rng.p(0.5) {
            let n = rng.usize(1, 3);
            disk_faults(rng, &mut r, n);
        }
        plan.note = "bytes".into();
        return (vec![r], plan);
    }
    let mut prof = swarm_profile(rng);
    prof.clients = (1, 24);
    prof = prof.weight(Ev::Ping, 8.0).weight(Ev::PartialPing, 3.0).weight(Ev::Hidden, 4.0);
    let mut r = world(rng, &prof);
    net_faults(rng, &mut r, 6);
    if rng.p(0.2) {
        let n = rng.usize(1, 4);
        disk_faults(rng, &mut r, n);
        plan.note = "bytes".into();
    }
    (vec![r], plan)
}

pub fn eval_c08(s: &Scenario, ctx: &mut Ctx) -> Res {
    let d = ctx.deliver(&s.recs[0]);
    let want = if s.plan.note == "bytes" {
        ctx.count("judged by the byte-level model");
        model::bytes::pings(&d.bytes)
    } else {
        ctx.count("judged by the event-level model");
        count_events(ctx, &d.frames);
        model::pings(&d.frames)
    };
    let rounds = model::bytes::bodies(&d.bytes)
        .iter()
        .filter(|b| !model::bytes::frame_pings(b.msgs).is_empty())
        .count();
    ctx.count(match rounds {
        0 => "recordings without a round",
        1..=7 => "recordings with 1 to 7 rounds",
        8 => "recordings with 8 rounds",
        _ => "recordings with more rounds",
    });
    ctx.shape("rounds", rounds as u64);
    ctx.nontrivial = rounds >= 2;
    ctx.add("slots compared", want.len() as u64);
    let got = sut_pings(&d.bytes)?;
    ctx.saw(&got);
    check_pings(&got, &want, "pings differ")
}

// ---------------------------------------------------------------- C14

pub fn gen_c14(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    let mut plan = Plan::default();
    let mut prof = swarm_profile(rng);
    prof = prof
        .weight(Ev::Flag, 30.0)
        .weight(Ev::High, 6.0)
        .weight(Ev::Chat, 6.0)
        .weight(Ev::Near, 5.0)
        .weight(Ev::Hidden, 3.0);
    if rng.p(0.3) {
        prof.odd_names = 0.9;
    }
    let mut r = world(rng, &prof);
    net_faults(rng, &mut r, 6);
    if rng.p(0.02) {
        if let Base::Sim { frames } = &mut r.base {
            // a very long match
            let flags: Vec<usize> = (0..frames.len())
                .filter(|i| frames[*i].parts.iter().all(|p| matches!(p, Part::Flag { .. })) && !frames[*i].parts.is_empty())
                .collect();
            if !flags.is_empty() {
                let i = *rng.pick(&flags);
                frames[i].rep = *rng.pick(&[255u32, 256, 300, 65_600]);
                plan.note = "long".into();
            }
        }
    }
    (vec![r], plan)
}

pub fn eval_c14(s: &Scenario, ctx: &mut Ctx) -> Res {
    let d = ctx.deliver(&s.recs[0]);
    count_events(ctx, &d.frames);
    let want = model::flags(&d.frames);
    let mut n = 0;
    for f in &d.frames {
        let here = f.parts.iter().filter(|p| matches!(p, Part::Flag { .. })).count() as u64;
        if here > 1 {
            ctx.count("frames with several announcements");
        }
        n += here;
        for p in &f.parts {
            if let Part::Flag { deed, split, .. } = p {
                ctx.count(&format!("{deed:?}{}", if *split { ", split" } else { "" }));
            }
        }
    }
    ctx.nontrivial = n >= 3;
    let got = sut_flags(&d.bytes)?;
    ctx.saw(&got);
    ensure!(got == want, "flag events differ", "{}", map_diff(&got, &want));
    Ok(())
}
