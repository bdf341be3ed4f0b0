//! How it began and how it ended: valid, aborted, paused (C12), header facts and time (C13).

use super::*;
use crate::ensure;
use mvdparser::all as m;

// ---------------------------------------------------------------- C12

fn minimal(rng: &mut Rng) -> Option<Recording> {
    let mut prof = Profile::general();
    prof.clients = (0, 3);
    prof.events = (0, 0);
    prof.matchdate = 0.3;
    prof.stats = 0.0;
    let mut r = sim(generate(rng, &prof));
    let Base::Sim { frames } = &mut r.base else { return None };
    let mut last = None;
    for (i, f) in frames.iter_mut().enumerate() {
        for p in &mut f.parts {
            match p {
                Part::Fill(n) => {
                    *n = 1;
                    last = Some(i);
                }
                Part::Settings(kv) => {
                    let keep = rng.usize(1, 6);
                    kv.truncate(keep);
                    if kv.last().is_some_and(|(_, v)| v.0.last().is_some_and(|b| b & 0x7f == 32)) {
                        kv.push((B::s("map"), B::s("dm2")));
                    }
                }
                _ => {}
            }
        }
    }
    // the list of empty slots is long
    let occupied = frames
        .iter()
        .flat_map(|f| &f.parts)
        .filter(|p| matches!(p, Part::Slot(s) if s.occupied()))
        .count();
    let mut seen = 0;
    for f in frames.iter_mut() {
        f.parts.retain(|p| match p {
            Part::Slot(s) => {
                seen += usize::from(s.occupied());
                s.occupied() || (seen < occupied)
            }
            _ => true,
        });
    }
    let size: usize = frames
        .iter()
        .map(|f| {
            let mut v = vec![];
            f.encode(&mut v);
            v.len()
        })
        .sum();
    let target = *rng.pick(&[1023usize, 1024, 1025, 1000, 1100, 1024]);
    if size + 4 > target {
        return None;
    }
    // all of it behind the roster, and short of what is taken for a client
    if let Some(Part::Fill(n)) = frames[last?].parts.iter_mut().find(|p| matches!(p, Part::Fill(_))) {
        *n += (target - size) as u32;
    }
    Some(r)
}

pub fn gen_c12(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    let mut plan = Plan::default();
    if rng.p(0.25) {
        if let Some(r) = minimal(rng) {
            plan.note = "minimal".into();
            return (vec![r], plan);
        }
    }
    let mut prof = swarm_profile(rng);
    prof.endings = [3.0, 3.0, 3.0, 1.0, 1.0];
    prof.events = *rng.pick(&[(0, 10), (10, 100)]);
    prof.clients = *rng.pick(&[(0, 2), (1, 10)]);
    prof = prof.weight(Ev::Pause, 4.0).weight(Ev::Near, 3.0);
    let mut r = sim(generate(rng, &prof));
    let Base::Sim { frames } = &mut r.base else {
        return (vec![r], plan);
    };
    let first = frames.iter().position(|f| !f.signon).unwrap_or(frames.len());
    let mut tag = frames.iter().map(|f| f.tag).max().unwrap_or(0);
    // what looks like it but is not
    for _ in 0..rng.below(5) {
        let part = match rng.below(11) {
            // what really says so, wherever it is
            7 => Part::Print { id: 2, text: world::vote_print() },
            8 => Part::Print {
                id: 2,
                text: B::s(*rng.pick(&["The match is over\n", "The match has begun!\n", "Match paused\n"])),
            },
            9 => Part::Print {
                id: 2,
                text: B::s(*rng.pick(&["Server is paused\n", "somebody paused the game\n"])),
            },
            10 => Part::Print {
                id: *rng.pick(&[2u8, 2, 3]),
                text: B::s(*rng.pick(&[
                    "somebody unpaused the game\n",
                    "Server is unpaused\n",
                    "No longer in standby\n",
                    "Server returned to standby\n",
                    "matchdate: 2024-01-01 10:00:00 CET\n",
                ])),
            },
            0 => Part::Print { id: 3, text: world::vote_print() },
            1 => Part::Print {
                id: *rng.pick(&[0u8, 1, 3]),
                text: world::vote_print(),
            },
            2 => Part::Print {
                id: 2,
                text: B::s("Match stopped by majority vote\n"),
            },
            3 => Part::Print {
                id: 2,
                text: B(world::vote_print().0[..rng.usize(5, 30)].to_vec()),
            },
            4 => Part::Print {
                id: 3,
                text: B::s("p: EndOfDemo\n"),
            },
            5 => Part::Stuff(B::s("EndOfDemo")),
            _ => Part::Setting {
                key: B::s("status"),
                value: B::s("paused"),
            },
        };
        tag += 1;
        let at = rng.usize(first, frames.len().saturating_sub(1).max(first));
        let ms = rng.byte();
        frames.insert(
            at,
            Frame {
                tag,
                ms,
                ty: 6,
                mask: 0,
                parts: vec![part],
                rep: 1,
                signon: false,
            },
        );
    }
    // what is needed may never have been recorded
    if rng.p(0.2) {
        let what = rng.below(3);
        for f in frames.iter_mut().filter(|f| f.signon) {
            f.parts.retain(|p| match p {
                Part::Settings(_) => what != 0,
                Part::Slot(_) => what != 1,
                Part::Stuff(t) => what != 2 || !t.0.starts_with(b"cmd spawn"),
                _ => true,
            });
        }
        plan.note = "incomplete sign-on".into();
    }
    net_faults(rng, &mut r, 5);
    if rng.p(0.4) {
        let d = deliver(&r);
        let places = spots(&d);
        let o = match rng.below(3) {
            0 => d.clean.len().saturating_sub(1 + rng.below(30)),
            _ => spot(rng, &d, &places),
        };
        r.disk.push(DiskFault::Crash { at: pos_at(&d, o) });
    }
    if rng.p(0.07) {
        let n = rng.usize(1, 40);
        r.disk.push(DiskFault::Tail { bytes: junk(rng, n) });
    }
    (vec![r], plan)
}

/// Frames that are completely there.
fn arrived(d: &Delivered) -> (&[Frame], bool) {
    let n = d
        .frames
        .iter()
        .zip(&d.starts)
        .take_while(|(f, s)| {
            let mut b = vec![];
            f.encode(&mut b);
            **s + b.len() <= d.bytes.len()
        })
        .count();
    (&d.frames[..n], n < d.frames.len())
}

pub fn eval_c12(s: &Scenario, ctx: &mut Ctx) -> Res {
    let d = ctx.deliver(&s.recs[0]);
    count_events(ctx, &d.frames);
    let data = &d.bytes[..];
    let (frames, _) = arrived(&d);
    let next = d.frames.get(frames.len());
    // valid
    let marked = data.ends_with(b"\0\x02EndOfDemo\0");
    let spawn_at = frames.iter().position(|f| {
        f.signon
            && f.parts
                .iter()
                .any(|p| matches!(p, Part::Stuff(t) if t.0.starts_with(b"cmd spawn")))
    });
    let roster = spawn_at.map_or(0, |i| model::roster(&frames[i..]).len());
    let settings = model::settings(frames).is_some();
    let want = data.len() >= 1024 && marked && settings && roster > 0;
    ctx.count(match (marked, want) {
        (true, true) => "valid recordings",
        (true, false) => "recordings with end marker that are not valid",
        (false, _) => "recordings without end marker",
    });
    if (1020..1030).contains(&data.len()) {
        ctx.count(&format!("recordings of {} bytes", data.len()));
    }
    if !settings {
        ctx.count("recordings without server info");
    }
    if roster == 0 {
        ctx.count("recordings without clients");
    }
    ctx.nontrivial = !d.fired.is_empty() || !want || s.plan.note == "minimal";
    // stale bytes at the end may hold the marker, a list of clients, anything
    let stale = s.recs[0].disk.iter().any(|f| matches!(f, DiskFault::Tail { .. }));
    let got = sut::run(|| m::is_valid(data)).map_err(|p| panicked("is_valid", p))?;
    ctx.saw(got);
    ctx.shape("valid", u64::from(got));
    if !stale || !marked {
        ensure!(
            got == want,
            if got { "reported as valid" } else { "valid recording refused" },
            "{got}: {} bytes, end marker {marked}, server info {settings}, {roster} clients",
            data.len()
        );
    }
    let got = sut::run(|| m::has_end_of_demo_print(data))
        .map_err(|p| panicked("has_end_of_demo_print", p))?;
    ensure!(got == (marked && data.len() > 12), "end marker", "{got} instead of {marked}");
    // aborted
    let vote = |f: &Frame| {
        f.parts
            .iter()
            .any(|p| matches!(p, Part::Print { id: 2, text } if *text == world::vote_print()))
    };
    let told = frames.iter().any(|f| model::has_body(f) && vote(f));
    // half a frame, or a frame for nobody, may or may not have told
    let maybe = frames.iter().any(|f| !model::has_body(f) && vote(f)) || next.is_some_and(vote);
    let got = sut::run(|| m::is_aborted(data)).map_err(|p| panicked("is_aborted", p))?;
    ctx.saw(got);
    ctx.count(match told {
        true => "aborted matches",
        false => "matches that were not aborted",
    });
    if !stale && !(maybe && !told) {
        ensure!(
            got == told,
            if got { "reported as aborted" } else { "abort not reported" },
            "{got}"
        );
    }
    // paused
    let pause = |f: &Frame| {
        f.parts.iter().any(|p| {
            matches!(p, Part::Print { id: 2, text }
                if text.0.ends_with(b" paused the game\n") || text.0 == b"Server is paused\n")
        })
    };
    let hint = |f: &Frame| {
        let mut v = vec![];
        f.encode(&mut v);
        model::find(&v, b"paused the game").is_some() || model::find(&v, b"Server is paused").is_some()
    };
    let told = frames.iter().any(|f| model::has_body(f) && pause(f));
    let maybe = !told && (frames.iter().any(hint) || next.is_some_and(hint));
    let got = sut::run(|| mvdparser::is_paused(data)).map_err(|p| panicked("is_paused", p))?;
    ctx.saw(got);
    if told {
        ctx.count(if marked { "paused at some time but finished" } else { "left in a pause" });
    }
    if !stale && !maybe {
        ensure!(
            got == (told && !marked),
            if got { "reported as paused" } else { "pause not reported" },
            "{got}: announced {told}, end marker {marked}"
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

pub fn gen_c13(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    let mut plan = Plan::default();
    let mut prof = swarm_profile(rng);
    prof.events = (0, 80);
    prof.clients = (0, 6);
    prof.odd_clock = 0.5;
    prof.epoch = *rng.pick(&[0.0, 0.5, 1.0]);
    prof.matchdate = *rng.pick(&[0.5, 1.0]);
    prof = prof.weight(Ev::Setting, 8.0).weight(Ev::Near, 3.0);
    if rng.p(0.05) {
        prof.header = false;
    }
    let mut r = sim(generate(rng, &prof));
    net_faults(rng, &mut r, 5);
    if rng.p(0.25) {
        let d = deliver(&r);
        let first = d
            .frames
            .iter()
            .position(|f| !f.signon)
            .map_or(d.clean.len(), |i| d.starts[i]);
        if first < d.clean.len() {
            let o = rng.usize(first, d.clean.len() - 1);
            r.disk.push(DiskFault::Crash { at: pos_at(&d, o) });
        }
    }
    if rng.p(0.5) {
        plan.zone = rng
            .pick(&["UTC", "Europe/Stockholm", "America/New_York", "Asia/Kolkata", "XYZ-7:30", ":bad"])
            .to_string();
    }
    (vec![r], plan)
}

pub fn eval_c13(s: &Scenario, ctx: &mut Ctx) -> Res {
    let d = ctx.deliver(&s.recs[0]);
    count_events(ctx, &d.frames);
    let data = &d.bytes[..];
    if !s.plan.zone.is_empty() {
        std::env::set_var("TZ", &s.plan.zone);
        ctx.count("read in some time zone");
    }
    let (frames, torn) = arrived(&d);
    let next = d.frames.get(frames.len()).filter(|_| torn);
    if next.is_some_and(|f| f.signon) {
        return Ok(());
    }
    let text = sut::run(|| m::serverinfo_string(data)).map_err(|p| panicked("serverinfo_string", p))?;
    let info = sut::run(|| m::serverinfo(data)).map_err(|p| panicked("serverinfo", p))?;
    let name = sut::run(|| mvdparser::filename(data)).map_err(|p| panicked("filename", p))?;
    ctx.saw((&text.as_ref().ok(), &name.as_ref().ok()));
    let kv = model::settings(frames);
    let value = |k: &str| model::setting(frames, k);
    match &kv {
        None => {
            ctx.count("recordings without server info");
            ensure!(
                text.is_err() && info.is_err() && name.is_err(),
                "server info out of nowhere",
                "{text:?} {name:?}"
            );
        }
        Some(kv) => {
            ctx.add("settings compared", kv.len() as u64);
            let want = model::plain(&settings_string(kv));
            match &text {
                Ok(t) => ensure!(*t == want, "server info differs", "{t:?} instead of {want:?}"),
                Err(e) => return Err(fail("server info not found", format!("{e:?}: {want:?}"))),
            }
            let i = info.map_err(|e| fail("server info not found", format!("{e:?}")))?;
            let num = |k: &str| value(k).and_then(|v| v.parse::<i32>().ok());
            for (k, got) in [
                ("hostname", &i.hostname),
                ("map", &i.map),
                ("mode", &i.mode),
                ("status", &i.status),
                ("serverdemo", &i.serverdemo),
                ("ktxver", &i.ktxver),
                ("matchtag", &i.matchtag),
                ("*admin", &i.admin),
                ("*gamedir", &i.gamedir),
                ("*version", &i.version),
                ("*progs", &i.progs),
                ("*qvm", &i.qvm),
            ] {
                ensure!(
                    *got == value(k),
                    "a setting differs",
                    "{k}: {got:?} instead of {:?}",
                    value(k)
                );
            }
            for (k, got) in [
                ("epoch", i.epoch),
                ("maxclients", i.maxclients),
                ("maxspectators", i.maxspectators),
                ("deathmatch", i.deathmatch),
                ("timelimit", i.timelimit),
                ("teamplay", i.teamplay),
                ("fpd", i.fpd),
                ("maxfps", i.maxfps),
                ("*z_ext", i.z_ext),
            ] {
                ensure!(
                    got == num(k),
                    "a setting differs",
                    "{k}: {got:?} instead of {:?}",
                    num(k)
                );
            }
            let want = value("serverdemo");
            ensure!(
                name.as_ref().ok() == want.as_ref(),
                "file name differs",
                "{name:?} instead of {want:?}"
            );
        }
    }
    // when
    let epoch: Option<i64> = value("epoch").and_then(|v| v.parse().ok());
    let date = model::matchdate(frames).and_then(|t| String::from_utf8(t).ok());
    let secs = date.as_deref().and_then(world::matchdate_secs);
    ctx.nontrivial = epoch.is_some() || date.is_some();
    // the frame that was cut off may hold the first announcement
    let cut_date = date.is_none()
        && next.is_some_and(|f| {
            f.parts
                .iter()
                .any(|p| matches!(p, Part::Print { text, .. } if text.0.starts_with(b"matchdate: ")))
        });
    let stamp = sut::run(|| m::timestamp(data)).map_err(|p| panicked("timestamp", p))?;
    let when = stamp.as_ref().ok().map(|t| t.timestamp());
    ctx.saw(when);
    let fits = epoch.is_some_and(|e| i32::try_from(e).is_ok());
    match epoch {
        Some(e) if fits => {
            ctx.count(match e {
                i64::MIN..=-1 => "epochs before 1970",
                0..=100_000 => "epochs around 1970",
                2_147_000_000.. => "epochs around 2038",
                _ => "ordinary epochs",
            });
            ensure!(
                when == Some(e),
                "timestamp is not the epoch",
                "{stamp:?} instead of {e}"
            );
        }
        Some(e) => {
            // beyond what the settings can hold
            ctx.count("epochs beyond 32 bits");
            let possible = [Some(e), secs];
            ensure!(
                possible.contains(&when) || cut_date,
                "timestamp",
                "{stamp:?}: epoch {e}, matchdate {date:?}"
            );
        }
        None => match (&date, secs) {
            (Some(text), Some(t)) => {
                ctx.count("timestamps from a matchdate");
                ctx.shape(&text[text.len().saturating_sub(5)..], 1);
                ensure!(
                    when == Some(t),
                    "timestamp is not the matchdate",
                    "{stamp:?} instead of {t}: {text:?}"
                );
                let got = sut::run(|| m::matchdate_string(data))
                    .map_err(|p| panicked("matchdate_string", p))?;
                ensure!(
                    got.as_ref().ok() == Some(text),
                    "matchdate text",
                    "{got:?} instead of {text:?}"
                );
            }
            (None, _) if !cut_date => {
                ctx.count("neither epoch nor matchdate");
                ensure!(stamp.is_err(), "timestamp out of nowhere", "{stamp:?}");
            }
            _ => {}
        },
    }
    if let (Some(text), Some(t)) = (&date, secs) {
        let got = sut::run(|| m::matchdate(data)).map_err(|p| panicked("matchdate", p))?;
        ensure!(
            got.as_ref().ok().map(|x| x.timestamp()) == Some(t),
            "matchdate",
            "{got:?} instead of {t}: {text:?}"
        );
    }
    Ok(())
}
