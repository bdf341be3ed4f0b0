//! Who took part: the roster (C09), players and teams (C10), the statistics dump (C11).

use super::c_history::dump_of;
use super::*;
use crate::ensure;
use mvdparser::all as m;

// ---------------------------------------------------------------- C09

pub fn gen_c09(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    let mut prof = swarm_profile(rng);
    prof.clients = *rng.pick(&[(0, 3), (1, 12), (8, 32), (1, 6)]);
    prof.events = *rng.pick(&[(0, 5), (10, 60), (40, 160)]);
    prof.gaps = *rng.pick(&[0.0, 0.3, 0.6, 0.8]);
    prof.odd_names = *rng.pick(&[0.2, 0.6, 0.95]);
    prof.team_names = rng.usize(1, 5);
    prof = prof.weight(Ev::Join, 6.0).weight(Ev::FragNoise, 4.0).weight(Ev::Ping, 4.0);
    let mut r = sim(generate(rng, &prof));
    net_faults(rng, &mut r, 8);
    if rng.p(0.25) {
        // the recorder dies some time after the sign-on
        let d = deliver(&r);
        let first = d
            .frames
            .iter()
            .position(|f| !f.signon)
            .map_or(d.clean.len(), |i| d.starts[i]);
        if first < d.clean.len() {
            let o = rng.usize(first, d.clean.len() - 1);
            r.disk.push(DiskFault::Crash { at: pos_at(&d, o) });
        }
    }
    (vec![r], Plan::default())
}

fn client_of(s: &Slot) -> mvdparser::Client {
    mvdparser::Client {
        number: s.slot,
        name: s.name(),
        team: s.team(),
        color: s.colors(),
        is_spectator: s.spectator(),
        is_bot: s.bot(),
        auth_username: s.get("*auth"),
        auth_cc: s.get("*flag"),
    }
}

fn ok<T, E: std::fmt::Debug>(
    what: &str,
    r: Result<Result<T, E>, sut::Panicked>,
) -> Result<T, Violation> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(fail(format!("{what} fails"), format!("{what}: {e:?}"))),
        Err(p) => Err(panicked(what, p)),
    }
}

fn sorted_by_key(names: &[String]) -> bool {
    names
        .windows(2)
        .all(|w| model::sort_key(&w[0]) <= model::sort_key(&w[1]))
}

fn bag(names: &[String]) -> Vec<String> {
    let mut v = names.to_vec();
    v.sort();
    v
}

/// A crash before the end of the sign-on leaves less than the whole roster.
fn signed_on(d: &Delivered) -> bool {
    let first = d
        .frames
        .iter()
        .position(|f| !f.signon)
        .map_or(d.clean.len(), |i| d.starts[i]);
    d.bytes.len() >= first
}

pub fn eval_c09(s: &Scenario, ctx: &mut Ctx) -> Res {
    let d = ctx.deliver(&s.recs[0]);
    count_events(ctx, &d.frames);
    if !signed_on(&d) {
        return Ok(());
    }
    let roster = model::roster(&d.frames);
    let want: Vec<mvdparser::Client> = roster.iter().map(client_of).collect();
    ctx.nontrivial = want.len() >= 2;
    ctx.shape("clients", want.len() as u64);
    ctx.add("clients compared", want.len() as u64);
    let gaps = roster.windows(2).filter(|w| w[1].slot != w[0].slot + 1).count();
    ctx.add("gaps in the list", gaps as u64);
    ctx.add("spectators", want.iter().filter(|c| c.is_spectator).count() as u64);
    ctx.add("bots", want.iter().filter(|c| c.is_bot).count() as u64);
    if want.is_empty() {
        ctx.count("empty servers");
    }
    let data = &d.bytes[..];
    let spawned = model::find(data, b"\x09cmd spawn").is_some();
    if !spawned {
        return Ok(());
    }
    let got = ok("clients", sut::run(|| m::clients(data)))?;
    ctx.saw(&got);
    if got != want {
        let class = if got.len() < want.len() {
            "clients missing"
        } else if got.len() > want.len() {
            "clients invented"
        } else if got.iter().map(|c| &c.name).ne(want.iter().map(|c| &c.name)) {
            "client names or order"
        } else {
            "client details"
        };
        return Err(fail(class, list_diff(&got, &want)));
    }
    let strings = ok("clientinfo_strings", sut::run(|| m::clientinfo_strings(data)))?;
    let want_strings: Vec<String> = roster.iter().map(|s| sut::latin1(&s.string())).collect();
    ensure!(
        strings == want_strings,
        "client info strings",
        "{}",
        list_diff(&strings, &want_strings)
    );
    let infos = ok("clientinfo", sut::run(|| m::clientinfo(data)))?;
    ensure!(
        infos.len() == want.len()
            && infos
                .iter()
                .zip(&roster)
                .all(|(i, s)| i.name == s.get("name")
                    && i.team == s.get("team")
                    && i.client == s.get("*client")
                    && i.topcolor == s.int("topcolor")
                    && i.bottomcolor == s.int("bottomcolor")),
        "client info",
        "{infos:?}"
    );
    let (spectators, players): (Vec<_>, Vec<_>) = want.iter().cloned().partition(|c| c.is_spectator);
    let got = ok("player_clients", sut::run(|| m::player_clients(data)))?;
    ensure!(got == players, "player clients", "{}", list_diff(&got, &players));
    let got = ok("spectator_clients", sut::run(|| m::spectator_clients(data)))?;
    ensure!(got == spectators, "spectator clients", "{}", list_diff(&got, &spectators));
    for (what, got, of) in [
        ("player_names", ok("player_names", sut::run(|| m::player_names(data)))?, &players),
        (
            "spectator_names",
            ok("spectator_names", sut::run(|| m::spectator_names(data)))?,
            &spectators,
        ),
    ] {
        ctx.saw(&got);
        let names: Vec<String> = of.iter().map(|c| c.name.clone()).collect();
        ensure!(
            bag(&got) == bag(&names),
            format!("{what} are not the names"),
            "{got:?} instead of {names:?}"
        );
        ensure!(sorted_by_key(&got), format!("{what} out of order"), "{got:?}");
    }
    let teams = ok("team_names", sut::run(|| m::team_names(data)))?;
    let mut want_teams: Vec<String> = players.iter().map(|c| c.team.clone()).collect();
    want_teams.sort();
    want_teams.dedup();
    ctx.saw(&teams);
    ensure!(
        bag(&teams) == want_teams,
        "team names",
        "{teams:?} instead of {want_teams:?}"
    );
    ensure!(sorted_by_key(&teams), "team names out of order", "{teams:?}");
    // and those the statistics dump tells of
    let dump = sut::run(|| m::ktxstats_string(data)).map_err(|p| panicked("ktxstats_string", p))?;
    let in_dump = dump.is_ok_and(|t| match serde_json::from_str::<serde_json::Value>(&t) {
        Ok(v) => v["players"]
            .as_array()
            .is_some_and(|p| p.iter().any(|p| p["bot"].is_object())),
        Err(_) => t.contains("\"bot\": {"),
    });
    if in_dump {
        ctx.count("dumps with bots");
    }
    let bots = ok("has_bot_players", sut::run(|| m::has_bot_players(data)))?;
    let want_bots = players.iter().any(|c| c.is_bot) || in_dump;
    ensure!(bots == want_bots, "has_bot_players", "{bots} instead of {want_bots}");
    let humans = ok("has_human_players", sut::run(|| m::has_human_players(data)))?;
    let want_humans = players.iter().any(|c| !c.is_bot);
    ensure!(humans == want_humans, "has_human_players", "{humans} instead of {want_humans}");
    let any = sut::run(|| m::has_clients(data)).map_err(|p| panicked("has_clients", p))?;
    ensure!(any != want.is_empty(), "has_clients", "{any} with {} clients", want.len());
    Ok(())
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, PartialEq)]
pub struct P {
    name: String,
    team: String,
    color: [u8; 2],
    frags: i32,
    ping: u32,
    bot: bool,
    auth: Option<String>,
    cc: Option<String>,
}

impl From<&mvdparser::Player> for P {
    fn from(p: &mvdparser::Player) -> P {
        P {
            name: p.name.clone(),
            team: p.team.clone(),
            color: p.color,
            frags: p.frags,
            ping: p.ping,
            bot: p.is_bot,
            auth: p.auth_username.clone(),
            cc: p.auth_cc.clone(),
        }
    }
}

fn ranked(mut v: Vec<P>) -> Vec<P> {
    // insertion sort, so that equals keep their order
    for i in 1..v.len() {
        let mut j = i;
        while j > 0 {
            let (a, b) = (&v[j - 1], &v[j]);
            let after = b.frags > a.frags || (b.frags == a.frags && b.name < a.name);
            if !after {
                break;
            }
            v.swap(j - 1, j);
            j -= 1;
        }
    }
    v
}

/// Two of the same name and score may come in any order.
fn settled(v: &[P]) -> Vec<P> {
    let mut v = v.to_vec();
    for group in v.chunk_by_mut(|a, b| a.frags == b.frags && a.name == b.name) {
        group.sort_by_cached_key(|p| format!("{p:?}"));
    }
    v
}

/// Players as roster, obituaries and ping rounds tell; none without a ping round.
pub fn players_model(frames: &[Frame]) -> Option<Vec<P>> {
    let roster = model::roster(frames);
    let pings = model::pings(frames);
    if pings.is_empty() {
        return None;
    }
    let scores = model::scores(frames, &roster);
    Some(ranked(
        roster
            .iter()
            .filter(|s| !s.spectator())
            .map(|s| P {
                name: s.name(),
                team: s.team(),
                color: s.colors(),
                frags: *scores.get(&s.name()).unwrap_or(&0) as i32,
                ping: pings.get(&s.slot).map_or(0, |(sum, n)| (sum / n) as u32),
                bot: s.bot(),
                auth: s.get("*auth"),
                cc: s.get("*flag"),
            })
            .collect(),
    ))
}

/// Players as a statistics dump tells.
pub fn players_of_dump(text: &str) -> Option<Vec<P>> {
    let v: serde_json::Value = serde_json::from_str(text).ok()?;
    let list = v["players"].as_array()?;
    Some(ranked(
        list.iter()
            .map(|p| {
                let int = |k: &str| p[k].as_i64().unwrap_or(0);
                let s = |k: &str| p[k].as_str().unwrap_or("").to_string();
                P {
                    name: s("name"),
                    team: s("team"),
                    color: [int("top-color") as u8, int("bottom-color") as u8],
                    frags: p["stats"]["frags"].as_i64().unwrap_or(0) as i32,
                    ping: int("ping").max(0) as u32,
                    bot: p.get("bot").is_some_and(|b| !b.is_null()) || int("ping") == 10,
                    auth: Some(s("login")).filter(|l| !l.is_empty()),
                    cc: None,
                }
            })
            .collect(),
    ))
}

pub fn check_players(got: &[mvdparser::Player], want: &[P], class: &str) -> Res {
    let got: Vec<P> = got.iter().map(P::from).collect();
    if got == want {
        return Ok(());
    }
    if settled(&got) == settled(want) {
        return Ok(());
    }
    let names = |l: &[P]| bag(&l.iter().map(|p| p.name.clone()).collect::<Vec<_>>());
    let kind = if names(&got) != names(want) {
        "who"
    } else if got.iter().map(|p| &p.name).ne(want.iter().map(|p| &p.name)) {
        "order"
    } else {
        "details"
    };
    Err(fail(format!("{class}: {kind}"), list_diff(&got, want)))
}

fn check_teams(got: &[mvdparser::Team], players: &[P], exact_ping: bool, class: &str) -> Res {
    let mut names: Vec<String> = players.iter().map(|p| p.team.clone()).collect();
    names.sort_by(|a, b| (a.to_lowercase(), a).cmp(&(b.to_lowercase(), b)));
    names.dedup();
    let got_names: Vec<String> = got.iter().map(|t| t.name.clone()).collect();
    ensure!(
        got_names == names,
        format!("{class}: which teams, in which order"),
        "{got_names:?} instead of {names:?}"
    );
    for t in got {
        let here: Vec<P> = players.iter().filter(|p| p.team == t.name).cloned().collect();
        let listed: Vec<P> = t.players.iter().map(P::from).collect();
        ensure!(
            settled(&listed) == settled(&here),
            format!("{class}: players of a team"),
            "team {:?}: {}",
            t.name,
            list_diff(&listed, &here)
        );
        let frags: i64 = here.iter().map(|p| p.frags as i64).sum();
        // what the running sum passes through depends on the order
        let fits = here.iter().map(|p| (p.frags as i64).abs()).sum::<i64>() <= i32::MAX as i64;
        if fits {
            ensure!(
                t.frags as i64 == frags,
                format!("{class}: frags of a team"),
                "team {:?}: {} instead of {frags}",
                t.name,
                t.frags
            );
        }
        let (sum, n) = (
            here.iter().map(|p| p.ping as u64).sum::<u64>(),
            here.len() as u64,
        );
        let mean = (2 * sum + n) / (2 * n);
        let slack = if exact_ping && sum < 1 << 23 { 0 } else { 1 + mean / 1_000_000 };
        ensure!(
            (t.ping as u64).abs_diff(mean) <= slack,
            format!("{class}: ping of a team"),
            "team {:?}: {} instead of {mean} (sum {sum} of {n})",
            t.name,
            t.ping
        );
        let color = if listed.len() <= 2 {
            listed[0].color
        } else {
            let count = |c: [u8; 2]| listed.iter().filter(|p| p.color == c).count();
            let most = listed.iter().map(|p| count(p.color)).max().unwrap_or(0);
            listed.iter().find(|p| count(p.color) == most).unwrap().color
        };
        ensure!(
            t.color == color,
            format!("{class}: color of a team"),
            "team {:?}: {:?} instead of {color:?} of {:?}",
            t.name,
            t.color,
            here.iter().map(|p| p.color).collect::<Vec<_>>()
        );
    }
    Ok(())
}

pub fn gen_c10(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    let mut plan = Plan::default();
    if rng.p(0.2) {
        plan.note = "values".into();
        let extreme = rng.p(0.3);
        plan.players = c_damage::extreme_players(rng, extreme);
        return (
            vec![Recording {
                base: Base::Bytes { bytes: B::default() },
                net: vec![],
                disk: vec![],
            }],
            plan,
        );
    }
    let mut prof = swarm_profile(rng);
    prof.clients = *rng.pick(&[(1, 4), (2, 8), (6, 24)]);
    prof.ties = rng.p(0.6);
    prof.team_names = rng.usize(1, 6);
    if rng.p(0.2) {
        // who is who is then not to be told from an obituary that names only the victim
        prof.same_names = *rng.pick(&[0.1, 0.5]);
        prof = prof.weight(Ev::TeamkilledBy, 0.0);
    }
    prof.stats = *rng.pick(&[0.0, 0.4, 1.0]);
    prof = prof
        .weight(Ev::Kill, 10.0)
        .weight(Ev::Ping, 6.0)
        .weight(Ev::Suicide, 2.0)
        .weight(Ev::Join, 2.0);
    let mut r = sim(generate(rng, &prof));
    let damage_stats = rng.p(0.5);
    let stats: Vec<u32> = frames_of(&r)
        .iter()
        .filter(|f| f.parts.iter().any(|p| matches!(p, Part::Stats { .. })))
        .map(|f| f.tag)
        .collect();
    net_faults(rng, &mut r, 6);
    if !damage_stats {
        r.net.retain(|f| match f {
            NetFault::Drop { tag } | NetFault::Dup { tag, .. } | NetFault::Delay { tag, .. } => {
                !stats.contains(tag)
            }
            NetFault::Partition { .. } => stats.is_empty(),
        });
    }
    (vec![r], plan)
}

pub fn eval_c10(s: &Scenario, ctx: &mut Ctx) -> Res {
    if s.plan.note == "values" {
        ctx.count("lists of players as values");
        for p in &s.plan.players {
            ctx.key = mix(ctx.key, hash_bytes(format!("{p:?}").as_bytes()));
        }
        ctx.shape("players", s.plan.players.len() as u64);
        ctx.nontrivial = s.plan.players.len() >= 3;
        let players: Vec<mvdparser::Player> = s.plan.players.iter().map(sut::player).collect();
        let want: Vec<P> = players.iter().map(P::from).collect();
        let teams = sut::run(|| m::teams_from_players(&players))
            .map_err(|p| panicked("teams_from_players", p))?;
        ctx.saw(&teams);
        check_teams(&teams, &want, true, "teams of players")?;
        let mut got = players.clone();
        sut::run(|| got.sort_by(m::sort())).map_err(|p| panicked("sort", p))?;
        let got: Vec<P> = got.iter().map(P::from).collect();
        let want = ranked(want);
        ensure!(got == want, "players out of order", "{}", list_diff(&got, &want));
        return Ok(());
    }
    let d = ctx.deliver(&s.recs[0]);
    count_events(ctx, &d.frames);
    let data = &d.bytes[..];
    let parsed = players_model(&d.frames);
    ctx.nontrivial = model::roster(&d.frames).iter().filter(|s| !s.spectator()).count() >= 3;
    let got = sut::run(|| m::players_from_parsing(data))
        .map_err(|p| panicked("players_from_parsing", p))?;
    match (&got, &parsed) {
        (Ok(g), Some(w)) => {
            ctx.count("player lists put together");
            ctx.saw(g);
            check_players(g, w, "players from parsing")?;
        }
        (Err(_), None) => ctx.count("recordings without a ping round"),
        (Ok(g), None) => {
            // nothing says what the pings are; the people must still be right
            let names: Vec<String> = g.iter().map(|p| p.name.clone()).collect();
            let want: Vec<String> = model::roster(&d.frames)
                .iter()
                .filter(|s| !s.spectator())
                .map(|s| s.name())
                .collect();
            ensure!(
                bag(&names) == bag(&want),
                "players from parsing: who",
                "{names:?} instead of {want:?}"
            );
        }
        (Err(e), Some(_)) => {
            return Err(fail("players from parsing fail", format!("{e:?}")));
        }
    }
    let has_stats = d
        .frames
        .iter()
        .any(|f| f.parts.iter().any(|p| matches!(p, Part::Stats { .. })));
    // a loss right before the last block, which has no number, cannot be told from a whole dump
    let dump = dump_of(&d.frames)
        .filter(|t| dumps_written(frames_of(&s.recs[0])).contains(t))
        .and_then(|t| players_of_dump(&t));
    let readable = sut::run(|| m::ktxstats_v3(data)).map_err(|p| panicked("ktxstats_v3", p))?;
    let want = match &readable {
        Ok(_) => dump.clone(),
        Err(_) if dump.is_some() => dump.clone(),
        Err(_) => parsed.clone(),
    };
    let got = sut::run(|| m::players(data)).map_err(|p| panicked("players", p))?;
    let teams = sut::run(|| m::teams(data)).map_err(|p| panicked("teams", p))?;
    match (&got, &want) {
        (Ok(g), Some(w)) => {
            if dump.is_some() && has_stats {
                ctx.count("player lists from a dump");
            }
            check_players(g, w, "players")?;
        }
        (Err(e), Some(_)) => return Err(fail("players fail", format!("{e:?}"))),
        _ => {}
    }
    ensure!(
        got.is_ok() == teams.is_ok(),
        "teams without players",
        "players {:?}, teams {:?}",
        got.is_ok(),
        teams.is_ok()
    );
    if let (Ok(g), Ok(t)) = (&got, &teams) {
        ctx.saw(t);
        ctx.add("teams compared", t.len() as u64);
        let listed: Vec<P> = g.iter().map(P::from).collect();
        check_teams(t, &listed, true, "teams")?;
        // nobody twice, no spectator
        let people: usize = t.iter().map(|t| t.players.len()).sum();
        ensure!(
            people == g.len(),
            "teams: people",
            "{people} in teams, {} players",
            g.len()
        );
        if dump.is_none() && !has_stats {
            let roster = model::roster(&d.frames);
            let playing = |n: String| roster.iter().any(|s| !s.spectator() && s.name() == n);
            for s in roster.iter().filter(|s| s.spectator() && !playing(s.name())) {
                ensure!(
                    !g.iter().any(|p| p.name == s.name()),
                    "spectator among the players",
                    "{:?}",
                    s.name()
                );
            }
        }
    }
    if let (true, Some(_)) = (has_stats, &dump) {
        let stats = ok("ktxstats_v3", sut::run(|| m::ktxstats_v3(data)))?;
        let t = ok("teams_from_ktxstats", sut::run(|| m::teams_from_ktxstats(&stats)))?;
        ensure!(
            teams.as_ref().is_ok_and(|x| *x == t),
            "teams from the dump",
            "{t:?}"
        );
    }
    Ok(())
}

/// The texts of the dumps as the server wrote them.
fn dumps_written(frames: &[Frame]) -> Vec<String> {
    let heads: Vec<usize> = (0..frames.len()).filter(|i| head(&frames[*i])).collect();
    heads
        .iter()
        .enumerate()
        .filter_map(|(k, i)| dump_of(&frames[*i..heads.get(k + 1).copied().unwrap_or(frames.len())]))
        .collect()
}

// ---------------------------------------------------------------- C11

fn is_stats(f: &Frame) -> bool {
    matches!(f.parts.first(), Some(Part::Stats { .. }))
}

fn head(f: &Frame) -> bool {
    match f.parts.first() {
        Some(Part::Stats { content, .. }) => content.0.starts_with(b"{\"version\": "),
        _ => false,
    }
}

pub fn gen_c11(rng: &mut Rng, _i: u64) -> (Vec<Recording>, Plan) {
    let mut prof = swarm_profile(rng);
    prof.events = (0, 60);
    prof.clients = (1, 8);
    prof.stats = 1.0;
    prof.endings = [6.0, 0.0, 0.0, 3.0, 0.0];
    prof = prof.weight(Ev::Ping, 6.0);
    let mut r = sim(generate(rng, &prof));
    let Base::Sim { frames } = &mut r.base else {
        return (vec![r], Plan::default());
    };
    let mut tag = frames.iter().map(|f| f.tag).max().unwrap_or(0);
    // an earlier dump (of a match before a restart), or a second one
    for _ in 0..*rng.pick(&[0usize, 0, 1, 1, 2]) {
        let mut prof = Profile::general();
        prof.events = (0, 0);
        prof.clients = (1, 5);
        prof.stats = 1.0;
        prof.endings = [1.0, 0.0, 0.0, 0.0, 0.0];
        let other = generate(rng, &prof);
        let mut blocks: Vec<Frame> = other.rec.frames.into_iter().filter(is_stats).collect();
        for b in &mut blocks {
            tag += 1;
            b.tag = tag;
            b.signon = false;
        }
        let first = frames.iter().position(|f| !f.signon).unwrap_or(frames.len());
        let mut at = rng.usize(first, frames.len());
        // dumps are written one after the other
        while at < frames.len() && is_stats(&frames[at]) && !head(&frames[at]) {
            at += 1;
        }
        frames.splice(at..at, blocks);
    }
    // now the faults, at the dump
    let stats: Vec<u32> = frames.iter().filter(|f| is_stats(f)).map(|f| f.tag).collect();
    let last_head = frames.iter().rposition(head);
    let last: Vec<u32> = match last_head {
        Some(i) => frames[i..]
            .iter()
            .take_while(|f| is_stats(f))
            .map(|f| f.tag)
            .collect(),
        None => vec![],
    };
    let foreign = frames
        .iter()
        .filter(|f| !f.signon && !is_stats(f))
        .map(|f| f.tag)
        .collect::<Vec<_>>();
    if last.is_empty() {
        return (vec![r], Plan::default());
    }
    let mut plan = Plan::default();
    if rng.p(0.06) {
        // a byte of the last dump is no longer text
        let tag = *rng.pick(&last);
        let Some(f) = frames.iter().find(|f| f.tag == tag) else {
            return (vec![r], plan);
        };
        if let Some(Part::Stats { content, .. }) = f.parts.first() {
            let mut bytes = vec![];
            f.encode(&mut bytes);
            let from = if content.0.is_empty() {
                0
            } else {
                model::find(&bytes, &content.0).unwrap_or(0)
            };
            let skip = if head(f) { 12 } else { 0 };
            if from > 0 && content.0.len() > skip {
                let off = (from + rng.usize(skip, content.0.len() - 1)) as u32;
                r.disk.push(DiskFault::Over {
                    at: Pos { tag, off },
                    bytes: B(vec![*rng.pick(&[0xffu8, 0xfe, 0xc0, 0xf8])]),
                });
                plan.note = "not text".into();
            }
        }
        return (vec![r], plan);
    }
    for _ in 0..*rng.pick(&[0usize, 1, 1, 1, 2, 3]) {
        let pool = if rng.p(0.85) { &last } else { &stats };
        let i = rng.below(pool.len());
        let j = (i + 1 + rng.skewed(4)).min(pool.len() - 1);
        match rng.below(7) {
            0 | 1 => r.net.push(NetFault::Drop { tag: pool[i] }),
            2 => r.net.push(NetFault::Dup {
                tag: pool[i],
                after: pool[if rng.p(0.5) { i } else { j }],
            }),
            3 => r.net.push(NetFault::Delay {
                tag: pool[i],
                after: pool[j],
            }),
            4 => {
                // something else gets between the blocks
                if !foreign.is_empty() {
                    let f = *rng.pick(&foreign);
                    r.net.push(if rng.p(0.5) {
                        NetFault::Dup { tag: f, after: pool[i] }
                    } else {
                        NetFault::Delay { tag: f, after: pool[i] }
                    });
                }
            }
            5 => r.net.push(NetFault::Partition {
                from: pool[i],
                to: pool[j],
            }),
            _ => {
                let d = deliver(&r);
                let tag = pool[i];
                if let Some(k) = d.frames.iter().position(|f| f.tag == tag) {
                    let mut bytes = vec![];
                    d.frames[k].encode(&mut bytes);
                    let off = match rng.below(3) {
                        0 => rng.below(bytes.len().min(24)),
                        1 => bytes.len() - rng.below(bytes.len().min(6)),
                        _ => rng.below(bytes.len()),
                    };
                    r.disk.push(DiskFault::Crash {
                        at: Pos { tag, off: off as u32 },
                    });
                }
            }
        }
    }
    (vec![r], plan)
}

pub fn eval_c11(s: &Scenario, ctx: &mut Ctx) -> Res {
    let rec = &s.recs[0];
    let d = ctx.deliver(rec);
    count_events(ctx, &d.frames);
    // the dumps as they were written
    let written = frames_of(rec);
    let mut dumps: Vec<Vec<u32>> = vec![];
    for f in written {
        if head(f) {
            dumps.push(vec![f.tag]);
        } else if is_stats(f) {
            if let Some(d) = dumps.last_mut() {
                d.push(f.tag);
            }
        }
    }
    let content = |tag: &u32| -> (u16, Vec<u8>) {
        match written.iter().find(|f| f.tag == *tag).and_then(|f| f.parts.first()) {
            Some(Part::Stats { number, content }) => (*number, content.0.clone()),
            _ => (0, vec![]),
        }
    };
    let text = |tags: &[u32]| -> String {
        let all: Vec<u8> = tags.iter().flat_map(|t| content(t).1).collect();
        String::from_utf8_lossy(&all).into_owned()
    };
    let Some(last) = dumps.last().cloned() else {
        return Ok(());
    };
    // while a case is made smaller a dump may lose blocks for good
    let complete = |tags: &[u32]| {
        tags.iter().enumerate().all(|(i, t)| {
            let n = content(t).0 as usize;
            n == if i + 1 == tags.len() { 0 } else { i + 1 }
        })
    };
    if !dumps.iter().all(|t| complete(t)) {
        return Ok(());
    }
    ctx.nontrivial = true;
    ctx.shape("dumps", dumps.len() as u64);
    ctx.shape("blocks", last.len() as u64);
    ctx.add("dumps written", dumps.len() as u64);
    // what arrived, up to the crash
    let whole = d
        .frames
        .iter()
        .zip(&d.starts)
        .take_while(|(f, s)| {
            let mut b = vec![];
            f.encode(&mut b);
            **s + b.len() <= d.bytes.len()
        })
        .count();
    let left = &d.frames[..whole];
    let torn_head = d.frames.get(whole).is_some_and(|f| {
        head(f) && model::find(&d.bytes[d.starts[whole]..], b"{\"version\": ").is_some()
    });
    let from = if torn_head { None } else { left.iter().rposition(head) };
    let tags: Vec<u32> = match from {
        Some(i) => left[i..].iter().take_while(|f| is_stats(f)).map(|f| f.tag).collect(),
        None => vec![],
    };
    let numbers: Vec<u16> = tags.iter().map(|t| content(t).0).collect();
    let upto = numbers.iter().position(|n| *n == 0).map(|i| i + 1);
    let data = &d.bytes[..];
    let got = sut::run(|| m::ktxstats_string(data)).map_err(|p| panicked("ktxstats_string", p))?;
    ctx.saw(&got.as_ref().ok());
    let show = |t: &str| {
        let v: String = t.chars().take(60).collect();
        format!("{} bytes {v:?}…", t.len())
    };
    let whole_text = |t: &[u32]| dumps.iter().find(|x| x[..] == *t).map(|x| text(x));
    let mut judged = true;
    let spoilt = !d.fired.is_empty() && s.plan.note == "not text";
    match (upto, from) {
        _ if spoilt => {
            ctx.count("last dump is not text");
            if let Ok(t) = &got {
                return Err(fail("damaged dump returned", show(t)));
            }
        }
        (Some(n), _) if whole_text(&tags[..n]).is_some() => {
            // the last dump there is, in one piece
            let want = text(&tags[..n]);
            ctx.count(if tags[..n] == last[..] {
                "last dump in one piece"
            } else {
                "an earlier dump in one piece"
            });
            match &got {
                Ok(t) => ensure!(*t == want, "dump differs", "{} instead of {}", show(t), show(&want)),
                Err(e) => return Err(fail("whole dump refused", format!("{e:?}"))),
            }
        }
        (Some(n), _) if {
            // in order up to the loss right before the last block, which has no number
            let k = n - 1;
            numbers[..k].iter().enumerate().all(|(i, x)| *x as usize == i + 1)
        } =>
        {
            ctx.count("loss right before the last block (not judged)");
            judged = false;
        }
        _ => {
            ctx.count("damaged dump");
            if from.is_none() && !torn_head {
                ctx.count("no head left");
            }
            if let Ok(t) = &got {
                return Err(fail(
                    "damaged dump returned",
                    format!("{} from blocks {numbers:?}", show(t)),
                ));
            }
        }
    }
    // what is told from it
    let stats = sut::run(|| m::ktxstats_v3(data)).map_err(|p| panicked("ktxstats_v3", p))?;
    let players = sut::run(|| m::players(data)).map_err(|p| panicked("players", p))?;
    let teams = sut::run(|| m::teams(data)).map_err(|p| panicked("teams", p))?;
    let server = sut::run(|| m::server(data)).map_err(|p| panicked("server", p))?;
    let length = sut::run(|| m::match_duration(data)).map_err(|p| panicked("match_duration", p))?;
    let hoony = model::setting(&d.frames, "mode").as_deref() == Some("hoonymode");
    if !judged {
        return Ok(());
    }
    match &got {
        Ok(t) => {
            let v: serde_json::Value =
                serde_json::from_str(t).map_err(|e| fail("dump is no JSON", e.to_string()))?;
            let stats = stats.map_err(|e| fail("readable dump refused", format!("{e:?}")))?;
            ensure!(
                stats.map == v["map"].as_str().unwrap_or("")
                    && stats.mode == v["mode"].as_str().unwrap_or("")
                    && stats.demo == v["demo"].as_str().unwrap_or("")
                    && Some(stats.duration as u64) == v["duration"].as_u64()
                    && Some(stats.players.len()) == v["players"].as_array().map(|a| a.len()),
                "statistics differ from the dump",
                "{stats:?}"
            );
            let want = players_of_dump(t).unwrap_or_default();
            let players = players.map_err(|e| fail("players fail", format!("{e:?}")))?;
            check_players(&players, &want, "players of the dump")?;
            let teams = teams.map_err(|e| fail("teams fail", format!("{e:?}")))?;
            check_teams(&teams, &want, true, "teams of the dump")?;
            let server = server.map_err(|e| fail("server fails", format!("{e:?}")))?;
            let port = v["port"].as_u64().unwrap_or(0);
            let ip = v["ip"].as_str().unwrap_or("");
            ensure!(
                server.ip == ip
                    && server.port as u64 == port
                    && server.address == format!("{ip}:{port}")
                    && server.hostname == v["hostname"].as_str().unwrap_or(""),
                "server differs from the dump",
                "{server:?}"
            );
            if !hoony {
                let want = v["duration"].as_u64().map(std::time::Duration::from_secs);
                ensure!(
                    length.as_ref().ok().copied() == want,
                    "match duration differs from the dump",
                    "{length:?} instead of {want:?}"
                );
            }
        }
        Err(_) => {
            ensure!(
                stats.is_err() && server.is_err(),
                "statistics without a dump",
                "{:?} {:?}",
                stats.is_ok(),
                server.is_ok()
            );
            // as if it had never been written
            let mut bare = rec.clone();
            if let Base::Sim { frames } = &mut bare.base {
                for f in frames {
                    if is_stats(f) {
                        f.parts = vec![Part::Hidden {
                            kind: 9,
                            number: 0,
                            content: B::default(),
                        }];
                    }
                }
            }
            let crash = bare.disk.clone();
            bare.disk.clear();
            let bare = deliver(&bare);
            if crash.is_empty() {
                let bare = &bare.bytes[..];
                let a = sut::run(|| m::players(bare)).map_err(|p| panicked("players", p))?;
                let b = sut::run(|| m::teams(bare)).map_err(|p| panicked("teams", p))?;
                let c = sut::run(|| m::match_duration(bare))
                    .map_err(|p| panicked("match_duration", p))?;
                ensure!(
                    players.as_ref().ok() == a.as_ref().ok(),
                    "players depend on an unreadable dump",
                    "{players:?} instead of {a:?}"
                );
                ensure!(
                    teams.as_ref().ok() == b.as_ref().ok(),
                    "teams depend on an unreadable dump",
                    "{teams:?} instead of {b:?}"
                );
                ensure!(
                    length.as_ref().ok() == c.as_ref().ok(),
                    "match duration depends on an unreadable dump",
                    "{length:?} instead of {c:?}"
                );
            }
            let a = sut::run(|| m::players_from_parsing(data))
                .map_err(|p| panicked("players_from_parsing", p))?;
            ensure!(
                players.as_ref().ok() == a.as_ref().ok(),
                "players without a dump",
                "{players:?} instead of {a:?}"
            );
            let a = sut::run(|| m::match_duration_from_seeking(data))
                .map_err(|p| panicked("match_duration_from_seeking", p))?;
            ensure!(
                length.as_ref().ok() == a.as_ref().ok(),
                "match duration without a dump",
                "{length:?} instead of {a:?}"
            );
        }
    }
    Ok(())
}
