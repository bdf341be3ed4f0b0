//! One recording, one story: everything that is reported about it fits together (C17),
//! whatever became of it on the way.

use super::*;
use crate::ensure;
use mvdparser::all as m;

pub fn gen_c17(rng: &mut Rng, i: u64) -> (Vec<Recording>, Plan) {
    let bytes = |b: B| Recording {
        base: Base::Bytes { bytes: b },
        net: vec![],
        disk: vec![],
    };
    let mut r = match i % 16 {
        0 => corpus(rng, 60_000).unwrap_or_else(|| bytes(c_damage::soup(rng))),
        1..=3 => bytes(c_damage::soup(rng)),
        _ => {
            let p = c_damage::small(rng);
            let mut r = sim(generate(rng, &p));
            if rng.p(0.5) {
                net_faults(rng, &mut r, 4);
            }
            r
        }
    };
    if rng.p(0.8) {
        let n = rng.usize(1, 4);
        disk_faults(rng, &mut r, n);
    }
    (vec![r], Plan::default())
}

fn ran<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    crate::seams::set_progress("C17");
    sut::run(f).map_err(|p| panicked(what, p))
}

pub fn eval_c17(s: &Scenario, ctx: &mut Ctx) -> Res {
    let del = ctx.deliver(&s.recs[0]);
    let d = &del.bytes[..];
    ctx.nontrivial = !del.intact() || del.frames.is_empty();
    people(d, ctx)?;
    header(d, ctx)?;
    statistics(d, ctx)?;
    times(d, ctx)?;
    texts(d, ctx)
}

fn people(d: &[u8], ctx: &mut Ctx) -> Res {
    let all = ran("clients", || m::clients(d).ok())?;
    let players = ran("player_clients", || m::player_clients(d).ok())?;
    let spectators = ran("spectator_clients", || m::spectator_clients(d).ok())?;
    let player_names = ran("player_names", || m::player_names(d).ok())?;
    let spectator_names = ran("spectator_names", || m::spectator_names(d).ok())?;
    let teams = ran("team_names", || m::team_names(d).ok())?;
    let bots = ran("has_bot_players", || m::has_bot_players(d).ok())?;
    let humans = ran("has_human_players", || m::has_human_players(d).ok())?;
    let info = ran("clientinfo", || m::clientinfo(d).ok())?;
    let strings = ran("clientinfo_strings", || m::clientinfo_strings(d).ok())?;
    let any = ran("has_clients", || m::has_clients(d))?;
    ctx.saw((&all, &player_names, &spectator_names, &teams, bots, humans));
    let known = [
        ("player_clients", players.is_some()),
        ("spectator_clients", spectators.is_some()),
        ("player_names", player_names.is_some()),
        ("spectator_names", spectator_names.is_some()),
        ("team_names", teams.is_some()),
        ("has_bot_players", bots.is_some()),
        ("has_human_players", humans.is_some()),
        ("clientinfo", info.is_some()),
        ("clientinfo_strings", strings.is_some()),
    ];
    for (name, is) in known {
        ensure!(
            is == all.is_some(),
            "people: known or not",
            "clients is an error: {}, {name} is an error: {}",
            all.is_none(),
            !is
        );
    }
    let Some(all) = all else {
        ensure!(!any, "has_clients", "has clients, but there is no list of them");
        ctx.count("without a roster");
        return Ok(());
    };
    ctx.count("with a roster");
    ctx.shape("clients", all.len() as u64);
    ensure!(
        any == !all.is_empty(),
        "has_clients",
        "has_clients is {any}, clients are {all:?}"
    );
    let (info, strings) = (info.unwrap(), strings.unwrap());
    ensure!(
        info.len() == all.len() && strings.len() == all.len(),
        "clientinfo",
        "{} clients, {} infos, {} strings",
        all.len(),
        info.len(),
        strings.len()
    );
    for (c, i) in all.iter().zip(&info) {
        ensure!(
            c.name == i.name.clone().unwrap_or_default() && c.team == i.team.clone().unwrap_or_default(),
            "clientinfo",
            "client {c:?} with the info {i:?}"
        );
    }
    let of = |spectator: bool| {
        all.iter()
            .filter(|c| c.is_spectator == spectator)
            .cloned()
            .collect::<Vec<_>>()
    };
    let (players, spectators) = (players.unwrap(), spectators.unwrap());
    ensure!(
        players == of(false) && spectators == of(true),
        "players and spectators",
        "players {players:?} and spectators {spectators:?} of {all:?}"
    );
    let sorted = |mut v: Vec<String>| {
        v.sort();
        v
    };
    for (what, names, list) in [
        ("player_names", player_names.unwrap(), &players),
        ("spectator_names", spectator_names.unwrap(), &spectators),
    ] {
        let expected: Vec<String> = list.iter().map(|c| c.name.clone()).collect();
        ensure!(
            sorted(names.clone()) == sorted(expected),
            "names",
            "{what} are {names:?} of {list:?}"
        );
    }
    let teams = teams.unwrap();
    let mut expected = sorted(players.iter().map(|c| c.team.clone()).collect());
    expected.dedup();
    ensure!(
        sorted(teams.clone()) == expected,
        "team names",
        "team names {teams:?} of {players:?}"
    );
    ensure!(
        humans == Some(players.iter().any(|c| !c.is_bot)),
        "humans",
        "human players: {humans:?} of {players:?}"
    );
    let on_list = players.iter().any(|c| c.is_bot);
    let in_dump = ran("ktxstats_string", || m::ktxstats_string(d).is_ok())?;
    ensure!(
        if on_list { bots == Some(true) } else { in_dump || bots == Some(false) },
        "bots",
        "bot players: {bots:?} of {players:?}, dump: {in_dump}"
    );
    // the players, joined
    let joined = ran("players_from_parsing", || m::players_from_parsing(d).ok())?;
    let pings = ran("ping_per_player_number", || m::ping_per_player_number(d).ok())?;
    let frags = ran("frags_per_player_name", || m::frags_per_player_name(d))?;
    ctx.saw(&joined);
    let (Some(joined), Some(pings)) = (joined, pings) else {
        return Ok(());
    };
    ctx.count("players joined");
    let mut slots: Vec<u8> = players.iter().map(|c| c.number).collect();
    slots.sort();
    slots.dedup();
    ensure!(
        joined.len() == slots.len(),
        "players: number",
        "{joined:?} of {players:?}"
    );
    for p in &joined {
        ensure!(
            players.iter().any(|c| {
                (&c.name, &c.team, c.color, c.is_bot, &c.auth_username, &c.auth_cc)
                    == (&p.name, &p.team, p.color, p.is_bot, &p.auth_username, &p.auth_cc)
                    && pings.get(&c.number).copied().unwrap_or(0) == p.ping
            }) && frags.get(&p.name).copied().unwrap_or(0) == p.frags,
            "players: joined",
            "{p:?} of {players:?}, pings {pings:?}, frags {frags:?}"
        );
    }
    Ok(())
}

fn header(d: &[u8], ctx: &mut Ctx) -> Res {
    let string = ran("serverinfo_string", || m::serverinfo_string(d).ok())?;
    let settings = ran("serverinfo", || m::serverinfo(d).ok())?;
    let filename = ran("filename", || mvdparser::filename(d).ok())?;
    let epoch = ran("timestamp_from_epoch", || m::timestamp_from_epoch(d).ok())?;
    let date = ran("matchdate", || m::matchdate(d).ok())?;
    let date_string = ran("matchdate_string", || m::matchdate_string(d).ok())?;
    let time = ran("timestamp", || m::timestamp(d).ok())?;
    ctx.saw((&string, &filename, epoch, date, time));
    ensure!(
        settings.is_some() == string.is_some(),
        "serverinfo",
        "serverinfo {settings:?} of {string:?}"
    );
    ensure!(
        filename == settings.as_ref().and_then(|s| s.serverdemo.clone()),
        "filename",
        "file name {filename:?} of {settings:?}"
    );
    ensure!(
        epoch.map(|t| t.timestamp()) == settings.as_ref().and_then(|s| s.epoch).map(|e| e as i64),
        "timestamp_from_epoch",
        "{epoch:?} of {settings:?}"
    );
    ensure!(
        date.is_none() || date_string.is_some(),
        "matchdate",
        "{date:?} from nothing"
    );
    ensure!(
        time == epoch.or(date),
        "timestamp",
        "timestamp {time:?}, epoch {epoch:?}, matchdate {date:?}"
    );
    let end = ran("has_end_of_demo_print", || m::has_end_of_demo_print(d))?;
    let valid = ran("is_valid", || m::is_valid(d))?;
    let any = ran("has_clients", || m::has_clients(d))?;
    let paused = ran("is_paused", || mvdparser::is_paused(d))?;
    ctx.saw((valid, paused));
    ensure!(
        valid == (d.len() >= 1024 && end && settings.is_some() && any),
        "is_valid",
        "valid: {valid}, {} bytes, end {end}, serverinfo {}, clients {any}",
        d.len(),
        settings.is_some()
    );
    ensure!(!(paused && end), "is_paused", "paused, and at its end");
    if valid {
        ctx.count("valid");
    }
    Ok(())
}

fn statistics(d: &[u8], ctx: &mut Ctx) -> Res {
    let string = ran("ktxstats_string", || m::ktxstats_string(d).ok())?;
    let stats = ran("ktxstats_v3", || m::ktxstats_v3(d).ok())?;
    let players = ran("players", || m::players(d).ok())?;
    let teams = ran("teams", || m::teams(d).ok())?;
    let server = ran("server", || m::server(d).ok())?;
    ctx.saw((&players, &teams, &server));
    let parsed = string
        .as_deref()
        .and_then(|s| mvdparser::KtxstatsV3::try_from(s).ok());
    ensure!(
        dbg_eq(&parsed, &stats),
        "ktxstats_v3",
        "statistics {} from {string:?}",
        stats.is_some()
    );
    let expected = match &stats {
        Some(s) => ran("players_from_ktxstats", || m::players_from_ktxstats(s).ok())?,
        None => ran("players_from_parsing", || m::players_from_parsing(d).ok())?,
    };
    ensure!(
        players == expected,
        "players",
        "players {players:?}, dump {}: {expected:?}",
        stats.is_some()
    );
    let expected = match &players {
        Some(p) => Some(ran("teams_from_players", || m::teams_from_players(p))?),
        None => None,
    };
    ensure!(teams == expected, "teams", "teams {teams:?} of {expected:?}");
    ensure!(
        server.as_ref().map(|s| (&s.hostname, &s.ip, s.port))
            == stats.as_ref().map(|s| (&s.hostname, &s.ip, s.port))
            && server.as_ref().is_none_or(|s| s.address == format!("{}:{}", s.ip, s.port)),
        "server",
        "server {server:?}"
    );
    if let (Some(players), Some(teams)) = (&players, &teams) {
        ctx.count("teams");
        ctx.shape("players", players.len() as u64);
        let mut within: Vec<String> = teams
            .iter()
            .flat_map(|t| t.players.iter().map(|p| format!("{} {p:?}", t.name)))
            .collect();
        let mut each: Vec<String> = players.iter().map(|p| format!("{} {p:?}", p.team)).collect();
        within.sort();
        each.sort();
        ensure!(
            within == each,
            "teams: people",
            "teams {teams:?} of {players:?}"
        );
        ensure!(
            players.windows(2).all(|w| w[0].frags >= w[1].frags),
            "players: order",
            "{players:?}"
        );
    }
    Ok(())
}

fn dbg_eq<T: std::fmt::Debug>(a: &T, b: &T) -> bool {
    // maps in it have no order
    let key = |v: &T| {
        let mut t: Vec<u8> = format!("{v:?}").into_bytes();
        t.sort_unstable();
        t
    };
    key(a) == key(b)
}

fn times(d: &[u8], ctx: &mut Ctx) -> Res {
    let ms = |t: Option<std::time::Duration>| t.map(|t| t.as_millis());
    let demo = ms(ran("demo_duration", || m::demo_duration(d).ok())?);
    let countdown = ms(ran("countdown_duration", || m::countdown_duration(d).ok())?);
    let sought = ms(ran("match_duration_from_seeking", || m::match_duration_from_seeking(d).ok())?);
    let told = ran("match_duration_from_ktxstats", || m::match_duration_from_ktxstats(d).ok())?;
    let whole = ran("match_duration", || m::match_duration(d).ok())?;
    let hoony = ran("serverinfo", || m::serverinfo(d).ok())?
        .is_some_and(|s| s.mode.as_deref() == Some("hoonymode"));
    let dump = ran("ktxstats_string", || m::ktxstats_string(d).is_ok())?;
    ctx.saw((demo, countdown, sought, told, whole));
    let total = Some(u128::from(model::bytes::ms_until(d, d.len())));
    ensure!(
        demo <= total && countdown <= total,
        "durations: total",
        "demo {demo:?} and countdown {countdown:?} of {total:?} ms"
    );
    ensure!(
        sought == demo.map(|t| t.saturating_sub(countdown.unwrap_or(0))),
        "match_duration_from_seeking",
        "{sought:?} ms, demo {demo:?}, countdown {countdown:?}"
    );
    if hoony {
        ensure!(
            countdown == Some(0),
            "countdown_duration",
            "hoonymode with countdown of {countdown:?} ms"
        );
    }
    ensure!(
        dump || told.is_none(),
        "match_duration_from_ktxstats",
        "{told:?} from no dump"
    );
    ensure!(
        match told {
            Some(t) if !hoony => whole == Some(t),
            _ => ms(whole) == sought,
        },
        "match_duration",
        "{whole:?}, dump {told:?}, sought {sought:?} ms, hoonymode {hoony}"
    );
    if countdown.is_some() {
        ctx.count("countdowns");
    }
    Ok(())
}

fn texts(d: &[u8], ctx: &mut Ctx) -> Res {
    let prints = sut::prints(d).map_err(|p| panicked("prints", p))?;
    let frags = ran("frags_per_player_name", || m::frags_per_player_name(d))?;
    let flags = ran("flag_events_per_player_name", || m::flag_events_per_player_name(d))?;
    ctx.saw(&prints);
    ctx.shape("prints", prints.len() as u64);
    ctx.shape("scores", frags.len() as u64);
    ctx.shape("flags", flags.len() as u64);
    ensure!(
        prints.windows(2).all(|w| w[0] != w[1]),
        "prints: repeats",
        "repeated: {}",
        show_prints(&prints)
    );
    // each of them is there, after the one before
    let mut at = 0;
    for (level, text) in &prints {
        ensure!(!text.is_empty(), "prints: empty", "an empty print");
        let mut shape = match *level {
            0xDEAD => vec![],
            level => vec![8, level as u8],
        };
        shape.extend_from_slice(text);
        shape.push(0);
        let Some(found) = model::find(&d[at..], &shape) else {
            return Err(fail(
                "prints: order",
                format!("{:?} is not in the recording after {at}", sut::latin1(text)),
            ));
        };
        at += found + shape.len();
    }
    ctx.add("prints located", prints.len() as u64);
    if !frags.is_empty() {
        let texts: Vec<String> = prints
            .iter()
            .filter(|p| p.0 == 1)
            .map(|p| B(p.1.clone()).text())
            .collect();
        let names: Vec<String> = ran("clients", || m::clients(d).ok())?
            .unwrap_or_default()
            .into_iter()
            .map(|c| c.name)
            .collect();
        for n in frags.keys() {
            ensure!(
                names.contains(n) || texts.iter().any(|t| t.contains(n.as_str())),
                "frags: names",
                "{n:?} has frags and is nowhere in {texts:?}"
            );
            ctx.count("scores traced");
        }
    }
    Ok(())
}
