//! The code under test, function by function, with one canonical text per result.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

use mvdparser::all as m;

use crate::scen::{Plan, PlayerIn};
use crate::seams::{outside, sut, Usage};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Keeps the message of a panic instead of printing it.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        outside(|| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let place = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let text = format!("{msg} ({place})");
            if std::env::var_os("DST_PANICS").is_some() {
                eprintln!("panic: {text}");
            }
            if let Ok(mut l) = LAST.try_lock() {
                l.clone_from(&text);
            }
            PANIC.with(|p| *p.borrow_mut() = text);
        })
    }));
}

/// Message of the last panic of this thread or, in the main thread, of any.
pub fn last_panic() -> String {
    LAST.lock().map(|s| s.clone()).unwrap_or_default()
}

static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// A call that panicked, with its message.
#[derive(Debug, Clone, PartialEq)]
pub struct Panicked(pub String);

pub fn guarded<T>(f: impl FnOnce() -> T) -> (Result<T, Panicked>, Usage) {
    let (r, usage) = sut(|| catch_unwind(AssertUnwindSafe(f)));
    (
        r.map_err(|_| Panicked(PANIC.with(|p| p.borrow().clone()))),
        usage,
    )
}

fn kept<T>(f: impl FnOnce() -> T) -> i64 {
    sut(|| drop(catch_unwind(AssertUnwindSafe(f)))).1.kept
}

/// Runs `f` as code under test; a panic is passed on as a harness-visible failure.
pub fn run<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    guarded(f).0
}

type CallFn = fn(&[u8]) -> (Result<String, Panicked>, Usage);

pub struct Api {
    pub name: &'static str,
    pub call: CallFn,
    /// What the function still holds when it has returned and its result is gone.
    pub kept: fn(&[u8]) -> i64,
    /// Reads the statistics dump into a structure.
    pub json: bool,
}

fn text<T: Debug, E: Debug>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => {
            let t = format!("{e:?}");
            format!("Err({})", t.lines().next().unwrap_or(""))
        }
    }
}

fn sorted<K: Ord + Debug, V: Debug>(m: std::collections::HashMap<K, V>) -> String {
    format!("{:?}", m.into_iter().collect::<BTreeMap<_, _>>())
}

macro_rules! api {
    ($name:literal, $f:expr, $show:expr) => {
        Api {
            name: $name,
            json: false,
            call: |d| {
                let (r, u) = guarded(|| $f(d));
                (r.map($show), u)
            },
            kept: |d| kept(|| $f(d)),
        }
    };
    (json $name:literal, $f:expr, $show:expr) => {
        Api {
            name: $name,
            json: true,
            call: |d| {
                let (r, u) = guarded(|| $f(d));
                (r.map($show), u)
            },
            kept: |d| kept(|| $f(d)),
        }
    };
}

fn dbg<T: Debug>(v: T) -> String {
    format!("{v:?}")
}

pub fn prints(d: &[u8]) -> Result<Vec<(u16, Vec<u8>)>, Panicked> {
    run(|| m::prints(d)).map(|list| {
        list.into_iter()
            .map(|p| (level_name(&format!("{:?}", p.id)), p.content))
            .collect()
    })
}

fn level_name(s: &str) -> u16 {
    match s {
        "Low" => 0,
        "Medium" => 1,
        "High" => 2,
        "Chat" => 3,
        _ => 0xDEAD,
    }
}

pub static APIS: &[Api] = &[
    api!("is_aborted", m::is_aborted, dbg),
    api!("is_paused", mvdparser::is_paused, dbg),
    api!("is_valid", m::is_valid, dbg),
    api!("has_clients", m::has_clients, dbg),
    api!("has_end_of_demo_print", m::has_end_of_demo_print, dbg),
    api!("clientinfo", m::clientinfo, text),
    api!("clientinfo_strings", m::clientinfo_strings, text),
    api!("clients", m::clients, text),
    api!("player_clients", m::player_clients, text),
    api!("spectator_clients", m::spectator_clients, text),
    api!("player_names", m::player_names, text),
    api!("spectator_names", m::spectator_names, text),
    api!("team_names", m::team_names, text),
    api!("has_bot_players", m::has_bot_players, text),
    api!("has_human_players", m::has_human_players, text),
    api!("countdown_duration", m::countdown_duration, text),
    api!("demo_duration", m::demo_duration, text),
    api!("match_duration", m::match_duration, text),
    api!("match_duration_from_seeking", m::match_duration_from_seeking, text),
    api!(
        "match_duration_from_ktxstats",
        m::match_duration_from_ktxstats,
        text
    ),
    api!("filename", mvdparser::filename, text),
    api!("flag_events_per_player_name", m::flag_events_per_player_name, sorted),
    api!("frags_per_player_name", m::frags_per_player_name, sorted),
    api!("ktxstats_string", m::ktxstats_string, text),
    api!(json "ktxstats_v3", m::ktxstats_v3, text),
    api!("matchdate", m::matchdate, text),
    api!("matchdate_string", m::matchdate_string, text),
    Api {
        name: "ping_per_player_number",
        json: false,
        kept: |d| kept(|| m::ping_per_player_number(d)),
        call: |d| {
            let (r, u) = guarded(|| m::ping_per_player_number(d));
            (
                r.map(|r| text(r.map(|m| m.into_iter().collect::<BTreeMap<_, _>>()))),
                u,
            )
        },
    },
    api!(json "players", m::players, text),
    api!("players_from_parsing", m::players_from_parsing, text),
    Api {
        name: "prints",
        json: false,
        kept: |d| kept(|| m::prints(d)),
        call: |d| {
            let (r, u) = guarded(|| m::prints(d));
            (
                r.map(|v| {
                    format!(
                        "{:?}",
                        v.iter()
                            .map(|p| (
                                format!("{:?}", p.id),
                                p.content.iter().map(|b| *b as char).collect::<String>()
                            ))
                            .collect::<Vec<_>>()
                    )
                }),
                u,
            )
        },
    },
    api!(json "server", m::server, text),
    api!("serverinfo", m::serverinfo, text),
    api!("serverinfo_string", m::serverinfo_string, text),
    api!(json "teams", m::teams, text),
    api!("timestamp", m::timestamp, text),
    api!("timestamp_from_epoch", m::timestamp_from_epoch, text),
    api!(
        "teams_from_players(players_from_parsing)",
        |d| m::players_from_parsing(d).map(|p| m::teams_from_players(&p)),
        text
    ),
    api!(json "players_from_ktxstats(ktxstats_v3)", |d| m::ktxstats_v3(d).and_then(|s| m::players_from_ktxstats(&s)), text),
    api!(json "teams_from_ktxstats(ktxstats_v3)", |d| m::ktxstats_v3(d).and_then(|s| m::teams_from_ktxstats(&s)), text),
];

pub fn api(name: &str) -> u16 {
    APIS.iter()
        .position(|a| a.name == name)
        .unwrap_or_else(|| panic!("no function {name}")) as u16
}

pub fn latin1(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}

pub fn player(p: &PlayerIn) -> mvdparser::Player {
    mvdparser::Player {
        name: p.name.text(),
        team: p.team.text(),
        color: p.color,
        frags: p.frags,
        ping: p.ping,
        is_bot: p.is_bot,
        auth_username: None,
        auth_cc: None,
    }
}

/// The functions on values, with the values of the plan. Name of the call and its outcome.
pub fn value_calls(plan: &Plan) -> Vec<(&'static str, Result<String, Panicked>)> {
    let mut v = vec![];
    if !plan.players.is_empty() {
        let players: Vec<_> = plan.players.iter().map(player).collect();
        v.push((
            "teams_from_players",
            run(|| m::teams_from_players(&players)).map(dbg),
        ));
        v.push((
            "Team::from",
            run(|| mvdparser::Team::from(&players[..])).map(dbg),
        ));
        let mut sorted = players.clone();
        v.push(("sort", run(|| sorted.sort_by(m::sort())).map(dbg)));
    }
    for s in &plan.stats {
        let s = String::from_utf8_lossy(&s.0).into_owned();
        if let Ok(stats) = mvdparser::KtxstatsV3::try_from(s.as_str()) {
            v.push((
                "players_from_ktxstats",
                run(|| m::players_from_ktxstats(&stats)).map(text),
            ));
            v.push((
                "teams_from_ktxstats",
                run(|| m::teams_from_ktxstats(&stats)).map(text),
            ));
            v.push(("Server::from", run(|| mvdparser::Server::from(&stats)).map(dbg)));
        }
    }
    v
}
