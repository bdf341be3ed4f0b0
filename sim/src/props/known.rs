//! Findings that are recorded rather than repaired (see /verif/known-findings.txt): one probe
//! each, on the specific input. The simulations keep clear of exactly these inputs.

use super::*;
use mvdparser::all as m;

fn frame(parts: Vec<Part>) -> Frame {
    Frame {
        tag: 0,
        ms: 0,
        ty: 6,
        mask: 0,
        parts,
        rep: 1,
        signon: true,
    }
}

fn bytes(frames: &[Frame]) -> Vec<u8> {
    let mut v = vec![];
    for f in frames {
        f.encode(&mut v);
    }
    v
}

fn slot(n: u8, info: &[(&str, &str)]) -> Part {
    Part::Slot(Slot {
        slot: n,
        uid: n as u32 + 1,
        info: info.iter().map(|(k, v)| (B::s(k), B::s(v))).collect(),
        ..Default::default()
    })
}

fn spawn() -> Frame {
    frame(vec![Part::Stuff(B::s("cmd spawn 1 0\n"))])
}

fn names(d: &[u8]) -> Vec<String> {
    sut::run(|| m::clients(d))
        .ok()
        .and_then(|r| r.ok())
        .map(|v| v.into_iter().map(|c| c.name).collect())
        .unwrap_or_default()
}

fn say(text: &str) -> Frame {
    frame(vec![Part::Print { id: 3, text: B::s(text) }])
}

pub fn c07() -> Vec<(String, bool)> {
    let over = |id: u8| Part::Print {
        id,
        text: B::s("The match is over\n"),
    };
    let mut frames = vec![
        frame(vec![Part::Print { id: 2, text: B::s("matchdate: 2024-05-01 12:00:00 CEST\n") }]),
        frame(vec![Part::Print { id: 2, text: B::s("The match has begun!\n") }]),
    ];
    for (i, id) in [2u8, 3].into_iter().enumerate() {
        let mut pause = frame(vec![]);
        pause.ms = 250;
        pause.rep = 8 * (i as u32 + 1);
        frames.push(pause);
        frames.push(frame(vec![over(id)]));
    }
    let seconds = sut::run(|| m::match_duration_from_seeking(&bytes(&frames)))
        .ok()
        .and_then(|r| r.ok())
        .map(|d| d.as_secs());
    vec![(
        "a chat message with the words \"The match is over\" after the end prolongs the measured match".into(),
        seconds != Some(2),
    )]
}

pub fn c11() -> Vec<(String, bool)> {
    let dump = Part::Stats {
        number: 0,
        content: B::s("{\"version\": 3, \"date\": \"\", \"map\": \"dm3\", \"players\": []}"),
    };
    let d = bytes(&[frame(vec![dump]), say("bob: {\"version\": \n")]);
    vec![(
        "a chat message with the words {\"version\":  after the statistics dump hides the dump".into(),
        sut::run(|| m::ktxstats_string(&d).is_err()).unwrap_or(true),
    )]
}

pub fn c09() -> Vec<(String, bool)> {
    let mut gap = vec![slot(0, &[("name", "first")])];
    for n in 1..31 {
        gap.push(slot(n, &[]));
    }
    gap.push(slot(31, &[("name", "last")]));
    let gap = bytes(&[spawn(), frame(gap), frame(vec![Part::Fill(900)])]);
    let update = bytes(&[
        spawn(),
        frame(vec![slot(0, &[("name", "first")])]),
        frame(vec![Part::Raw(B(
            [&[40u8, 0, 1, 0, 0, 0][..], b"\\name\\renamed\0"].concat(),
        ))]),
        frame(vec![Part::Fill(900)]),
    ]);
    vec![
        (
            "a client behind a gap of thirty consecutive empty slots (only slots 0 and 31 occupied) is not listed".into(),
            names(&gap) != ["first", "last"],
        ),
        (
            "a user info update recorded within 512 bytes after the last listed client is taken for another client".into(),
            names(&update) != ["first"],
        ),
    ]
}

pub fn c12() -> Vec<(String, bool)> {
    let d = bytes(&[frame(vec![Part::Print {
        id: 3,
        text: B::s("bob: who paused the game?\n"),
    }])]);
    vec![(
        "a chat message with the words \"paused the game\" in an unfinished recording counts as a pause".into(),
        sut::run(|| mvdparser::is_paused(&d)).unwrap_or(true),
    )]
}

pub fn c13() -> Vec<(String, bool)> {
    let with = |b: u8| {
        bytes(&[frame(vec![Part::Settings(vec![
            (B::s("hostname"), B([&b"a"[..], &[b], b"map"].concat())),
            (B::s("map"), B::s("dm3")),
        ])])])
    };
    let map = |d: &[u8]| {
        sut::run(|| m::serverinfo(d))
            .ok()
            .and_then(|r| r.ok())
            .map(|s| (s.hostname, s.map))
    };
    vec![
        (
            "a colored backslash (byte 0xDC) in a settings value splits the settings text at that place".into(),
            map(&with(0xDC)) != Some((Some("a\\map".into()), Some("dm3".into()))),
        ),
        (
            "a colored quote (byte 0xA2) in a settings value is missing from the parsed setting".into(),
            map(&with(0xA2)) != Some((Some("a\"map".into()), Some("dm3".into()))),
        ),
    ]
}

pub fn c14() -> Vec<(String, bool)> {
    let mut words = b"bob".to_vec();
    words.extend(flag_words(FlagDeed::Got, true));
    let d = bytes(&[frame(vec![
        Part::Frags { slot: 8, frags: 1 },
        Part::Print { id: 2, text: B(words) },
    ])]);
    let n = sut::run(|| m::flag_events_per_player_name(&d).len()).unwrap_or(0);
    vec![(
        "a score update for slot 8 ahead of a flag announcement in the same frame hides the announcement".into(),
        n != 1,
    )]
}
