//! The properties: for each one how worlds and faults are drawn and how a run is judged.

use std::collections::BTreeMap;

use crate::deliver::{corpus_bytes, corpus_len, corpus_names, deliver, whole_frames, Delivered};
use crate::refmodel as model;
use crate::rng::{hash_bytes, mix, Rng};
use crate::scen::*;
use crate::sut;
use crate::world::{self, Ev, Profile, World};

pub mod c_agree;
pub mod c_damage;
pub mod c_header;
pub mod c_history;
pub mod c_people;
pub mod c_reader;
pub mod known;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Violation {
    /// What kind of violation; stays the same while a case is made smaller.
    pub class: String,
    pub detail: String,
}

pub type Res = Result<(), Violation>;

pub fn fail(class: impl Into<String>, detail: impl Into<String>) -> Violation {
    let mut detail = detail.into();
    if detail.len() > 2000 {
        let mut n = 2000;
        while !detail.is_char_boundary(n) {
            n -= 1;
        }
        detail.truncate(n);
        detail.push('…');
    }
    Violation {
        class: class.into(),
        detail,
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err($crate::props::fail($class, format!($($arg)+)));
        }
    };
}

#[derive(Default)]
pub struct Ctx {
    /// How often what happened, for the evidence.
    pub counts: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    /// Everything observed, folded.
    pub digest: u64,
    /// Coarse shape of the run.
    pub shape: u64,
    pub nontrivial: bool,
    pub sim_ms: u64,
    pub steps: u64,
    /// Recording, faults and plan, folded.
    pub key: u64,
    /// Interleaving, folded (0: sequential).
    pub interleaving: u64,
    pub max: BTreeMap<String, f64>,
    /// Switches the scheduler made.
    pub taken: Vec<(u64, u8)>,
}

impl Ctx {
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_default() += n;
    }
    pub fn saw(&mut self, v: impl std::fmt::Debug) {
        self.digest = mix(self.digest, hash_bytes(format!("{v:?}").as_bytes()));
    }
    /// A feature of the run, in powers of two.
    pub fn shape(&mut self, name: &str, n: u64) {
        let bucket = 64 - n.leading_zeros();
        self.shape ^= mix(hash_bytes(name.as_bytes()), bucket as u64);
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.max.entry(k.to_string()).or_insert(v);
        if v > *e {
            *e = v;
        }
    }
    pub fn deliver(&mut self, rec: &Recording) -> Delivered {
        let d = deliver(rec);
        crate::seams::allow_steps(crate::orch::steps_allowed(d.bytes.len() as u64));
        for (k, n) in &d.fired {
            *self.fired.entry(k.to_string()).or_default() += n;
            self.shape(k, *n);
        }
        self.sim_ms += d.frames.iter().map(|f| f.ms as u64 * f.rep as u64).sum::<u64>();
        self.key = mix(self.key, hash_bytes(&d.bytes));
        self.shape("frames", d.frames.len() as u64);
        d
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Runs per process.
    pub chunk: u64,
    pub gen: fn(&mut Rng, u64) -> (Vec<Recording>, Plan),
    pub eval: fn(&Scenario, &mut Ctx) -> Res,
    pub rule: &'static str,
    pub known: fn() -> Vec<(String, bool)>,
}

pub fn all() -> Vec<Prop> {
    let none: fn() -> Vec<(String, bool)> = Vec::new;
    vec![
        Prop {
            id: "C01",
            quick: 150_000,
            thorough: 1_200_000,
            chunk: 8,
            gen: c_damage::gen_c01,
            eval: c_damage::eval_c01,
            rule: "a recording of a simulated match, part of a real demo, or forged bytes, after relay and storage faults, or extreme values, given to all public functions; non-trivial if at least one fault took effect or the input is forged",
            known: none,
        },
        Prop {
            id: "C02",
            quick: 50_000,
            thorough: 400_000,
            chunk: 8,
            gen: c_damage::gen_c02,
            eval: c_damage::eval_c02,
            rule: "a recording of a simulated match or part of a real demo, read at several crash points; non-trivial if at least one crash point lies inside a frame",
            known: none,
        },
        Prop {
            id: "C03",
            quick: 30_000,
            thorough: 240_000,
            chunk: 1,
            gen: c_reader::gen_c03,
            eval: c_reader::eval_c03,
            rule: "several reader tasks parse one or more recordings under a seeded scheduler, compared with each call alone in its own process; non-trivial if the scheduler switched tasks inside a call or a buffer was reused",
            known: none,
        },
        Prop {
            id: "C04",
            quick: 15_000,
            thorough: 120_000,
            chunk: 8,
            gen: c_reader::gen_c04,
            eval: c_reader::eval_c04,
            rule: "recordings with forged or torn lengths and counts, dense recordings, and real demos, under an accounting allocator; non-trivial if a length field was changed or the recording is larger than 64 KiB",
            known: none,
        },
        Prop {
            id: "C05",
            quick: 175_000,
            thorough: 1_400_000,
            chunk: 16,
            gen: c_history::gen_c05,
            eval: c_history::eval_c05,
            rule: "a simulated match recorded, relayed with faults, read back; non-trivial if the log has at least three messages and either a fault took effect or a frame holds several messages",
            known: none,
        },
        Prop {
            id: "C06",
            quick: 175_000,
            thorough: 1_400_000,
            chunk: 16,
            gen: c_history::gen_c06,
            eval: c_history::eval_c06,
            rule: "a simulated match with every kind of obituary, recorded, relayed with faults, read back; non-trivial if at least three obituaries were recorded",
            known: none,
        },
        Prop {
            id: "C07",
            quick: 45_000,
            thorough: 360_000,
            chunk: 16,
            gen: c_history::gen_c07,
            eval: c_history::eval_c07,
            rule: "a simulated match with start and end marks in every order and packing; non-trivial if at least one mark was recorded",
            known: known::c07,
        },
        Prop {
            id: "C08",
            quick: 200_000,
            thorough: 1_600_000,
            chunk: 16,
            gen: c_history::gen_c08,
            eval: c_history::eval_c08,
            rule: "a simulated match with full and partial ping rounds; non-trivial if at least two ping rounds were recorded",
            known: none,
        },
        Prop {
            id: "C09",
            quick: 200_000,
            thorough: 1_600_000,
            chunk: 16,
            gen: c_people::gen_c09,
            eval: c_people::eval_c09,
            rule: "a simulated sign-on with gaps, odd names, spectators and bots, followed by a match; non-trivial if at least two clients are connected",
            known: known::c09,
        },
        Prop {
            id: "C10",
            quick: 175_000,
            thorough: 1_400_000,
            chunk: 16,
            gen: c_people::gen_c10,
            eval: c_people::eval_c10,
            rule: "a simulated match (with or without statistics dump) or a list of players as values; non-trivial if at least three players take part",
            known: none,
        },
        Prop {
            id: "C11",
            quick: 225_000,
            thorough: 1_800_000,
            chunk: 16,
            gen: c_people::gen_c11,
            eval: c_people::eval_c11,
            rule: "a simulated match with one or more statistics dumps, whose blocks are lost, repeated, swapped, torn or interrupted; non-trivial if a dump was written",
            known: known::c11,
        },
        Prop {
            id: "C12",
            quick: 300_000,
            thorough: 2_400_000,
            chunk: 16,
            gen: c_header::gen_c12,
            eval: c_header::eval_c12,
            rule: "a simulated match with one of several endings, cut, relayed with loss, or at the minimum size; non-trivial if a crash or loss took effect, or the ending is not the regular one",
            known: known::c12,
        },
        Prop {
            id: "C13",
            quick: 300_000,
            thorough: 2_400_000,
            chunk: 16,
            gen: c_header::gen_c13,
            eval: c_header::eval_c13,
            rule: "a simulated sign-on under a server clock anywhere in the epoch range and a zone written in any supported way; non-trivial if there is an epoch or a matchdate",
            known: known::c13,
        },
        Prop {
            id: "C14",
            quick: 125_000,
            thorough: 1_000_000,
            chunk: 16,
            gen: c_history::gen_c14,
            eval: c_history::eval_c14,
            rule: "a simulated capture-the-flag match with split and whole announcements; non-trivial if at least three announcements were recorded",
            known: known::c14,
        },
        Prop {
            id: "C15",
            quick: 150_000,
            thorough: 1_200_000,
            chunk: 16,
            gen: c_damage::gen_c15,
            eval: c_damage::eval_c15,
            rule: "a simulated match or part of a real demo in which the body of one frame is overwritten or a range of frames is lost; non-trivial if the damage changed the recording",
            known: none,
        },
        Prop {
            id: "C16",
            quick: 2_400,
            thorough: 60_000,
            chunk: 8,
            gen: c_reader::gen_c16,
            eval: c_reader::eval_c16,
            rule: "a recording and one six times as long made in the same way, or of the same match over and over, with counted steps; non-trivial if the smaller one has at least 200 bytes",
            known: none,
        },
        Prop {
            id: "C17",
            quick: 100_000,
            thorough: 800_000,
            chunk: 16,
            gen: c_agree::gen_c17,
            eval: c_agree::eval_c17,
            rule: "a recording of a simulated match, part of a real demo, or forged bytes, after relay and storage faults, about which everything is asked; non-trivial if a fault took effect or the bytes are forged",
            known: none,
        },
    ]
}

// ---------------------------------------------------------------- shared drawing

pub fn sim(w: World) -> Recording {
    Recording {
        base: Base::Sim { frames: w.rec.frames },
        net: vec![],
        disk: vec![],
    }
}

pub fn frames_of(rec: &Recording) -> &[Frame] {
    match &rec.base {
        Base::Sim { frames } => frames,
        _ => &[],
    }
}

/// Faults between the recorder and the disk.
pub fn net_faults(rng: &mut Rng, rec: &mut Recording, max: usize) {
    let tags: Vec<u32> = frames_of(rec)
        .iter()
        .filter(|f| !f.signon)
        .map(|f| f.tag)
        .collect();
    if tags.is_empty() || max == 0 {
        return;
    }
    let heavy = rng.p(0.15);
    let n = if heavy { rng.usize(max, max * 8) } else { rng.usize(0, max) };
    for _ in 0..n {
        let i = rng.below(tags.len());
        let j = (i + 1 + rng.skewed(12)).min(tags.len() - 1);
        rec.net.push(match rng.below(8) {
            0..=2 => NetFault::Drop { tag: tags[i] },
            3 | 4 => NetFault::Dup {
                tag: tags[i],
                after: tags[if rng.p(0.4) { i } else { j }],
            },
            5 | 6 => NetFault::Delay {
                tag: tags[i],
                after: tags[j],
            },
            _ => NetFault::Partition {
                from: tags[i],
                to: tags[(i + 1 + rng.skewed(20)).min(tags.len() - 1)],
            },
        });
    }
}

pub const NEEDLES: [&[u8]; 17] = [
    b"fullserverinfo \"",
    b"\x09cmd spawn",
    b"\\name\\",
    b"\x08\x02matchdate: ",
    b"{\"version\": ",
    b"\"duration\": ",
    b"The match is over",
    b"4status\0Standby\0",
    b"paused the game",
    b"\0\x02EndOfDemo\0",
    b"flag",
    b"\x08\x02\xcd\xe1\xf4\xe3\xe8 ",
    b" was jumped by his teammate",
    b"\"bot\": {",
    b"\\epoch\\",
    b"\\serverdemo\\",
    b"\x28",
];

/// Places where something begins or ends.
pub fn spots(d: &Delivered) -> Vec<usize> {
    let mut v = vec![];
    for (f, s) in d.frames.iter().zip(&d.starts) {
        v.push(*s);
        v.push(*s + f.header_len());
        let mut at = *s + f.header_len();
        for p in &f.parts {
            let mut b = vec![];
            encode_part(p, &mut b);
            at += b.len();
            v.push(at);
        }
    }
    if d.frames.is_empty() {
        for (a, b) in whole_frames(&d.clean) {
            v.push(a);
            v.push(b);
        }
    }
    for n in NEEDLES {
        if n.len() < 3 {
            continue;
        }
        if let Some(o) = model::find(&d.clean, n) {
            v.push(o);
            v.push(o + n.len());
        }
        if let Some(o) = model::rfind(&d.clean, n) {
            v.push(o);
            v.push(o + n.len());
        }
    }
    v
}

pub fn pos_at(d: &Delivered, offset: usize) -> Pos {
    if d.frames.is_empty() {
        return Pos {
            tag: 0,
            off: offset as u32,
        };
    }
    let i = d.starts.partition_point(|s| *s <= offset).saturating_sub(1);
    // the first frame of that tag is what the tag stands for
    let tag = d.frames[i].tag;
    let first = d.frames.iter().position(|f| f.tag == tag).unwrap_or(i);
    Pos {
        tag,
        off: (offset - d.starts[first]) as u32,
    }
}

pub fn offset_of(d: &Delivered, p: &Pos) -> Option<usize> {
    if d.frames.is_empty() {
        return Some(p.off as usize);
    }
    d.frames
        .iter()
        .position(|f| f.tag == p.tag)
        .map(|i| d.starts[i] + p.off as usize)
}

/// A place in the recording: mostly where something begins or ends, give or take a few bytes.
pub fn spot(rng: &mut Rng, d: &Delivered, spots: &[usize]) -> usize {
    let n = d.clean.len().max(1);
    if spots.is_empty() || rng.p(0.25) {
        return rng.below(n);
    }
    let s = *rng.pick(spots) as i64;
    let jitter = match rng.below(6) {
        0 | 1 => 0,
        2 | 3 => rng.range(-3, 3),
        4 => rng.range(-12, 12),
        _ => rng.range(-600, 600),
    };
    (s + jitter).clamp(0, n as i64 - 1) as usize
}

/// Faults of the disk.
pub fn disk_faults(rng: &mut Rng, rec: &mut Recording, n: usize) {
    let d = deliver(rec);
    let places = spots(&d);
    for _ in 0..n {
        let o = spot(rng, &d, &places);
        let at = pos_at(&d, o);
        let len = match rng.below(5) {
            0 => 1,
            1 => rng.usize(1, 8) as u32,
            2 => rng.usize(1, 64) as u32,
            3 => 512,
            _ => rng.usize(1, 4096) as u32,
        };
        let f = match rng.below(13) {
            0 | 1 => DiskFault::Crash { at },
            2 => DiskFault::Zero { at, len },
            3 | 4 => DiskFault::Flip {
                at,
                bit: rng.below(8) as u8,
            },
            5 | 6 => DiskFault::Over {
                at,
                bytes: match rng.below(4) {
                    0 => B::s(*rng.pick(&["é", "€", "éé", "\u{10348}", "1é", "+1é0"])),
                    _ => junk(rng, len.min(200) as usize),
                },
            },
            7 => DiskFault::Lost { at, len },
            8 => DiskFault::Twice { at, len },
            9 => DiskFault::Swapped {
                at,
                len,
                len2: rng.usize(1, 600) as u32,
            },
            10 | 11 => {
                let value = forged_length(rng, d.clean.len());
                match d.frames.is_empty() {
                    false => {
                        let with: Vec<u32> = d
                            .frames
                            .iter()
                            .filter(|f| f.header_len() >= 6)
                            .map(|f| f.tag)
                            .collect();
                        if with.is_empty() {
                            continue;
                        }
                        DiskFault::Length {
                            tag: *rng.pick(&with),
                            value,
                        }
                    }
                    true => DiskFault::Length {
                        tag: o as u32,
                        value,
                    },
                }
            }
            _ => {
                let n = rng.usize(1, 300);
                DiskFault::Tail {
                    bytes: junk(rng, n),
                }
            }
        };
        rec.disk.push(f);
    }
}

pub fn forged_length(rng: &mut Rng, len: usize) -> u32 {
    match rng.below(8) {
        0 => rng.below(12) as u32,
        1 => u32::MAX - rng.below(12) as u32,
        2 => 0x7fff_ffff,
        3 => 1 << rng.below(32),
        4 => (1u32 << rng.below(32)).wrapping_sub(1),
        5 => rng.usize(0, len + 16) as u32,
        6 => rng.u64() as u32,
        _ => 0x8000_0000u32.wrapping_add(rng.below(64) as u32),
    }
}

/// Bytes with pieces the readers look for in them.
pub fn junk(rng: &mut Rng, n: usize) -> B {
    let mut v = vec![];
    while v.len() < n {
        match rng.below(8) {
            0 => v.extend_from_slice(*rng.pick(&NEEDLES)),
            1 => v.extend_from_slice(&[0; 4]),
            2 => v.extend_from_slice(&[0xFF; 4]),
            3 => v.push(*rng.pick(&[0u8, 8, 14, 36, 40, 52, 9, 2, b'"', b'\n', b'\\', b','])),
            4 => v.extend_from_slice(&[0xC3, 0xA9]),
            5 => v.extend_from_slice(rng.below(100_000).to_string().as_bytes()),
            _ => v.push(rng.byte()),
        }
    }
    v.truncate(n);
    B(v)
}

/// Part of a real demo, from the start, cut after a whole frame or anywhere.
pub fn corpus(rng: &mut Rng, max: usize) -> Option<Recording> {
    let names = corpus_names();
    if names.is_empty() {
        return None;
    }
    let file = rng.pick(&names).clone();
    let total = corpus_len(&file);
    let mut len = if rng.p(0.1) && total <= max { total } else { rng.usize(8_000, max.min(total)) };
    if rng.p(0.7) {
        let data = corpus_bytes(&file, 0, len);
        len = whole_frames(&data).last().map_or(len, |f| f.1);
    }
    Some(Recording {
        base: Base::Corpus {
            file,
            from: 0,
            len: len as u64,
        },
        net: vec![],
        disk: vec![],
    })
}

pub fn swarm_profile(rng: &mut Rng) -> Profile {
    let mut p = Profile::general();
    p.events = match rng.below(5) {
        0 => (0, 12),
        1 => (5, 60),
        4 => (100, 400),
        _ => (20, 160),
    };
    p
}

// ---------------------------------------------------------------- shared judging

pub fn panicked(what: &str, p: sut::Panicked) -> Violation {
    fail(format!("{what}: panic"), format!("{what} panicked: {}", p.0))
}

pub fn show_prints(p: &[(u16, Vec<u8>)]) -> String {
    let s: Vec<String> = p
        .iter()
        .map(|(l, t)| format!("{l}:{:?}", sut::latin1(t)))
        .collect();
    format!("[{}]", s.join(", "))
}

/// First place where two lists differ, with a little around it.
pub fn list_diff<T: PartialEq + std::fmt::Debug>(got: &[T], want: &[T]) -> String {
    let i = got
        .iter()
        .zip(want)
        .position(|(a, b)| a != b)
        .unwrap_or(got.len().min(want.len()));
    let around = |l: &[T]| format!("{:?}", &l[i.min(l.len())..l.len().min(i + 3)]);
    format!(
        "{} instead of {} entries, first difference at {i}: got {} want {}",
        got.len(),
        want.len(),
        around(got),
        around(want)
    )
}

pub fn map_diff<K: Ord + std::fmt::Debug, V: PartialEq + std::fmt::Debug>(
    got: &BTreeMap<K, V>,
    want: &BTreeMap<K, V>,
) -> String {
    let mut v = vec![];
    for (k, a) in got {
        match want.get(k) {
            Some(b) if a == b => {}
            Some(b) => v.push(format!("{k:?}: got {a:?} want {b:?}")),
            None => v.push(format!("{k:?}: got {a:?} want nothing")),
        }
    }
    for (k, b) in want {
        if !got.contains_key(k) {
            v.push(format!("{k:?}: got nothing want {b:?}"));
        }
    }
    v.truncate(6);
    v.join("; ")
}

pub fn sut_prints(d: &[u8]) -> Result<Vec<(u16, Vec<u8>)>, Violation> {
    sut::prints(d).map_err(|p| panicked("prints", p))
}

pub fn sut_frags(d: &[u8]) -> Result<BTreeMap<String, i64>, Violation> {
    Ok(sut::run(|| mvdparser::frags_per_player_name(d))
        .map_err(|p| panicked("frags_per_player_name", p))?
        .into_iter()
        .map(|(k, v)| (k, v as i64))
        .collect())
}

pub fn nonzero(m: &BTreeMap<String, i64>) -> BTreeMap<String, i64> {
    m.iter().filter(|(_, v)| **v != 0).map(|(k, v)| (k.clone(), *v)).collect()
}

pub fn sut_pings(d: &[u8]) -> Result<Option<BTreeMap<u8, u32>>, Violation> {
    Ok(sut::run(|| mvdparser::all::ping_per_player_number(d))
        .map_err(|p| panicked("ping_per_player_number", p))?
        .ok()
        .map(|m| m.into_iter().collect()))
}

pub fn sut_flags(d: &[u8]) -> Result<BTreeMap<String, model::FlagCounts>, Violation> {
    let m = sut::run(|| mvdparser::all::flag_events_per_player_name(d))
        .map_err(|p| panicked("flag_events_per_player_name", p))?;
    let mut v = BTreeMap::new();
    for (k, e) in m {
        v.insert(k, flag_counts(&format!("{e:?}")));
    }
    Ok(v)
}

/// Reads the counters out of the debug form, by name.
fn flag_counts(s: &str) -> model::FlagCounts {
    let names = [
        "captures",
        "pickups",
        "returns",
        "carrier_frags",
        "defends",
        "carrier_defends",
        "carrier_defends_vs_aggressive",
    ];
    let mut c = [0u64; 7];
    for (i, n) in names.iter().enumerate() {
        let key = format!("{n}: ");
        let mut from = 0;
        while let Some(o) = s[from..].find(&key) {
            let at = from + o;
            let before = s[..at].chars().last().unwrap_or(' ');
            if before == ' ' || before == '{' {
                c[i] = s[at + key.len()..]
                    .chars()
                    .take_while(|c| c.is_ascii_digit())
                    .collect::<String>()
                    .parse()
                    .unwrap_or(u64::MAX);
                break;
            }
            from = at + key.len();
        }
    }
    c
}

pub fn sut_demo_ms(d: &[u8]) -> Result<Option<std::time::Duration>, Violation> {
    Ok(sut::run(|| mvdparser::demo_duration(d))
        .map_err(|p| panicked("demo_duration", p))?
        .ok())
}

pub fn sut_clients(d: &[u8]) -> Result<Option<Vec<mvdparser::Client>>, Violation> {
    Ok(sut::run(|| mvdparser::all::clients(d))
        .map_err(|p| panicked("clients", p))?
        .ok())
}

/// Expected pings; `None` in a slot means too many samples to ask for an exact value.
pub fn check_pings(
    got: &Option<BTreeMap<u8, u32>>,
    want: &BTreeMap<u8, (u64, u64)>,
    class: &str,
) -> Res {
    let Some(got) = got else {
        ensure!(want.is_empty(), class, "an error instead of pings for slots {:?}", want.keys());
        return Ok(());
    };
    ensure!(!want.is_empty(), class, "{got:?} instead of an error");
    ensure!(
        got.keys().eq(want.keys()),
        class,
        "slots {:?} instead of {:?}",
        got.keys(),
        want.keys()
    );
    for (slot, (sum, n)) in want {
        let exact = sum / n;
        let g = got[slot] as u64;
        let slack = if *sum < 1 << 23 { 0 } else { 1 + exact / 1_000_000 };
        ensure!(
            g.abs_diff(exact) <= slack,
            class,
            "slot {slot}: {g} instead of {exact} (sum {sum} of {n})"
        );
    }
    Ok(())
}

pub fn count_events(ctx: &mut Ctx, frames: &[Frame]) {
    let mut n = BTreeMap::<&str, u64>::new();
    for f in frames {
        for p in &f.parts {
            let k = match p {
                Part::Print { .. } => "print",
                Part::Obit { .. } => "obituary",
                Part::Flag { .. } => "flag",
                Part::Frags { .. } => "frags",
                Part::Pings(_) => "pings",
                Part::Stuff(_) => "stuff",
                Part::Settings(_) | Part::Setting { .. } => "settings",
                Part::Slot(_) => "slot",
                Part::Stats { .. } => "stats",
                Part::Hidden { .. } => "hidden",
                Part::EndOfDemo => "end",
                Part::Raw(_) | Part::Fill(_) => "raw",
            };
            *n.entry(k).or_default() += 1;
        }
    }
    for (k, c) in n {
        ctx.shape(k, c);
    }
}

pub fn matches_ev(w: &World, ev: Ev) -> u64 {
    w.kinds_fired
        .iter()
        .find(|(e, _)| *e == ev)
        .map_or(0, |(_, n)| *n)
}

pub use world::generate;
