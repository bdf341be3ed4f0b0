//! Reference models. `semantic` adds up what the delivered frames mean (the generator knows);
//! `bytes` reads arbitrary, possibly damaged bytes frame by frame, with plain code that shares
//! nothing with the code under test.

use std::collections::BTreeMap;

use crate::deliver::whole_frames;
use crate::scen::*;

pub type Prints = Vec<(u16, Vec<u8>)>;
pub type FlagCounts = [u64; 7];

fn is_print(p: &Part) -> bool {
    matches!(p, Part::Print { .. } | Part::Obit { .. } | Part::Flag { .. })
}

fn part_prints(p: &Part) -> Prints {
    let mut bytes = vec![];
    encode_part(p, &mut bytes);
    let mut v = vec![];
    let mut i = 0;
    while i + 1 < bytes.len() {
        let id = bytes[i + 1];
        let end = bytes[i + 2..].iter().position(|b| *b == 0).unwrap() + i + 2;
        v.push((level(id), bytes[i + 2..end].to_vec()));
        i = end + 1;
    }
    v
}

/// 0..=3, anything else is unknown.
pub fn level(id: u8) -> u16 {
    if id <= 3 {
        id as u16
    } else {
        0xDEAD
    }
}

/// Has messages for clients: a frame for nobody holds hidden data.
pub fn has_body(f: &Frame) -> bool {
    matches!(f.ty & 7, 1 | 3 | 4 | 5 | 6) && !f.parts.is_empty() && !(f.ty & 7 == 3 && f.mask == 0)
}

/// The text messages that open the frame.
pub fn frame_prints(f: &Frame) -> Prints {
    if !has_body(f) {
        return vec![];
    }
    f.parts
        .iter()
        .take_while(|p| is_print(p))
        .flat_map(part_prints)
        .filter(|(_, t)| !t.is_empty())
        .collect()
}

pub fn prints(frames: &[Frame]) -> Prints {
    let mut all: Prints = vec![];
    for f in frames {
        for _ in 0..f.rep {
            all.extend(frame_prints(f));
        }
    }
    all.dedup();
    all
}

/// The sign-on list.
pub fn roster(frames: &[Frame]) -> Vec<Slot> {
    frames
        .iter()
        .filter(|f| f.signon)
        .flat_map(|f| &f.parts)
        .filter_map(|p| match p {
            Part::Slot(s) if s.occupied() => Some(s.clone()),
            _ => None,
        })
        .collect()
}

fn nonempty_body(f: &Frame) -> bool {
    match f.ty & 7 {
        2 => true,
        0 | 7 => false,
        _ => !f.body().is_empty(),
    }
}

pub fn scores(frames: &[Frame], clients: &[Slot]) -> BTreeMap<String, i64> {
    let mut v: BTreeMap<String, i64> = BTreeMap::new();
    for (i, f) in frames.iter().enumerate() {
        if !has_body(f) {
            continue;
        }
        let Some(Part::Obit {
            kill,
            killer,
            victim,
            ..
        }) = f.parts.first()
        else {
            continue;
        };
        for again in (0..f.rep).rev() {
            let (name, delta) = match kill {
                Kill::Frag => (Some(killer.text()), 1),
                Kill::Death | Kill::OwnWeapon => (Some(victim.text()), -1),
                Kill::Suicide => (Some(victim.text()), -2),
                Kill::Teamkill => (Some(killer.text()), -1),
                Kill::TeamkilledBy => (blame(frames, i, again, &victim.text(), clients), -1),
            };
            if let Some(n) = name {
                *v.entry(n).or_default() += delta;
            }
        }
    }
    v
}

/// Whose score changed with the obituary or in the two frames behind it; `again` is how often
/// the same frame follows once more.
fn blame(frames: &[Frame], i: usize, again: u32, victim: &str, clients: &[Slot]) -> Option<String> {
    let mut updates = vec![];
    if let Some(Part::Frags { slot, .. }) = frames[i].parts.get(1) {
        updates.push(*slot);
    }
    let same = std::iter::repeat_n(&frames[i], again as usize);
    let next = frames[i + 1..]
        .iter()
        .filter(|f| nonempty_body(f))
        .flat_map(|f| std::iter::repeat_n(f, (f.rep as usize).min(2)));
    for f in same.chain(next).take(2) {
        if !has_body(f) {
            continue;
        }
        match f.parts.first() {
            Some(Part::Frags { slot, .. }) => updates.push(*slot),
            Some(Part::Slot(s)) => updates.push(s.slot),
            _ => {}
        }
    }
    let victim = clients.iter().find(|c| c.name() == victim)?;
    updates
        .iter()
        .filter_map(|u| clients.iter().find(|c| c.slot == *u))
        .find(|c| c.team() == victim.team() && c.name() != victim.name())
        .map(|c| c.name())
}

/// Sum and number of samples per slot.
pub fn pings(frames: &[Frame]) -> BTreeMap<u8, (u64, u64)> {
    let mut v: BTreeMap<u8, (u64, u64)> = BTreeMap::new();
    let mut rounds = 0;
    for f in frames {
        for _ in 0..f.rep {
            if rounds >= 8 || !has_body(f) {
                continue;
            }
            let mut any = false;
            for p in &f.parts {
                let Part::Pings(list) = p else { break };
                for (slot, ping, _) in list {
                    let e = v.entry(*slot).or_default();
                    e.0 += *ping as u64;
                    e.1 += 1;
                    any = true;
                }
            }
            if any {
                rounds += 1;
            }
        }
    }
    v
}

pub fn flags(frames: &[Frame]) -> BTreeMap<String, FlagCounts> {
    let mut v: BTreeMap<String, FlagCounts> = BTreeMap::new();
    for f in frames {
        if !has_body(f) {
            continue;
        }
        for p in &f.parts {
            if let Part::Flag { deed, name, .. } = p {
                let i = match deed {
                    FlagDeed::Captured => 0,
                    FlagDeed::Got => 1,
                    FlagDeed::Returned => 2,
                    FlagDeed::Assist => 3,
                    FlagDeed::Defends => 4,
                    FlagDeed::DefendsCarrier => 5,
                    FlagDeed::DefendsCarrierAggr => 6,
                };
                v.entry(name.text()).or_default()[i] += f.rep as u64;
            }
        }
    }
    v
}

pub const MATCH_OVER: &[u8] = b"The match is over";
pub const STANDBY: &[u8] = b"4status\0Standby\0";
pub const MATCHDATE: &[u8] = b"\x08\x02matchdate: ";

pub fn find(data: &[u8], needle: &[u8]) -> Option<usize> {
    data.windows(needle.len()).position(|w| w == needle)
}
pub fn rfind(data: &[u8], needle: &[u8]) -> Option<usize> {
    data.windows(needle.len()).rposition(|w| w == needle)
}

pub struct Marks {
    pub match_over: bool,
    pub standby: bool,
    pub matchdate: bool,
}

fn marks(f: &Frame) -> Marks {
    let mut m = Marks {
        match_over: false,
        standby: false,
        matchdate: false,
    };
    if !has_body(f) {
        return m;
    }
    for p in &f.parts {
        match p {
            Part::Print { id, text } => {
                m.match_over |= find(&text.0, MATCH_OVER).is_some();
                m.matchdate |= *id == 2 && text.0.starts_with(b"matchdate: ");
            }
            Part::Setting { key, value } => {
                m.standby |= key.0 == b"status" && value.0 == b"Standby"
            }
            _ => {}
        }
    }
    m
}

fn ms_through(frames: &[Frame], last: Option<usize>) -> u64 {
    let upto = last.map_or(frames.len(), |i| i + 1);
    frames[..upto]
        .iter()
        .map(|f| f.ms as u64 * f.rep as u64)
        .sum()
}

pub fn demo_ms(frames: &[Frame]) -> u64 {
    let last = frames
        .iter()
        .rposition(|f| marks(f).match_over)
        .or_else(|| frames.iter().rposition(|f| marks(f).standby));
    ms_through(frames, last)
}

pub fn demo_total(frames: &[Frame]) -> u64 {
    ms_through(frames, None)
}

pub fn countdown_ms(frames: &[Frame]) -> Option<u64> {
    if setting(frames, "mode").as_deref() == Some("hoonymode") {
        return Some(0);
    }
    let first = frames.iter().position(|f| marks(f).matchdate)?;
    // a repeated frame is only counted up to its first copy
    Some(ms_through(&frames[..first], None) + frames[first].ms as u64)
}

pub fn settings(frames: &[Frame]) -> Option<Vec<(B, B)>> {
    frames.iter().flat_map(|f| &f.parts).find_map(|p| match p {
        Part::Settings(kv) => Some(kv.clone()),
        _ => None,
    })
}

pub fn plain(bytes: &[u8]) -> String {
    bytes
        .iter()
        .map(|b| match b & 0x7f {
            16 => '[',
            17 => ']',
            c @ 18..=27 => (b'0' + c - 18) as char,
            c @ 32..=126 => c as char,
            0 | 5 | 14 | 15 | 28 => '\u{2022}',
            _ => ' ',
        })
        .collect()
}

pub fn setting(frames: &[Frame], key: &str) -> Option<String> {
    settings(frames)?
        .iter()
        .rev()
        .find(|(k, _)| k.0 == key.as_bytes())
        .map(|(_, v)| plain(&v.0))
}

/// First matchdate announcement: the text behind the colon, without the line break.
pub fn matchdate(frames: &[Frame]) -> Option<Vec<u8>> {
    frames
        .iter()
        .filter(|f| has_body(f))
        .flat_map(|f| &f.parts)
        .find_map(|p| match p {
            Part::Print { id: 2, text } if text.0.starts_with(b"matchdate: ") => {
                Some(text.0[11..].iter().copied().take_while(|b| *b != b'\n').collect())
            }
            _ => None,
        })
}

/// Case and color blind sort key of a name.
pub fn sort_key(name: &str) -> String {
    plain(&name.chars().map(|c| c as u8).collect::<Vec<u8>>()).to_lowercase()
}

// ---------------------------------------------------------------- arbitrary bytes

pub mod bytes {
    use super::*;

    struct Cut<'a> {
        d: &'a [u8],
        i: usize,
    }

    impl Cut<'_> {
        fn byte(&mut self) -> Option<u8> {
            let b = self.d.get(self.i).copied();
            self.i += 1;
            b
        }
        fn string(&mut self) -> Option<Vec<u8>> {
            let rest = self.d.get(self.i..)?;
            match rest.iter().position(|b| *b == 0) {
                Some(n) => {
                    self.i += n + 1;
                    Some(rest[..n].to_vec())
                }
                None => {
                    self.i = self.d.len();
                    None
                }
            }
        }
    }

    pub struct Body<'a> {
        pub start: usize,
        /// All of it.
        pub raw: &'a [u8],
        /// The messages for clients: none in a frame for nobody.
        pub msgs: &'a [u8],
        pub ms: u8,
    }

    pub fn bodies(data: &[u8]) -> Vec<Body<'_>> {
        whole_frames(data)
            .into_iter()
            .map(|(a, b)| {
                let h = match data[a + 1] & 7 {
                    3 => 10,
                    1 | 4 | 5 | 6 => 6,
                    _ => 2,
                };
                let hidden = data[a + 1] & 7 == 3 && data[a + 2..a + 6] == [0; 4];
                Body {
                    start: a,
                    raw: &data[a + h..b],
                    msgs: if hidden { &[] } else { &data[a + h..b] },
                    ms: data[a],
                }
            })
            .collect()
    }

    pub fn frame_prints(body: &[u8]) -> Prints {
        let mut c = Cut { d: body, i: 0 };
        let mut v = vec![];
        while c.byte() == Some(8) {
            let Some(id) = c.byte() else { break };
            if let Some(s) = c.string() {
                if !s.is_empty() {
                    v.push((level(id), s));
                }
            }
        }
        v
    }

    pub fn prints(data: &[u8]) -> Prints {
        let mut v: Prints = bodies(data)
            .into_iter()
            .flat_map(|b| frame_prints(b.msgs))
            .collect();
        v.dedup();
        v
    }

    pub fn frame_pings(body: &[u8]) -> Vec<(u8, u16)> {
        let mut v = vec![];
        let mut i = 0;
        while body.get(i) == Some(&36) {
            let Some(m) = body.get(i + 1..i + 5) else { break };
            v.push((m[0], u16::from_le_bytes([m[1], m[2]])));
            i += 7;
        }
        v
    }

    pub fn pings(data: &[u8]) -> BTreeMap<u8, (u64, u64)> {
        let mut v: BTreeMap<u8, (u64, u64)> = BTreeMap::new();
        let mut rounds = 0;
        for b in bodies(data) {
            let p = frame_pings(b.msgs);
            if p.is_empty() {
                continue;
            }
            for (slot, ping) in p {
                let e = v.entry(slot).or_default();
                e.0 += ping as u64;
                e.1 += 1;
            }
            rounds += 1;
            if rounds == 8 {
                break;
            }
        }
        v
    }

    pub fn ms_until(data: &[u8], offset: usize) -> u64 {
        bodies(data)
            .into_iter()
            .filter(|b| b.start < offset)
            .map(|b| b.ms as u64)
            .sum()
    }

    pub fn whole(data: &[u8]) -> &[u8] {
        &data[..whole_frames(data).last().map_or(0, |f| f.1)]
    }

    pub fn demo_ms(data: &[u8]) -> u64 {
        let data = whole(data);
        let off = rfind(data, MATCH_OVER)
            .or_else(|| rfind(data, STANDBY))
            .unwrap_or(data.len());
        ms_until(data, off)
    }

    pub fn countdown_ms(data: &[u8]) -> Option<u64> {
        let data = whole(data);
        find(data, MATCHDATE).map(|o| ms_until(data, o))
    }

    /// What an obituary says: the kind, and the name that gains or loses.
    pub fn obituary(text: &[u8]) -> Option<(Kill, Vec<u8>)> {
        let mut t = text;
        while t.last() == Some(&b'\n') {
            t = &t[..t.len() - 1];
        }
        let cut = |list: &[&str]| -> Option<Vec<u8>> {
            list.iter()
                .find_map(|w| find(t, w.as_bytes()))
                .map(|n| t[..n].to_vec())
        };
        if let Some(n) = cut(&DEATHS) {
            return Some((Kill::Death, n));
        }
        if let Some(n) = cut(&OWN_WEAPON) {
            return Some((Kill::OwnWeapon, n));
        }
        if let Some(n) = t.strip_suffix(b" suicides") {
            return Some((Kill::Suicide, n.to_vec()));
        }
        if let Some(n) = cut(&TEAMKILLS) {
            return Some((Kill::Teamkill, n));
        }
        if let Some(n) = cut(&TEAMKILLED) {
            return Some((Kill::TeamkilledBy, n));
        }
        for (first, infix, suffix) in FRAGS {
            if let Some(n) = find(t, infix.as_bytes()) {
                let (x, rest) = (&t[..n], &t[n + infix.len()..]);
                let y = if suffix.is_empty() {
                    rest
                } else {
                    match find(rest, suffix.as_bytes()) {
                        Some(k) => &rest[..k],
                        None => continue,
                    }
                };
                return Some((Kill::Frag, if first { x } else { y }.to_vec()));
            }
        }
        None
    }

    /// Frag scores, given the roster.
    pub fn scores(data: &[u8], clients: &[(u8, String, String)]) -> BTreeMap<String, i64> {
        let mut v: BTreeMap<String, i64> = BTreeMap::new();
        let all = bodies(data);
        for (i, b) in all.iter().enumerate() {
            if b.msgs.first() != Some(&8) || b.msgs.get(1) != Some(&1) {
                continue;
            }
            let Some(len) = b.msgs[2..].iter().position(|c| *c == 0) else {
                continue;
            };
            let Some((kill, name)) = obituary(&b.msgs[2..2 + len]) else {
                continue;
            };
            let name = B(name).text();
            let (who, delta) = match kill {
                Kill::Frag => (Some(name), 1),
                Kill::Suicide => (Some(name), -2),
                Kill::TeamkilledBy => {
                    let mut slots = vec![];
                    if let [14, s, _, _, ..] = b.msgs[3 + len..] {
                        slots.push(s);
                    }
                    for f in all[i + 1..].iter().filter(|f| !f.raw.is_empty()).take(2) {
                        if let [14, s, _, _, ..] = f.msgs {
                            slots.push(*s);
                        }
                    }
                    let team = clients.iter().find(|c| c.1 == name).map(|c| &c.2);
                    let who = slots
                        .iter()
                        .filter_map(|s| clients.iter().find(|c| c.0 == *s))
                        .find(|c| Some(&c.2) == team && c.1 != name)
                        .map(|c| c.1.clone());
                    (who, -1)
                }
                _ => (Some(name), -1),
            };
            if let Some(w) = who {
                *v.entry(w).or_default() += delta;
            }
        }
        v
    }

    /// Flag announcements, from frames that consist of text messages.
    pub fn flags(data: &[u8]) -> BTreeMap<String, FlagCounts> {
        let mut v: BTreeMap<String, FlagCounts> = BTreeMap::new();
        let deeds = [
            FlagDeed::Captured,
            FlagDeed::Got,
            FlagDeed::Returned,
            FlagDeed::Assist,
            FlagDeed::Defends,
            FlagDeed::DefendsCarrier,
            FlagDeed::DefendsCarrierAggr,
        ];
        for b in bodies(data) {
            let mut line: Vec<u8> = vec![];
            let mut lines = vec![];
            for (id, text) in frame_prints(b.msgs) {
                if id == 2 {
                    line.extend(text);
                    if line.last() == Some(&b'\n') {
                        lines.push(std::mem::take(&mut line));
                    }
                }
            }
            for l in lines {
                for (i, deed) in deeds.iter().enumerate() {
                    for red in [false, true] {
                        if let Some(name) = l.strip_suffix(&flag_words(*deed, red)[..]) {
                            v.entry(B(name.to_vec()).text()).or_default()[i] += 1;
                        }
                    }
                }
            }
        }
        v
    }
}
