//! What a simulated run consists of, explicitly: the recorded frames, the faults on the relay
//! and on the disk, and the plan of the readers. A scenario is a pure function of its seed and
//! is what a replay file holds.

use serde::{Deserialize, Serialize};

/// Bytes, written as latin-1 text so that replay files stay readable.
pub mod latin1 {
    use serde::{Deserialize, Deserializer, Serializer};

    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.iter().map(|b| *b as char).collect::<String>())
    }

    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        Ok(String::deserialize(d)?.chars().map(|c| c as u8).collect())
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize, Default)]
pub struct B(#[serde(with = "latin1")] pub Vec<u8>);

impl std::fmt::Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.text())
    }
}

impl B {
    pub fn s(v: impl AsRef<[u8]>) -> B {
        B(v.as_ref().to_vec())
    }
    pub fn text(&self) -> String {
        self.0.iter().map(|b| *b as char).collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kill {
    /// killed another player
    Frag,
    /// killed by the world
    Death,
    /// killed by the own weapon
    OwnWeapon,
    /// suicide command
    Suicide,
    /// killed an unnamed teammate
    Teamkill,
    /// killed by an unnamed teammate
    TeamkilledBy,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum FlagDeed {
    Captured,
    Got,
    Returned,
    Defends,
    DefendsCarrier,
    DefendsCarrierAggr,
    Assist,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Part {
    Print {
        id: u8,
        text: B,
    },
    /// An obituary, level medium. `phrase` picks the wording.
    Obit {
        kill: Kill,
        phrase: u8,
        killer: B,
        victim: B,
    },
    Flag {
        deed: FlagDeed,
        red: bool,
        name: B,
        split: bool,
    },
    Frags {
        slot: u8,
        frags: i16,
    },
    Pings(Vec<(u8, u16, u8)>),
    Stuff(B),
    /// fullserverinfo "..."
    Settings(Vec<(B, B)>),
    /// a later change of one setting
    Setting {
        key: B,
        value: B,
    },
    Slot(Slot),
    /// A block of the statistics dump (hidden message 3): number and content.
    Stats {
        number: u16,
        content: B,
    },
    /// Any other hidden message.
    Hidden {
        kind: u16,
        number: u16,
        content: B,
    },
    EndOfDemo,
    Raw(B),
    /// `n` filler bytes, none of which is zero or starts a message.
    Fill(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Slot {
    pub slot: u8,
    pub frags: i16,
    pub ping: u16,
    pub pl: u8,
    pub uid: u32,
    pub info: Vec<(B, B)>,
}

impl Slot {
    pub fn get(&self, key: &str) -> Option<String> {
        // the last one wins, as in a map
        self.info
            .iter()
            .rev()
            .find(|(k, _)| k.0 == key.as_bytes())
            .map(|(_, v)| v.text())
    }
    pub fn int(&self, key: &str) -> Option<i32> {
        self.get(key).and_then(|v| v.parse().ok())
    }
    pub fn occupied(&self) -> bool {
        !self.info.is_empty()
    }
    pub fn name(&self) -> String {
        self.get("name").unwrap_or_default()
    }
    pub fn team(&self) -> String {
        self.get("team").unwrap_or_default()
    }
    pub fn spectator(&self) -> bool {
        self.int("*spectator").is_some_and(|v| v != 0)
    }
    pub fn bot(&self) -> bool {
        self.int("*bot").is_some_and(|v| v != 0)
    }
    pub fn colors(&self) -> [u8; 2] {
        [
            self.int("topcolor").unwrap_or(0) as u8,
            self.int("bottomcolor").unwrap_or(0) as u8,
        ]
    }
    pub fn string(&self) -> Vec<u8> {
        let mut v = vec![];
        for (k, x) in &self.info {
            v.push(b'\\');
            v.extend_from_slice(&k.0);
            v.push(b'\\');
            v.extend_from_slice(&x.0);
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Frame {
    /// Identity, stable under minimisation.
    pub tag: u32,
    pub ms: u8,
    /// The whole type byte: low three bits the target, the rest the player number.
    pub ty: u8,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub mask: u32,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub parts: Vec<Part>,
    /// Recorded this many times in a row (long idle stretches).
    #[serde(default = "one", skip_serializing_if = "is_one")]
    pub rep: u32,
    /// Part of the sign-on, which the relay delivers reliably.
    #[serde(default, skip_serializing_if = "is_false")]
    pub signon: bool,
}

fn is_zero(v: &u32) -> bool {
    *v == 0
}
fn is_one(v: &u32) -> bool {
    *v == 1
}
fn one() -> u32 {
    1
}
fn is_false(v: &bool) -> bool {
    !*v
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum NetFault {
    Drop { tag: u32 },
    Dup { tag: u32, after: u32 },
    /// The frame is delivered only after frame `after`.
    Delay { tag: u32, after: u32 },
    /// Everything from `from` until before `to` is lost.
    Partition { from: u32, to: u32 },
}

/// A place in the recording that survives the removal of other frames.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pos {
    pub tag: u32,
    pub off: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DiskFault {
    /// Crash: only what was written before this place is there.
    Crash { at: Pos },
    /// A sector that was never written reads as zeros.
    Zero { at: Pos, len: u32 },
    Flip { at: Pos, bit: u8 },
    /// Overwritten with something else.
    Over { at: Pos, bytes: B },
    /// A write was lost and the file closed over the gap.
    Lost { at: Pos, len: u32 },
    /// A write was applied twice.
    Twice { at: Pos, len: u32 },
    /// Two neighbouring writes were applied in the wrong order.
    Swapped { at: Pos, len: u32, len2: u32 },
    /// A length field with another value.
    Length { tag: u32, value: u32 },
    /// What was in the file before shows at the end.
    Tail { bytes: B },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Base {
    Sim { frames: Vec<Frame> },
    /// Part of a real demo.
    Corpus { file: String, from: u64, len: u64 },
    Bytes { bytes: B },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Recording {
    pub base: Base,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub net: Vec<NetFault>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub disk: Vec<DiskFault>,
}

/// One step of a reader task.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    /// Call function number `api` on recording `rec`.
    Call { api: u16, rec: u8 },
    /// Load recording `rec` into the task's own buffer (in place) and call.
    Reuse { api: u16, rec: u8 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Plan {
    /// Crash points or snapshots.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub cuts: Vec<Pos>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tasks: Vec<Vec<Step>>,
    /// Explicit schedule; if absent it is drawn from the seed.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub switches: Option<Vec<(u64, u8)>>,
    #[serde(default)]
    pub one_in: u32,
    /// Switch where code is rarely passed rather than anywhere.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub rare: bool,
    /// Value-level inputs.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub players: Vec<PlayerIn>,
    /// Statistics texts, read as values.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub stats: Vec<B>,
    /// Time zone of the reading machine.
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub zone: String,
    /// Which of the property's sub-checks this scenario is for.
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub note: String,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct PlayerIn {
    pub name: B,
    pub team: B,
    pub color: [u8; 2],
    pub frags: i32,
    pub ping: u32,
    pub is_bot: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub recs: Vec<Recording>,
    #[serde(default)]
    pub plan: Plan,
    pub hash_seed: u64,
    /// Simulated wall clock at the start, in nanoseconds since the epoch.
    pub clock_ns: i64,
}

// ---------------------------------------------------------------- wording

pub const DEATHS: [&str; 17] = [
    " sleeps with the fishes",
    " sucks it down",
    " gulped a load of slime",
    " can't exist on slime alone",
    " burst into flames",
    " turned into hot slag",
    " visits the Volcano God",
    " cratered",
    " fell to his death",
    " fell to her death",
    " blew up",
    " was spiked",
    " was zapped",
    " ate a lavaball",
    " died",
    " tried to leave",
    " was squished",
];
pub const OWN_WEAPON: [&str; 11] = [
    " tries to put the pin back in",
    " becomes bored with life",
    " discovers blast radius",
    " electrocutes himself",
    " electrocutes herself",
    " railcutes himself",
    " railcutes herself",
    " discharges into the slime",
    " discharges into the lava",
    " discharges into the water",
    " heats up the water",
];
pub const TEAMKILLS: [&str; 6] = [
    " squished a teammate",
    " mows down a teammate",
    " checks his glasses",
    " checks her glasses",
    " gets a frag for the other team",
    " loses another friend",
];
pub const TEAMKILLED: [&str; 6] = [
    " was telefragged by his teammate",
    " was telefragged by her teammate",
    " was crushed by his teammate",
    " was crushed by her teammate",
    " was jumped by his teammate",
    " was jumped by her teammate",
];
/// (killer first, infix, suffix)
pub const FRAGS: [(bool, &str, &str); 31] = [
    (true, " stomps ", ""),
    (true, " squishes ", ""),
    (true, " rips ", " a new one"),
    (false, " was ax-murdered by ", ""),
    (false, " softens ", "'s fall"),
    (false, " tried to catch ", ""),
    (false, " was crushed by ", ""),
    (false, " was jumped by ", ""),
    (false, " chewed on ", "'s boomstick"),
    (false, " was body pierced by ", ""),
    (false, " was nailed by ", ""),
    (false, " was railed by ", ""),
    (false, " was telefragged by ", ""),
    (false, " accepts ", "'s discharge"),
    (false, " drains ", "'s batteries"),
    (false, " was lead poisoned by ", ""),
    (false, " accepts ", "'s shaft"),
    (false, " ate 2 loads of ", "'s buckshot"),
    (false, " was perforated by ", ""),
    (false, " was punctured by ", ""),
    (false, " was ventilated by ", ""),
    (false, " ate 8 loads of ", "'s buckshot"),
    (false, " gets a natural disaster from ", ""),
    (false, " rides ", "'s rocket"),
    (false, " was gibbed by ", "'s rocket"),
    (false, " was straw-cuttered by ", ""),
    (false, " eats ", "'s pineapple"),
    (false, " was gibbed by ", "'s grenade"),
    (false, " was brutalized by ", "'s quad rocket"),
    (false, " was smeared by ", "'s quad rocket"),
    (false, " was hooked by ", ""),
];

pub fn phrases(kill: Kill) -> usize {
    match kill {
        Kill::Frag => FRAGS.len(),
        Kill::Death => DEATHS.len(),
        Kill::OwnWeapon => OWN_WEAPON.len(),
        Kill::Suicide => 1,
        Kill::Teamkill => TEAMKILLS.len(),
        Kill::TeamkilledBy => TEAMKILLED.len(),
    }
}

pub fn obituary(kill: Kill, phrase: u8, killer: &B, victim: &B) -> Vec<u8> {
    let p = phrase as usize % phrases(kill);
    let mut v = vec![];
    match kill {
        Kill::Frag => {
            let (first, infix, suffix) = FRAGS[p];
            let (a, b) = if first {
                (killer, victim)
            } else {
                (victim, killer)
            };
            v.extend_from_slice(&a.0);
            v.extend_from_slice(infix.as_bytes());
            v.extend_from_slice(&b.0);
            v.extend_from_slice(suffix.as_bytes());
        }
        Kill::Death => {
            v.extend_from_slice(&victim.0);
            v.extend_from_slice(DEATHS[p].as_bytes());
        }
        Kill::OwnWeapon => {
            v.extend_from_slice(&victim.0);
            v.extend_from_slice(OWN_WEAPON[p].as_bytes());
        }
        Kill::Suicide => {
            v.extend_from_slice(&victim.0);
            v.extend_from_slice(b" suicides");
        }
        Kill::Teamkill => {
            v.extend_from_slice(&killer.0);
            v.extend_from_slice(TEAMKILLS[p].as_bytes());
        }
        Kill::TeamkilledBy => {
            v.extend_from_slice(&victim.0);
            v.extend_from_slice(TEAMKILLED[p].as_bytes());
        }
    }
    v.push(b'\n');
    v
}

/// Characters with the color bit set.
pub fn colored(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b | 0x80).collect()
}

/// The part of a flag announcement behind the name.
pub fn flag_words(deed: FlagDeed, red: bool) -> Vec<u8> {
    let team = colored(if red { "RED" } else { "BLUE" });
    let mut v = vec![b' '];
    match deed {
        FlagDeed::Captured | FlagDeed::Got | FlagDeed::Returned => {
            v.extend(colored(match deed {
                FlagDeed::Captured => "captured",
                FlagDeed::Got => "got",
                _ => "returned",
            }));
            v.extend(b" the ");
            v.extend(team);
            v.extend(b" flag!\n");
        }
        FlagDeed::Defends => {
            v.extend(b"defends the ");
            v.extend(team);
            v.extend(b" flag\n");
        }
        FlagDeed::DefendsCarrier => {
            v.extend(b"defends ");
            v.extend(team);
            v.extend(b"'s flag carrier\n");
        }
        FlagDeed::DefendsCarrierAggr => {
            v.extend(b"defends ");
            v.extend(team);
            v.extend(b"'s flag carrier against an aggressive enemy\n");
        }
        FlagDeed::Assist => {
            v.extend(if red {
                &b"gets an assist for returning his flag!\n"[..]
            } else {
                &b"gets an assist for fragging the flag carrier!\n"[..]
            });
        }
    }
    v
}

// ---------------------------------------------------------------- encoding

fn put_print(out: &mut Vec<u8>, id: u8, text: &[u8]) {
    out.push(8);
    out.push(id);
    out.extend_from_slice(text);
    out.push(0);
}

pub fn encode_part(part: &Part, out: &mut Vec<u8>) {
    match part {
        Part::Print { id, text } => put_print(out, *id, &text.0),
        Part::Obit {
            kill,
            phrase,
            killer,
            victim,
        } => put_print(out, 1, &obituary(*kill, *phrase, killer, victim)),
        Part::Flag {
            deed,
            red,
            name,
            split,
        } => {
            let words = flag_words(*deed, *red);
            if *split {
                put_print(out, 2, &name.0);
                put_print(out, 2, &words);
            } else {
                put_print(out, 2, &[&name.0[..], &words].concat());
            }
        }
        Part::Frags { slot, frags } => {
            out.push(14);
            out.push(*slot);
            out.extend_from_slice(&frags.to_le_bytes());
        }
        Part::Pings(list) => {
            for (slot, ping, pl) in list {
                out.push(36);
                out.push(*slot);
                out.extend_from_slice(&ping.to_le_bytes());
                out.extend_from_slice(&[53, *slot, *pl]);
            }
        }
        Part::Stuff(text) => {
            out.push(9);
            out.extend_from_slice(&text.0);
            out.push(0);
        }
        Part::Settings(kv) => {
            out.extend_from_slice(b"\x09fullserverinfo \"");
            out.extend_from_slice(&settings_string(kv));
            out.extend_from_slice(b"\"\n\0");
        }
        Part::Setting { key, value } => {
            out.push(52);
            out.extend_from_slice(&key.0);
            out.push(0);
            out.extend_from_slice(&value.0);
            out.push(0);
        }
        Part::Slot(s) => {
            out.push(14);
            out.push(s.slot);
            out.extend_from_slice(&s.frags.to_le_bytes());
            out.push(36);
            out.push(s.slot);
            out.extend_from_slice(&s.ping.to_le_bytes());
            out.extend_from_slice(&[53, s.slot, s.pl]);
            out.push(37);
            out.push(s.slot);
            out.extend_from_slice(&[0x12, 0x57, 0x1c, 0x41]);
            out.push(40);
            out.push(s.slot);
            out.extend_from_slice(&s.uid.to_le_bytes());
            out.extend_from_slice(&s.string());
            out.push(0);
        }
        Part::Stats { number, content } => put_hidden(out, 3, *number, &content.0),
        Part::Hidden {
            kind,
            number,
            content,
        } => put_hidden(out, *kind, *number, &content.0),
        Part::EndOfDemo => out.extend_from_slice(b"\x02EndOfDemo\0"),
        Part::Raw(b) => out.extend_from_slice(&b.0),
        Part::Fill(n) => {
            for i in 0..*n {
                out.push(0x80 | (i % 97) as u8);
            }
        }
    }
}

fn put_hidden(out: &mut Vec<u8>, kind: u16, number: u16, content: &[u8]) {
    out.extend_from_slice(&((content.len() + 2) as u32).to_le_bytes());
    out.extend_from_slice(&kind.to_le_bytes());
    out.extend_from_slice(&number.to_le_bytes());
    out.extend_from_slice(content);
}

pub fn settings_string(kv: &[(B, B)]) -> Vec<u8> {
    let mut v = vec![];
    for (k, x) in kv {
        v.push(b'\\');
        v.extend_from_slice(&k.0);
        v.push(b'\\');
        v.extend_from_slice(&x.0);
    }
    v
}

impl Frame {
    pub fn body(&self) -> Vec<u8> {
        let mut body = vec![];
        for p in &self.parts {
            encode_part(p, &mut body);
        }
        body
    }

    pub fn header_len(&self) -> usize {
        match self.ty & 7 {
            3 => 10,
            1 | 4 | 5 | 6 => 6,
            _ => 2,
        }
    }

    pub fn encode(&self, out: &mut Vec<u8>) {
        let mut body = self.body();
        match self.ty & 7 {
            0 | 7 => body.clear(),
            2 => body.resize(8, 0xEE),
            _ => {}
        }
        for _ in 0..self.rep {
            out.push(self.ms);
            out.push(self.ty);
            if self.ty & 7 == 3 {
                out.extend_from_slice(&self.mask.to_le_bytes());
            }
            if matches!(self.ty & 7, 1 | 3 | 4 | 5 | 6) {
                out.extend_from_slice(&(body.len() as u32).to_le_bytes());
            }
            out.extend_from_slice(&body);
        }
    }
}
