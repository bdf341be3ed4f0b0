//! The way from the recorder to the reader: relay (frames lost, repeated, late, partitioned
//! away) and disk (crash, torn, lost, repeated and misplaced writes, rot).

use std::collections::{BTreeMap, HashMap};

use crate::scen::*;

pub struct Delivered {
    /// Frames as delivered to the disk (empty for corpus and byte recordings).
    pub frames: Vec<Frame>,
    /// Offset of each of those frames in `clean`.
    pub starts: Vec<usize>,
    /// What was written.
    pub clean: Vec<u8>,
    /// What the reader finds.
    pub bytes: Vec<u8>,
    pub fired: BTreeMap<&'static str, u64>,
}

impl Delivered {
    pub fn intact(&self) -> bool {
        self.clean == self.bytes
    }
}

thread_local! {
    static CORPUS: std::cell::RefCell<HashMap<String, Vec<u8>>> = Default::default();
}

pub const CORPUS_DIR: &str = "/repo/tests/files";

pub fn corpus_names() -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(CORPUS_DIR)
        .map(|d| {
            d.filter_map(|e| e.ok())
                .filter_map(|e| e.file_name().into_string().ok())
                .filter(|n| n.ends_with(".mvd"))
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    v
}

pub fn corpus_bytes(file: &str, from: usize, len: usize) -> Vec<u8> {
    CORPUS.with(|c| {
        let mut c = c.borrow_mut();
        let data = c
            .entry(file.to_string())
            .or_insert_with(|| std::fs::read(format!("{CORPUS_DIR}/{file}")).unwrap_or_default());
        let from = from.min(data.len());
        data[from..data.len().min(from.saturating_add(len))].to_vec()
    })
}

pub fn corpus_len(file: &str) -> usize {
    std::fs::metadata(format!("{CORPUS_DIR}/{file}"))
        .map(|m| m.len() as usize)
        .unwrap_or(0)
}

fn relay(frames: &[Frame], net: &[NetFault], fired: &mut BTreeMap<&'static str, u64>) -> Vec<Frame> {
    let mut out: Vec<Frame> = frames.to_vec();
    let at = |out: &Vec<Frame>, tag: u32| {
        out.iter()
            .position(|f| f.tag == tag && !f.signon)
    };
    for fault in net {
        match fault {
            NetFault::Drop { tag } => {
                if let Some(i) = at(&out, *tag) {
                    out.remove(i);
                    *fired.entry("net.drop").or_default() += 1;
                }
            }
            NetFault::Dup { tag, after } => {
                if let (Some(i), Some(j)) = (at(&out, *tag), at(&out, *after)) {
                    if j >= i {
                        let f = out[i].clone();
                        out.insert(j + 1, f);
                        *fired.entry("net.duplicate").or_default() += 1;
                    }
                }
            }
            NetFault::Delay { tag, after } => {
                if let (Some(i), Some(j)) = (at(&out, *tag), at(&out, *after)) {
                    if j > i {
                        let f = out.remove(i);
                        out.insert(j, f);
                        *fired.entry("net.reorder").or_default() += 1;
                    }
                }
            }
            NetFault::Partition { from, to } => {
                if let (Some(i), Some(j)) = (at(&out, *from), at(&out, *to)) {
                    if j > i {
                        out.drain(i..j);
                        *fired.entry("net.partition").or_default() += 1;
                    }
                }
            }
        }
    }
    out
}

pub fn deliver(rec: &Recording) -> Delivered {
    let mut fired = BTreeMap::new();
    let mut starts = vec![];
    let mut clean = vec![];
    let mut frames = vec![];
    match &rec.base {
        Base::Sim { frames: recorded } => {
            frames = relay(recorded, &rec.net, &mut fired);
            for f in &frames {
                starts.push(clean.len());
                f.encode(&mut clean);
            }
        }
        Base::Corpus { file, from, len } => {
            clean = corpus_bytes(file, *from as usize, *len as usize)
        }
        Base::Bytes { bytes } => clean = bytes.0.clone(),
    }
    let mut bytes = clean.clone();
    let tags: HashMap<u32, usize> = frames
        .iter()
        .zip(&starts)
        .rev()
        .map(|(f, s)| (f.tag, *s))
        .collect();
    let resolve = |p: &Pos| -> Option<usize> {
        if frames.is_empty() {
            Some(p.off as usize)
        } else {
            tags.get(&p.tag).map(|s| s + p.off as usize)
        }
    };
    let mut hit = |k: &'static str| *fired.entry(k).or_default() += 1;
    for fault in &rec.disk {
        match fault {
            DiskFault::Crash { at } => {
                if let Some(p) = resolve(at) {
                    if p < bytes.len() {
                        bytes.truncate(p);
                        hit("disk.crash_truncate");
                    }
                }
            }
            DiskFault::Zero { at, len } => {
                if let Some(p) = resolve(at) {
                    let end = bytes.len().min(p + *len as usize);
                    if p < end {
                        bytes[p..end].fill(0);
                        hit("disk.zero_sector");
                    }
                }
            }
            DiskFault::Flip { at, bit } => {
                if let Some(p) = resolve(at) {
                    if p < bytes.len() {
                        bytes[p] ^= 1 << (bit & 7);
                        hit("disk.bit_flip");
                    }
                }
            }
            DiskFault::Over { at, bytes: b } => {
                if let Some(p) = resolve(at) {
                    let mut n = 0;
                    for (i, x) in b.0.iter().enumerate() {
                        if p + i < bytes.len() {
                            bytes[p + i] = *x;
                            n += 1;
                        }
                    }
                    if n > 0 {
                        hit("disk.overwrite");
                    }
                }
            }
            DiskFault::Lost { at, len } => {
                if let Some(p) = resolve(at) {
                    let end = bytes.len().min(p + *len as usize);
                    if p < end {
                        bytes.drain(p..end);
                        hit("disk.lost_write");
                    }
                }
            }
            DiskFault::Twice { at, len } => {
                if let Some(p) = resolve(at) {
                    let end = bytes.len().min(p + *len as usize);
                    if p < end {
                        let seg = bytes[p..end].to_vec();
                        bytes.splice(end..end, seg);
                        hit("disk.write_twice");
                    }
                }
            }
            DiskFault::Swapped { at, len, len2 } => {
                if let Some(p) = resolve(at) {
                    let mid = p + *len as usize;
                    let end = bytes.len().min(mid + *len2 as usize);
                    if p < mid && mid < end {
                        bytes[p..end].rotate_left(*len as usize);
                        hit("disk.write_swapped");
                    }
                }
            }
            DiskFault::Length { tag, value } => {
                let pos = frames
                    .iter()
                    .position(|f| f.tag == *tag)
                    .map(|i| (starts[i], frames[i].header_len()));
                let pos = match pos {
                    Some((s, h)) if h >= 6 => Some(s + h - 4),
                    None if frames.is_empty() => Some(*tag as usize),
                    _ => None,
                };
                if let Some(p) = pos {
                    if p + 4 <= bytes.len() {
                        bytes[p..p + 4].copy_from_slice(&value.to_le_bytes());
                        hit("disk.torn_length");
                    }
                }
            }
            DiskFault::Tail { bytes: b } => {
                bytes.extend_from_slice(&b.0);
                hit("disk.stale_tail");
            }
        }
    }
    Delivered {
        frames,
        starts,
        clean,
        bytes,
        fired,
    }
}

/// Number of leading bytes that are whole frames, and where each frame starts, by an
/// independent reading of the format.
pub fn whole_frames(data: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0usize;
    loop {
        let Some(head) = data.get(i..i + 2) else { break };
        let kind = head[1] & 7;
        let mut h = 2;
        if kind == 3 {
            h += 4;
        }
        let body = match kind {
            1 | 3 | 4 | 5 | 6 => {
                let Some(b) = data.get(i + h..i + h + 4) else { break };
                h += 4;
                u32::from_le_bytes(b.try_into().unwrap()) as usize
            }
            2 => 8,
            _ => 0,
        };
        let Some(end) = i.checked_add(h).and_then(|x| x.checked_add(body)) else { break };
        if end > data.len() {
            break;
        }
        v.push((i, end));
        i = end;
    }
    v
}
