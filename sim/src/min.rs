//! Makes a failing run small: fewer faults, frames, messages, calls and switches, shorter
//! texts, as long as it fails in the same way.

use std::time::Instant;

use crate::deliver::deliver;
use crate::orch::Outcome;
use crate::scen::*;

/// Leaves out as much of a list as possible in the time there is.
pub fn list<T: Clone>(mut v: Vec<T>, until: Instant, fails: &mut dyn FnMut(&[T]) -> bool) -> Vec<T> {
    if v.is_empty() || Instant::now() > until {
        return v;
    }
    if fails(&[]) {
        return vec![];
    }
    let mut size = v.len().div_ceil(2);
    loop {
        let mut i = 0;
        let mut shorter = false;
        while i < v.len() {
            if Instant::now() > until {
                return v;
            }
            let end = (i + size).min(v.len());
            let mut c = v.clone();
            c.drain(i..end);
            if fails(&c) {
                v = c;
                shorter = true;
            } else {
                i = end;
            }
        }
        if size == 1 && !shorter {
            return v;
        }
        if size > 1 {
            size = size.div_ceil(2);
        }
    }
}

struct Min<'a> {
    s: Scenario,
    class: &'a str,
    until: Instant,
    run: &'a dyn Fn(&Scenario) -> Outcome,
}

impl Min<'_> {
    fn fails(&self, c: &Scenario) -> bool {
        if Instant::now() > self.until {
            return false;
        }
        matches!((self.run)(c), Outcome::Bad(v, _) if v.class == self.class)
    }

    fn attempt(&mut self, change: impl FnOnce(&mut Scenario)) -> bool {
        if Instant::now() > self.until {
            return false;
        }
        let mut c = self.s.clone();
        change(&mut c);
        if c == self.s || !self.fails(&c) {
            return false;
        }
        self.s = c;
        true
    }

    /// Leaves out what can be left out of a list inside the scenario.
    fn shorten<T: Clone>(
        &mut self,
        get: impl Fn(&Scenario) -> Vec<T>,
        set: impl Fn(&mut Scenario, Vec<T>),
    ) {
        if Instant::now() > self.until {
            return;
        }
        let v = get(&self.s);
        if v.is_empty() {
            return;
        }
        let base = self.s.clone();
        let this: &Self = self;
        let v = list(v, self.until, &mut |c| {
            let mut x = base.clone();
            set(&mut x, c.to_vec());
            this.fails(&x)
        });
        let mut c = base.clone();
        set(&mut c, v);
        self.s = c;
    }

    fn frames(s: &mut Scenario, r: usize) -> Option<&mut Vec<Frame>> {
        match s.recs.get_mut(r).map(|r| &mut r.base) {
            Some(Base::Sim { frames }) => Some(frames),
            _ => None,
        }
    }

    fn recording(&mut self, r: usize) {
        // what these properties say holds for sign-ons as servers write them
        let keep = matches!(&self.s.prop[..], "C06" | "C09" | "C10" | "C11" | "C12" | "C13");
        self.shorten(
            |s| s.recs[r].disk.clone(),
            |s, v| s.recs[r].disk = v,
        );
        self.shorten(|s| s.recs[r].net.clone(), |s, v| s.recs[r].net = v);
        if Self::frames(&mut self.s, r).is_some() {
            self.shorten(
                move |s| match &s.recs[r].base {
                    Base::Sim { frames } => {
                        frames.iter().filter(|f| !(keep && f.signon)).cloned().collect()
                    }
                    _ => vec![],
                },
                move |s, v: Vec<Frame>| {
                    if let Some(f) = Self::frames(s, r) {
                        let mut all: Vec<Frame> =
                            f.iter().filter(|f| keep && f.signon).cloned().collect();
                        all.extend(v);
                        *f = all;
                    }
                },
            );
            let n = Self::frames(&mut self.s, r).map_or(0, |f| f.len());
            for i in 0..n {
                if keep && Self::frames(&mut self.s, r).unwrap()[i].signon {
                    continue;
                }
                let parts = |s: &Scenario| match &s.recs[r].base {
                    Base::Sim { frames } => frames[i].parts.clone(),
                    _ => vec![],
                };
                if parts(&self.s).len() > 1 {
                    self.shorten(parts, |s, v| {
                        if let Some(f) = Self::frames(s, r) {
                            f[i].parts = v;
                        }
                    });
                }
                self.attempt(|s| Self::frames(s, r).unwrap()[i].rep = 1);
                self.attempt(|s| Self::frames(s, r).unwrap()[i].ms = 0);
                let k = parts(&self.s).len();
                for j in 0..k {
                    self.part(r, i, j);
                }
                if Instant::now() > self.until {
                    break;
                }
            }
        }
        if let Base::Corpus { len, .. } = self.s.recs[r].base {
            let mut step = len / 2;
            while step > 0 && Instant::now() < self.until {
                if !self.attempt(|s| {
                    if let Base::Corpus { len, .. } = &mut s.recs[r].base {
                        *len = len.saturating_sub(step);
                    }
                }) {
                    step /= 2;
                }
            }
            // small enough to be written out
            let d = deliver(&self.s.recs[r]);
            if d.bytes.len() <= 4096 {
                let b = d.bytes;
                self.attempt(|s| {
                    s.recs[r] = Recording {
                        base: Base::Bytes { bytes: B(b) },
                        net: vec![],
                        disk: vec![],
                    }
                });
            }
        }
        if let Base::Bytes { bytes } = &self.s.recs[r].base {
            if bytes.0.len() <= 20_000 {
                self.shorten(
                    |s| match &s.recs[r].base {
                        Base::Bytes { bytes } => bytes.0.clone(),
                        _ => vec![],
                    },
                    |s, v| s.recs[r].base = Base::Bytes { bytes: B(v) },
                );
            }
        }
    }

    fn part(&mut self, r: usize, i: usize, j: usize) {
        let at = |s: &mut Scenario, f: &dyn Fn(&mut Part)| {
            if let Some(frames) = Self::frames(s, r) {
                f(&mut frames[i].parts[j]);
            }
        };
        let part = match &self.s.recs[r].base {
            Base::Sim { frames } => frames[i].parts[j].clone(),
            _ => return,
        };
        let text_of = |s: &Scenario| -> Vec<u8> {
            match &s.recs[r].base {
                Base::Sim { frames } => match &frames[i].parts[j] {
                    Part::Print { text, .. } | Part::Stuff(text) | Part::Raw(text) => text.0.clone(),
                    Part::Stats { content, .. } | Part::Hidden { content, .. } => content.0.clone(),
                    _ => vec![],
                },
                _ => vec![],
            }
        };
        match part {
            Part::Stats { .. } if matches!(&self.s.prop[..], "C10" | "C11") => {}
            Part::Fill(n) => {
                let mut step = n;
                while step > 0 {
                    if !self.attempt(|s| {
                        at(s, &|p| {
                            if let Part::Fill(n) = p {
                                *n = n.saturating_sub(step);
                            }
                        })
                    }) {
                        step /= 2;
                    }
                }
            }
            Part::Slot(_) => {
                let info = |s: &Scenario| match &s.recs[r].base {
                    Base::Sim { frames } => match &frames[i].parts[j] {
                        Part::Slot(x) => x.info.clone(),
                        _ => vec![],
                    },
                    _ => vec![],
                };
                self.shorten(info, |s, v| {
                    at(s, &|p| {
                        if let Part::Slot(x) = p {
                            x.info.clone_from(&v);
                        }
                    })
                });
            }
            Part::Settings(_) => {
                let kv = |s: &Scenario| match &s.recs[r].base {
                    Base::Sim { frames } => match &frames[i].parts[j] {
                        Part::Settings(x) => x.clone(),
                        _ => vec![],
                    },
                    _ => vec![],
                };
                self.shorten(kv, |s, v| {
                    at(s, &|p| {
                        if let Part::Settings(x) = p {
                            x.clone_from(&v);
                        }
                    })
                });
            }
            Part::Pings(_) => {
                let v = |s: &Scenario| match &s.recs[r].base {
                    Base::Sim { frames } => match &frames[i].parts[j] {
                        Part::Pings(x) => x.clone(),
                        _ => vec![],
                    },
                    _ => vec![],
                };
                self.shorten(v, |s, v| {
                    at(s, &|p| {
                        if let Part::Pings(x) = p {
                            x.clone_from(&v);
                        }
                    })
                });
            }
            Part::Print { .. }
            | Part::Stuff(_)
            | Part::Raw(_)
            | Part::Stats { .. }
            | Part::Hidden { .. } => {
                if text_of(&self.s).len() <= 3000 {
                    self.shorten(text_of, |s, v| {
                        at(s, &|p| match p {
                            Part::Print { text, .. } | Part::Stuff(text) | Part::Raw(text) => {
                                text.0.clone_from(&v)
                            }
                            Part::Stats { content, .. } | Part::Hidden { content, .. } => {
                                content.0.clone_from(&v)
                            }
                            _ => {}
                        })
                    });
                }
            }
            _ => {}
        }
    }

    fn plan(&mut self) {
        self.shorten(|s| s.plan.cuts.clone(), |s, v| s.plan.cuts = v);
        self.shorten(|s| s.plan.players.clone(), |s, v| s.plan.players = v);
        self.shorten(|s| s.plan.stats.clone(), |s, v| s.plan.stats = v);
        if self.s.plan.tasks.len() > 1 {
            self.shorten(|s| s.plan.tasks.clone(), |s, v| s.plan.tasks = v);
        }
        for t in 0..self.s.plan.tasks.len() {
            self.shorten(
                |s| s.plan.tasks[t].clone(),
                |s, v| s.plan.tasks[t] = v,
            );
        }
        self.attempt(|s| s.plan.zone.clear());
        if self.s.plan.switches.as_ref().is_some_and(|s| !s.is_empty()) {
            self.shorten(
                |s| s.plan.switches.clone().unwrap_or_default(),
                |s, v| s.plan.switches = Some(v),
            );
        }
    }
}

pub fn minimise(s: Scenario, class: &str, secs: f64, run: impl Fn(&Scenario) -> Outcome) -> Scenario {
    let mut m = Min {
        s,
        class,
        until: Instant::now() + std::time::Duration::from_secs_f64(secs),
        run: &run,
    };
    for _ in 0..3 {
        let before = m.s.clone();
        m.plan();
        for r in 0..m.s.recs.len() {
            m.recording(r);
        }
        m.attempt(|s| s.clock_ns = 0);
        m.attempt(|s| s.hash_seed = 0);
        if m.s == before || Instant::now() > m.until {
            break;
        }
    }
    m.s
}
