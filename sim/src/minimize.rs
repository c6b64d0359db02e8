//! Shrinks a failing scenario while the same violation persists.

use crate::exec::*;
use crate::oracle::*;
use crate::scenario::*;
use std::time::{Duration, Instant};

pub struct Min<'a> {
    ctx: &'a mut Ctx,
    property: String,
    slug: String,
    tries: u32,
    until: Instant,
}

impl<'a> Min<'a> {
    fn fails(&mut self, sc: &Scenario) -> bool {
        if self.tries == 0 || Instant::now() > self.until {
            return false;
        }
        self.tries -= 1;
        let o = execute(self.ctx, sc, Some(&self.property), false);
        o.violations.iter().any(|v| v.property == self.property && v.slug == self.slug)
    }
    fn attempt(&mut self, best: &mut Scenario, f: impl FnOnce(&mut Scenario)) -> bool {
        let mut c = best.clone();
        f(&mut c);
        if c == *best {
            return false;
        }
        if self.fails(&c) {
            *best = c;
            true
        } else {
            false
        }
    }
    /// Shrink one byte string held somewhere in the scenario.
    fn shrink_bytes(&mut self, best: &mut Scenario, get: &dyn Fn(&Scenario) -> Vec<u8>, set: &dyn Fn(&mut Scenario, Vec<u8>)) {
        // by whole lines, then by words, then by bytes
        for mode in 0..3 {
            let mut chunk = usize::MAX;
            loop {
                let data = get(best);
                let parts = split(&data, mode);
                if parts.len() < 2 && mode < 2 {
                    break;
                }
                if parts.is_empty() {
                    break;
                }
                chunk = chunk.min(parts.len().div_ceil(2));
                let mut i = 0;
                let mut cur = parts;
                while i < cur.len() {
                    let j = (i + chunk).min(cur.len());
                    let mut cand: Vec<Vec<u8>> = cur[..i].to_vec();
                    cand.extend_from_slice(&cur[j..]);
                    let bytes: Vec<u8> = cand.concat();
                    let ok = self.attempt(best, |s| set(s, bytes));
                    if ok {
                        cur = cand;
                    } else {
                        i = j;
                    }
                    if self.tries == 0 || Instant::now() > self.until {
                        return;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
    }
}

fn split(d: &[u8], mode: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    match mode {
        0 => {
            for l in d.split_inclusive(|c| *c == b'\n') {
                v.push(l.to_vec());
            }
        }
        1 => {
            let class = |c: u8| -> u8 {
                if c.is_ascii_alphanumeric() || c == b'_' || c >= 128 {
                    1
                } else if c == b' ' {
                    2
                } else {
                    0
                }
            };
            for &c in d {
                let k = class(c);
                match v.last_mut() {
                    Some(l) if k != 0 && class(l[0]) == k => l.push(c),
                    _ => v.push(vec![c]),
                }
            }
        }
        _ => {
            if d.len() < 200 {
                for &c in d {
                    v.push(vec![c]);
                }
            }
        }
    }
    v
}

pub fn minimize(ctx: &mut Ctx, sc: &Scenario, v: &Violation, budget: Duration) -> Scenario {
    let mut m = Min { ctx, property: v.property.into(), slug: v.slug.clone(), tries: 4000, until: Instant::now() + budget };
    let mut best = sc.clone();
    for round in 0..3 {
        let start = best.clone();
        m.attempt(&mut best, |s| s.settle = false);
        m.attempt(&mut best, |s| s.sample_crashes = false);
        // steps, last first
        let mut i = best.steps.len();
        while i > 0 {
            i -= 1;
            m.attempt(&mut best, |s| {
                s.steps.remove(i);
            });
        }
        for i in 0..best.steps.len() {
            // whole processes
            let mut k = match &best.steps[i] {
                StepSpec::Run { procs, .. } => procs.len(),
                _ => 0,
            };
            while k > 0 {
                k -= 1;
                m.attempt(&mut best, |s| {
                    if let StepSpec::Run { procs, .. } = &mut s.steps[i] {
                        if procs.len() > 1 {
                            procs.remove(k);
                        }
                    }
                });
            }
            m.attempt(&mut best, |s| {
                if let StepSpec::Run { free, .. } = &mut s.steps[i] {
                    *free = None;
                }
            });
            let n = match &best.steps[i] {
                StepSpec::Run { procs, .. } => procs.len(),
                _ => 0,
            };
            for k in 0..n {
                let edit = |s: &mut Scenario, f: &dyn Fn(&mut ProcSpec)| {
                    if let StepSpec::Run { procs, .. } = &mut s.steps[i] {
                        f(&mut procs[k]);
                    }
                };
                m.attempt(&mut best, |s| edit(s, &|p| p.alloc_fail = 0));
                m.attempt(&mut best, |s| edit(s, &|p| p.cwd = b"/".to_vec()));
                let (nf, na) = match &best.steps[i] {
                    StepSpec::Run { procs, .. } => (procs[k].faults.len(), procs[k].args.len()),
                    _ => (0, 0),
                };
                for f in (0..nf).rev() {
                    m.attempt(&mut best, |s| {
                        edit(s, &|p| {
                            p.faults.remove(f);
                        })
                    });
                }
                for a in (0..na).rev() {
                    m.attempt(&mut best, |s| {
                        edit(s, &|p| {
                            p.args.remove(a);
                        })
                    });
                }
                let nf = match &best.steps[i] {
                    StepSpec::Run { procs, .. } => procs[k].faults.len(),
                    _ => 0,
                };
                for f in 0..nf {
                    m.attempt(&mut best, |s| edit(s, &|p| p.faults[f].times = 1));
                }
            }
        }
        let mut i = best.tree.len();
        while i > 0 {
            i -= 1;
            m.attempt(&mut best, |s| {
                s.tree.remove(i);
            });
        }
        for i in 0..best.tree.len() {
            m.attempt(&mut best, |s| match &mut s.tree[i] {
                Item::File { mode, .. } => *mode = 0o644,
                Item::Dir { mode, .. } => *mode = 0o755,
                _ => {}
            });
            m.attempt(&mut best, |s| {
                if let Item::File { formatted, .. } = &mut s.tree[i] {
                    *formatted = false
                }
            });
            for tiny in [&b""[..], b"model M\nend M;\n", b"model M end M;"] {
                m.attempt(&mut best, |s| {
                    if let Item::File { data, .. } = &mut s.tree[i] {
                        if data.len() > tiny.len() {
                            *data = tiny.to_vec()
                        }
                    }
                });
            }
            if matches!(best.tree[i], Item::File { .. }) {
                m.shrink_bytes(
                    &mut best,
                    &|s| if let Item::File { data, .. } = &s.tree[i] { data.clone() } else { vec![] },
                    &|s, d| {
                        if let Item::File { data, .. } = &mut s.tree[i] {
                            *data = d
                        }
                    },
                );
            }
        }
        for i in 0..best.steps.len() {
            if matches!(best.steps[i], StepSpec::Edit { .. }) {
                m.shrink_bytes(
                    &mut best,
                    &|s| if let StepSpec::Edit { data, .. } = &s.steps[i] { data.clone() } else { vec![] },
                    &|s, d| {
                        if let StepSpec::Edit { data, .. } = &mut s.steps[i] {
                            *data = d
                        }
                    },
                );
            }
        }
        let d = Knobs::default();
        m.attempt(&mut best, |s| s.knobs.dir_order = d.dir_order);
        m.attempt(&mut best, |s| s.knobs.dtype_unknown = false);
        m.attempt(&mut best, |s| s.knobs.max_io = 0);
        m.attempt(&mut best, |s| s.knobs.max_fds = d.max_fds);
        m.attempt(&mut best, |s| s.knobs.env = 0);
        m.attempt(&mut best, |s| s.knobs.tmpfs = false);
        m.attempt(&mut best, |s| s.knobs.umask = d.umask);
        m.attempt(&mut best, |s| s.knobs.superuser = false);
        m.attempt(&mut best, |s| s.knobs.latency = d.latency);
        m.attempt(&mut best, |s| s.knobs.clock = d.clock);
        m.attempt(&mut best, |s| s.knobs.pid_base = d.pid_base);
        m.attempt(&mut best, |s| s.knobs.pid_reuse = false);
        m.attempt(&mut best, |s| s.knobs.pid_step = 1);
        m.attempt(&mut best, |s| s.knobs.fsync_journal = false);
        if best == start || round == 2 {
            break;
        }
    }
    best
}
