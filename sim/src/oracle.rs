//! Executes a scenario and judges what happened.

use crate::exec::*;
use crate::launch::Server;
use crate::lexref;
use crate::prng::{hash_bytes, mix, Rng};
use crate::refmodel::*;
use crate::scenario::*;
use crate::vfs::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub property: &'static str,
    pub slug: String,
    pub detail: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Gold {
    Accept(Bytes),
    Refuse,
    Broken(String),
}

/// Brackets within brackets that must be processed.
const DEEP: usize = 20_000;
fn nesting(data: &[u8]) -> usize {
    let (mut d, mut most) = (0usize, 0);
    for c in data {
        match c {
            b'(' | b'[' | b'{' => {
                d += 1;
                most = most.max(d);
            }
            b')' | b']' | b'}' => d = d.saturating_sub(1),
            _ => {}
        }
    }
    most
}

pub struct Ctx {
    pub srv: Server,
    gold: HashMap<Vec<u8>, Gold>,
    checks: HashMap<Vec<u8>, Option<bool>>,
    valid: HashMap<Vec<u8>, Validity>,
    same: HashMap<(u64, u64, bool), bool>,
    pub stats: Stats,
    /// the same program compiled without overflow checks and assertions
    plain: Option<Box<Ctx>>,
}

pub fn show(p: &[u8]) -> String {
    quote(p)
}
fn lossy(p: &[u8]) -> String {
    String::from_utf8_lossy(p).into_owned()
}

impl Ctx {
    pub fn new(bin: &str, plain: Option<&str>, shim: &str) -> Result<Ctx, String> {
        let plain = match plain {
            Some(b) => Some(Box::new(Ctx::new(b, None, shim)?)),
            None => None,
        };
        Ok(Ctx {
            plain,
            srv: Server::start(bin, shim)?,
            gold: HashMap::new(),
            checks: HashMap::new(),
            valid: HashMap::new(),
            same: HashMap::new(),
            stats: Stats::default(),
        })
    }
    pub fn all_stats(&self) -> Stats {
        let mut s = self.stats.clone();
        if let Some(p) = &self.plain {
            s.add(&p.stats);
        }
        s
    }
    /// Keep memory bounded; what is cached is a pure function of content.
    pub fn trim(&mut self) {
        if let Some(p) = &mut self.plain {
            p.trim();
        }
        if self.gold.len() + self.checks.len() + self.valid.len() + self.same.len() > 40_000 {
            self.gold.clear();
            self.checks.clear();
            self.valid.clear();
            self.same.clear();
        }
    }
    fn alone(&mut self, data: &[u8], check: bool) -> (ProcRec, Vfs) {
        let mut v = Vfs::new();
        v.mkdirs(b"/g");
        let d = v.lookup(v.root, b"/g").unwrap();
        v.inodes.get_mut(&d).unwrap().uid = UID;
        v.put_file(b"/g/f.mo", data.to_vec(), 0o644);
        v.sync_all();
        let mut w = World::new(v, Knobs::default(), 1);
        let mut args = vec![];
        if check {
            args.push(b"--check".to_vec());
        }
        args.push(b"/g/f.mo".to_vec());
        let spec = ProcSpec { args, cwd: b"/".to_vec(), alloc_fail: 0, faults: vec![] };
        let mut r = w.run(&self.srv, &mut self.stats, &[spec], &[], None);
        (r.procs.remove(0), w.vfs)
    }
    /// What formatting this content alone, undisturbed, does.
    pub fn gold(&mut self, data: &[u8]) -> Gold {
        if let Some(g) = self.gold.get(data) {
            return g.clone();
        }
        let (p, v) = self.alone(data, false);
        let after = v.read_path(b"/g/f.mo");
        let g = match (p.end, after) {
            (End::Exit(0), Some(a)) => Gold::Accept(a),
            (End::Exit(1), Some(a)) if *a == data => Gold::Refuse,
            (e, _) => Gold::Broken(format!("{e:?} {}", String::from_utf8_lossy(&p.err).lines().next().unwrap_or(""))),
        };
        self.gold.insert(data.to_vec(), g.clone());
        g
    }
    /// The verdict of --check on this content alone; None if it gives none.
    pub fn check_alone(&mut self, data: &[u8]) -> Option<bool> {
        if let Some(g) = self.checks.get(data) {
            return *g;
        }
        let (p, _) = self.alone(data, true);
        let vs = verdicts(&p.out);
        let r = match (p.end, vs.as_slice()) {
            (End::Exit(0), [(_, true)]) => Some(true),
            (End::Exit(1), [(_, false)]) => Some(false),
            _ => None,
        };
        self.checks.insert(data.to_vec(), r);
        r
    }
    pub fn valid(&mut self, data: &[u8]) -> Validity {
        if let Some(v) = self.valid.get(data) {
            return v.clone();
        }
        let mut v = validity(data);
        // Code may be nested more deeply than it can be processed: how deep that
        // is is up to mofmt, as long as it says so.
        if v == Validity::Ok && nesting(data) > DEEP && self.gold(data) == Gold::Refuse {
            v = Validity::Syntax;
        }
        self.valid.insert(data.to_vec(), v.clone());
        v
    }
    /// The formatted text this content must end up as, if it is well-formed
    /// and mofmt formats it when alone.
    pub fn want(&mut self, data: &[u8]) -> Option<Bytes> {
        if self.valid(data) != Validity::Ok {
            return None;
        }
        match self.gold(data) {
            Gold::Accept(b) => Some(b),
            _ => None,
        }
    }
    fn same_stream(&mut self, a: &[u8], b: &[u8], comments: bool) -> Result<(), String> {
        if a == b {
            return Ok(());
        }
        let key = (hash_bytes(a), hash_bytes(b), comments);
        if self.same.get(&key) == Some(&true) {
            return Ok(());
        }
        let r = diff_streams(a, b, comments);
        if r.is_ok() {
            self.same.insert(key, true);
        }
        r
    }
}

fn diff_streams(a: &[u8], b: &[u8], comments: bool) -> Result<(), String> {
    let (Ok(a), Ok(b)) = (std::str::from_utf8(a), std::str::from_utf8(b)) else {
        return Err("not text any more".into());
    };
    let Ok(la) = lexref::lex(a) else { return Ok(()) };
    let lb = lexref::lex(b).map_err(|e| format!("result does not lex at {}:{}", e.line, e.col))?;
    let (x, y): (Vec<String>, Vec<String>) = if comments {
        (lexref::all(&la), lexref::all(&lb))
    } else {
        (
            lexref::code(&la).iter().map(|s| s.to_string()).collect(),
            lexref::code(&lb).iter().map(|s| s.to_string()).collect(),
        )
    };
    if x == y {
        return Ok(());
    }
    let k = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
    let ctx = |v: &[String]| v[k.saturating_sub(3)..(k + 3).min(v.len())].join(" ");
    Err(format!("item {k}: author wrote [{}], file has [{}]", ctx(&x), ctx(&y)))
}

/// (name, passed) for every verdict line on standard output.
pub fn verdicts(out: &[u8]) -> Vec<(Vec<u8>, bool)> {
    let mut v = Vec::new();
    for l in out.split(|c| *c == b'\n') {
        if let Some(n) = l.strip_suffix(b": check passed") {
            v.push((n.to_vec(), true));
        } else if let Some(n) = l.strip_suffix(b": check failed") {
            v.push((n.to_vec(), false));
        }
    }
    v
}
/// (line, column) of every diagnostic that starts with `name:`.
pub fn diagnostics(text: &[u8], name: &str) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for l in String::from_utf8_lossy(text).split('\n') {
        if let Some(r) = l.strip_prefix(name).and_then(|r| r.strip_prefix(':')) {
            let mut it = r.splitn(3, ':');
            if let (Some(a), Some(b), Some(_)) = (it.next(), it.next(), it.next()) {
                if let (Ok(a), Ok(b)) = (a.parse(), b.parse()) {
                    v.push((a, b));
                }
            }
        }
    }
    v
}
pub fn mentions(p: &ProcRec, name: &[u8]) -> bool {
    let n = lossy(name);
    String::from_utf8_lossy(&p.out).contains(&n) || String::from_utf8_lossy(&p.err).contains(&n)
}

fn is_hard(f: &Fired) -> bool {
    matches!(f.kind, Kind::Err(_) | Kind::AnyErr(_)) && f.errno != EINTR
}
fn is_disturbance(f: &Fired) -> bool {
    is_hard(f) || matches!(f.kind, Kind::Ext(_))
}

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub trace: u64,
    pub log: Vec<String>,
    pub nontrivial: bool,
    /// rare conditions this scenario reached
    pub probes: BTreeSet<&'static str>,
}

struct Exec<'a> {
    ctx: &'a mut Ctx,
    w: World,
    authored: BTreeMap<Vec<u8>, Bytes>,
    viol: Vec<Violation>,
    log: Vec<String>,
    verbose: bool,
    /// properties to evaluate: everything, or only the one being checked
    only: Option<String>,
    root: Vec<u8>,
    nontrivial: bool,
    probes: BTreeSet<&'static str>,
}

pub const ROOT: &[u8] = b"/w";

pub fn execute(ctx: &mut Ctx, sc: &Scenario, only: Option<&str>, verbose: bool) -> Outcome {
    if sc.knobs.plain {
        if let Some(c) = &mut ctx.plain {
            return execute(c, sc, only, verbose);
        }
    }
    let mut v = Vfs::new();
    v.clock = sc.knobs.clock - 3_600_000_000_000;
    v.mkdirs(ROOT);
    v.mkdirs(b"/tmp");
    let mut authored: BTreeMap<Vec<u8>, Bytes> = BTreeMap::new();
    let mut dirmodes = vec![];
    for i in &sc.tree {
        match i {
            Item::Dir { path, mode } => {
                let d = v.mkdirs(path);
                dirmodes.push((d, *mode));
            }
            Item::File { path, mode, data, formatted } => {
                let mut d = data.clone();
                if *formatted {
                    if let Some(b) = ctx.want(&d) {
                        d = (*b).clone();
                    }
                }
                if v.lookup(v.root, path).is_ok() {
                    continue;
                }
                v.put_file(path, d, *mode);
            }
            Item::Link { path, target } => {
                let (d, n) = Vfs::split(path);
                let (d, n) = (d.to_vec(), n.to_vec());
                let dir = v.mkdirs(&d);
                if v.dir(dir).map(|e| e.contains_key(&n)).unwrap_or(true) {
                    continue;
                }
                let l = v.alloc(Node::Link(target.clone()), 0o777);
                v.add_entry(dir, &n, l);
            }
            Item::Hard { path, target } => {
                let (d, n) = Vfs::split(path);
                let (d, n) = (d.to_vec(), n.to_vec());
                let dir = v.mkdirs(&d);
                let Some(i) = v.find(target) else { continue };
                if v.file(i).is_none() || v.dir(dir).map(|e| e.contains_key(&n)).unwrap_or(true) {
                    continue;
                }
                v.hard = true;
                v.add_entry(dir, &n, i);
            }
        }
    }
    for (d, m) in dirmodes {
        v.inodes.get_mut(&d).unwrap().mode = m;
    }
    let now = sc.knobs.clock;
    for (i, n) in v.inodes.iter_mut() {
        n.uid = UID;
        // files come from archives, other machines, and from the future
        if sc.world_seed % 3 == 0 {
            const DAY: i64 = 86_400_000_000_000;
            n.mtime = match mix(sc.world_seed ^ *i as u64) % 6 {
                0 => 0,
                1 => now.saturating_add(DAY),
                2 => now.saturating_add(20_000 * DAY),
                3 => now.saturating_sub(3_000 * DAY).max(0),
                4 => now,
                _ => n.mtime,
            };
        }
    }
    v.sync_all();
    for (p, e) in v.dump() {
        if e.kind == 'f' {
            authored.insert(p, e.data);
        }
    }
    let mut w = World::new(v, sc.knobs.clone(), sc.world_seed);
    w.sample_crashes = sc.sample_crashes;
    let mut ex = Exec {
        ctx,
        w,
        authored,
        viol: vec![],
        log: vec![],
        verbose,
        only: only.map(|s| s.to_string()),
        root: ROOT.to_vec(),
        nontrivial: false,
        probes: BTreeSet::new(),
    };
    for st in &sc.steps {
        ex.step(st);
    }
    if sc.settle {
        ex.settle();
    }
    if ex.on("C09") || ex.on("C07") || ex.on("C08") || ex.on("C10") {
        ex.contents();
    }
    let trace = ex.w.trace;
    Outcome { violations: ex.viol, trace, log: ex.log, nontrivial: ex.nontrivial, probes: ex.probes }
}

impl<'a> Exec<'a> {
    fn on(&self, p: &str) -> bool {
        self.only.as_deref().map(|o| o == p).unwrap_or(true)
    }
    fn bad(&mut self, property: &'static str, slug: &str, detail: String) {
        if !self.on(property) {
            return;
        }
        if self.viol.len() < 50 {
            self.viol.push(Violation { property, slug: slug.into(), detail });
        }
    }

    fn step(&mut self, st: &StepSpec) {
        match st {
            StepSpec::Run { procs, free } => self.run(procs, *free, false),
            StepSpec::Edit { path, data } => {
                let ok = self.w.vfs.overwrite(path, data.clone());
                if !ok && self.w.vfs.lookup(self.w.vfs.root, path).is_err() {
                    self.w.vfs.put_file(path, data.clone(), 0o644);
                }
                self.w.vfs.sync_all();
                self.reauthor(path);
            }
            StepSpec::Splice { path, seed } => {
                if let Some(cur) = self.w.vfs.read_path(path) {
                    let other = self.ctx.want(&cur).unwrap_or_else(|| cur.clone());
                    let mut r = Rng::new(*seed);
                    let blk = *r.pick(&[16usize, 64, 512, 4096]);
                    let mut out = Vec::new();
                    let n = cur.len().max(other.len());
                    let mut i = 0;
                    while i < n {
                        let src = if r.pct(50) { &cur } else { &other };
                        let e = (i + blk).min(src.len());
                        if i < e {
                            out.extend_from_slice(&src[i..e]);
                        }
                        i += blk;
                    }
                    self.w.vfs.overwrite(path, out);
                    self.w.vfs.sync_all();
                    self.reauthor(path);
                }
            }
            StepSpec::Chmod { path, mode } => {
                let v = &mut self.w.vfs;
                if let Ok(i) = v.lookup(v.root, path) {
                    v.inodes.get_mut(&i).unwrap().mode = *mode;
                }
            }
            StepSpec::Remove { path } => {
                let v = &mut self.w.vfs;
                if let Ok(r) = v.resolve(v.root, path, false) {
                    if r.ino.is_some() && !r.name.is_empty() {
                        v.del_entry(r.dir, &r.name);
                        v.sync_all();
                    }
                }
            }
            StepSpec::Outage { seed } => {
                let before = self.w.vfs.dump();
                let mut r = Rng::new(*seed);
                let v = self.w.vfs.after_power_loss(&mut r);
                self.w.vfs = v;
                self.ctx.stats.power_losses += 1;
                self.say(|| format!("-- power loss while idle (seed {seed})"));
                self.outage_check(&before);
            }
            StepSpec::Sync => self.w.vfs.sync_all(),
        }
    }
    fn say(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }
    fn reauthor(&mut self, path: &[u8]) {
        let v = &self.w.vfs;
        if let Some(i) = v.lookup(v.root, path).ok().or_else(|| v.find(path)) {
            if let Some(f) = v.file(i) {
                let data = f.data.clone();
                // under each of its names
                let names: Vec<Vec<u8>> = if v.hard { v.dump().into_keys().filter(|p| v.find(p) == Some(i)).collect() } else { vec![v.path_of(i)] };
                for p in names {
                    self.authored.insert(p, data.clone());
                }
            }
        }
    }

    /// Nothing ran: what a power loss may do to files that runs wrote earlier.
    fn outage_check(&mut self, before: &BTreeMap<Vec<u8>, Entry>) {
        let now = self.w.vfs.dump();
        let auth = self.authored.clone();
        for (p, e) in before {
            if e.kind != 'f' || !auth.contains_key(p) {
                continue;
            }
            let a = auth[p].clone();
            match now.get(p) {
                Some(n) if n.data == e.data => {}
                n => {
                    let ok = match n {
                        Some(n) => n.data == a || self.ctx.want(&a).map(|w| w == n.data).unwrap_or(false),
                        None => false,
                    };
                    if !ok {
                        self.bad(
                            "C03",
                            "lost-after-outage",
                            format!("{}: after a power loss it holds neither its previous nor its formatted contents: {}", show(p), brief(n.map(|n| &n.data))),
                        );
                    }
                    if let Some(n) = n {
                        let n = n.data.clone();
                        self.streams(p, &a, &n, "after a power loss");
                    }
                }
            }
        }
    }

    fn streams(&mut self, p: &[u8], author: &[u8], now: &[u8], when: &str) {
        if self.on("C07") {
            if let Err(d) = self.ctx.same_stream(author, now, false) {
                self.bad("C07", "code-changed", format!("{} {when}: {d}", show(p)));
            }
        }
        if self.on("C08") && diff_ok_code(author, now) {
            if let Err(d) = self.ctx.same_stream(author, now, true) {
                self.bad("C08", "comment-lost-or-moved", format!("{} {when}: {d}", show(p)));
            }
        }
    }

    fn run(&mut self, specs: &[ProcSpec], free: Option<i64>, settling: bool) {
        let before = self.w.vfs.clone();
        let dump0 = before.dump();
        let clean0 = !before.has_unsynced();
        let watch: Vec<Vec<u8>> = dump0
            .iter()
            .filter(|(p, e)| e.kind == 'f' && is_mo(base(p)))
            .map(|(p, _)| p.clone())
            .collect();
        let mut stats = std::mem::take(&mut self.ctx.stats);
        let mut rec = self.w.run(&self.ctx.srv, &mut stats, specs, &watch, free);
        self.ctx.stats = stats;
        // fired paths in canonical form
        for p in rec.procs.iter_mut() {
            let cwd = before.lookup(before.root, &p.cwd).unwrap_or(before.root);
            for f in p.fired.iter_mut() {
                f.path = canonical(&before, cwd, &f.path);
            }
        }
        if self.verbose {
            self.describe(&rec, free);
        }
        let after = self.w.vfs.clone();
        let dump1 = after.dump();
        self.probe(&rec, &dump0, &dump1);

        // contents every source file showed, live or after a sampled outage
        let ext: Vec<&Ext> = rec.procs.iter().flat_map(|p| p.fired.iter()).filter_map(|f| if let Kind::Ext(e) = &f.kind { Some(e) } else { None }).collect();
        let removed = |p: &[u8]| ext.iter().any(|e| matches!(e, Ext::Remove(q) if q == p));
        let ext: Vec<Ext> = ext.iter().map(|e| (*e).clone()).collect();
        for (p, seen) in &rec.seen {
            let old = dump0[p].data.clone();
            let want = self.ctx.want(&old);
            let valid = self.ctx.valid(&old) == Validity::Ok;
            let author = self.authored.get(p).cloned();
            for s in seen {
                match &s.data {
                    None => {
                        if !removed(p) {
                            self.bad("C03", "file-missing", format!("{} does not exist at operation {} ({})", show(p), s.at_op, s.how));
                        }
                    }
                    Some(d) => {
                        if *d == old {
                            continue;
                        }
                        if !valid {
                            let val = self.ctx_valid(&old);
                            self.bad(
                                "C02",
                                "unformattable-file-modified",
                                format!("{} is {:?} and was changed to {} ({})", show(p), val, brief(Some(d)), s.how),
                            );
                        }
                        // what an earlier run left unsynced may fall back to the author's text
                        let fallback = author.as_ref().map(|a| a == d).unwrap_or(false) && s.how != "live";
                        if want.as_ref() != Some(d) && !fallback && (valid && want.is_some()) {
                            self.bad(
                                "C03",
                                "neither-old-nor-new",
                                format!("{} at operation {} ({}): {}", show(p), s.at_op, s.how, brief(Some(d))),
                            );
                        }
                        if let Some(a) = &author {
                            let (a, d) = (a.clone(), d.clone());
                            self.streams(p, &a, &d, s.how);
                        }
                    }
                }
            }
        }

        for p in &rec.procs {
            self.single(p, &before, &after, &rec, &dump0, &dump1, free, clean0, settling);
        }
        self.tree(&rec, &before, &dump0, &dump1, &ext);
        if rec.procs.len() > 1 {
            self.together(&rec, &before, &dump0, &dump1, &ext, free);
        }
    }
    /// Which rare conditions did this step reach?
    fn probe(&mut self, rec: &StepRec, d0: &BTreeMap<Vec<u8>, Entry>, d1: &BTreeMap<Vec<u8>, Entry>) {
        let rewritten = d0.iter().any(|(p, e)| e.kind == 'f' && d1.get(p).map(|n| n.data != e.data).unwrap_or(true));
        let looked = rec.procs.iter().any(|p| p.ops.iter().any(|o| matches!(o.cls, Cls::Read | Cls::ReadDir)));
        let fired = rec.procs.iter().any(|p| !p.fired.is_empty() || p.alloc_fail != 0);
        let refused = rec.procs.iter().any(|p| p.end == End::Exit(1));
        self.nontrivial |= looked && (rewritten || fired || refused || rec.procs.len() > 1);
        if rewritten {
            self.probes.insert("a file was rewritten");
        }
        if rec.power_lost {
            self.probes.insert("power lost during a run");
        }
        if rec.procs.len() > 1 && rec.switches > 3 {
            self.probes.insert("runs interleaved");
        }
        for p in &rec.procs {
            let wrote = p.ops.iter().any(|o| o.mutated);
            if p.end == End::Killed && wrote {
                self.probes.insert("killed after it had changed the disk");
            }
            if p.end == End::Exit(1) && wrote {
                self.probes.insert("run failed after it had changed the disk");
            }
            for f in &p.fired {
                if is_hard(f) && matches!(f.cls, Cls::Write | Cls::Fsync | Cls::Rename | Cls::OpenW) {
                    self.probes.insert("storing a file failed");
                }
                if is_hard(f) && matches!(f.cls, Cls::OpenDir | Cls::ReadDir) {
                    self.probes.insert("reading a directory failed");
                }
                if is_hard(f) && matches!(f.cls, Cls::OpenR | Cls::Read) {
                    self.probes.insert("reading a file failed");
                }
            }
            if p.ops.iter().any(|o| o.err == ENOSPC) {
                self.probes.insert("disk full");
            }
        }
        for p in d1.keys() {
            if !d0.contains_key(p) {
                self.probes.insert("a stopped run left something behind");
            }
        }
    }
    fn ctx_valid(&mut self, d: &[u8]) -> Validity {
        self.ctx.valid(d)
    }

    fn describe(&mut self, rec: &StepRec, free: Option<i64>) {
        for p in &rec.procs {
            let mut s = format!("-- mofmt{} -> {:?}", command(&p.args), p.end);
            if let Some(f) = free {
                s += &format!(" (disk has {f} bytes free)");
            }
            for (i, o) in p.ops.iter().enumerate() {
                let f = p.fired.iter().filter(|f| f.op as usize == i).map(|f| format!("   <== fault {:?}", f.kind)).collect::<String>();
                s += &format!(
                    "\n   {i:4} {:10} {} = {}{}{f}",
                    o.cls.name(),
                    quote(&o.path),
                    if o.ret == i64::MIN { "(never returned)".into() } else { o.ret.to_string() },
                    if o.err != 0 { format!(" errno {}", o.err) } else { String::new() }
                );
                if i > 400 {
                    s += "\n   ...";
                    break;
                }
            }
            if !p.out.is_empty() {
                s += &format!("\n   stdout: {}", quote(&p.out));
            }
            if !p.err.is_empty() {
                s += &format!("\n   stderr: {}", quote(&p.err));
            }
            self.log.push(s);
        }
        if rec.power_lost {
            self.log.push("-- power lost".into());
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn single(
        &mut self,
        p: &ProcRec,
        before: &Vfs,
        after: &Vfs,
        rec: &StepRec,
        dump0: &BTreeMap<Vec<u8>, Entry>,
        dump1: &BTreeMap<Vec<u8>, Entry>,
        free: Option<i64>,
        clean0: bool,
        settling: bool,
    ) {
        let (m, paths) = mode(&p.args);
        let alone = rec.procs.len() == 1;
        let wk = walk(before, &p.cwd, paths);
        let cwd = before.lookup(before.root, &p.cwd).unwrap_or(before.root);
        if wk.truncated {
            return;
        }
        let hard: Vec<&Fired> = p.fired.iter().filter(|f| is_disturbance(f)).collect();
        let out_hard = hard.iter().any(|f| matches!(f.cls, Cls::Out | Cls::ErrOut));
        let nospace = free.is_some() && p.ops.iter().any(|o| o.err == ENOSPC);
        // no memory, or no thread: nothing can be expected but a truthful failure
        let starved = p.alloc_fail != 0 || p.fired.iter().any(|f| f.cls == Cls::Thread && f.errno != 0);
        let unaffected_by_faults = hard.is_empty() && !starved && !nospace;
        let what = || format!("mofmt{}", command(&p.args));

        // ---- C01
        if m == Mode::Check {
            for o in &p.ops {
                if o.mutated {
                    let by_ext = p.fired.iter().any(|f| matches!(f.kind, Kind::Ext(_)));
                    if !by_ext {
                        self.bad("C01", "check-run-modifies", format!("{}: {} on {} changed the disk", what(), o.cls.name(), show(&o.path)));
                    }
                }
            }
            if alone && !rec.power_lost && !p.fired.iter().any(|f| matches!(f.kind, Kind::Ext(_))) {
                if let Some(d) = diff_dumps(dump0, dump1) {
                    self.bad("C01", "check-run-changes-tree", format!("{}: {d}", what()));
                }
            }
            if alone && rec.power_lost && clean0 && !p.fired.iter().any(|f| matches!(f.kind, Kind::Ext(_))) {
                if let Some(d) = diff_dumps(dump0, dump1) {
                    self.bad("C01", "check-run-changes-tree", format!("{} and a power loss: {d}", what()));
                }
            }
        }
        if !p.escapes.is_empty() {
            let d = format!("{} calls {:?}", what(), p.escapes);
            self.bad("C13", "unexpected-system-call", d);
        }

        // ---- C10: a run always ends by itself with 0 or 1
        let mem = starved || p.fired.iter().any(|f| f.errno == ENOMEM);
        match p.end {
            End::Exit(0) | End::Exit(1) | End::Killed | End::PowerLost => {}
            e if !mem && !(out_hard && matches!(m, Mode::Info | Mode::Bad)) => {
                let d = format!("{} ended with {e:?}: {}", what(), lossy(&p.err).chars().take(300).collect::<String>());
                let slug = match e {
                    End::Exit(_) => "abnormal-exit-status",
                    End::Signal(_) => "crash",
                    _ => "does-not-finish",
                };
                self.bad("C10", slug, d.clone());
                if matches!(e, End::Hung | End::Budget) {
                    self.bad("C06", "walk-does-not-end", d);
                }
            }
            _ => {}
        }
        let exit = match p.end {
            End::Exit(c) => Some(c),
            _ => None,
        };
        if m == Mode::Info || m == Mode::Bad {
            if let Some(c) = exit {
                if m == Mode::Bad && c == 0 {
                    self.bad("C04", "bad-command-line-accepted", format!("{} exits 0", what()));
                }
                if m == Mode::Info && c != 0 && unaffected_by_faults {
                    self.bad("C04", "help-or-version-fails", format!("{} exits {c}", what()));
                }
            }
            if alone && !rec.power_lost && hard.is_empty() {
                if let Some(d) = diff_dumps(dump0, dump1) {
                    self.bad("C13", "no-input-but-changes", format!("{}: {d}", what()));
                    self.bad("C02", "no-input-but-changes", format!("{}: {d}", what()));
                }
            }
            return;
        }

        // ---- per input
        let by = wk.by_canon();
        let mut all_ok = wk.problems.is_empty();
        let mut first_bad = wk.problems.first().map(|x| format!("{} cannot be processed", show(x)));
        // nothing stands in the way of a success
        let mut in_order = wk.problems.is_empty();
        let mut ambiguous = wk.doubtful > 0;
        let unprocessed_budget: u32 = hard.iter().filter(|f| !by.contains_key(&f.path) && !f.path.is_empty() && !wk.dirs.contains(&f.path)).count() as u32;
        let mut unprocessed: Vec<(Vec<u8>, String)> = vec![];
        let verds = verdicts(&p.out);
        let mut judged = 0;
        for (canon, ins) in &by {
            let Some(e0) = dump0.get(canon) else { continue };
            let old = e0.data.clone();
            let readable = ins.iter().all(|i| i.readable);
            let writable = ins.iter().all(|i| i.writable);
            let val = self.ctx.valid(&old);
            let valid = val == Validity::Ok;
            let want = self.ctx.want(&old);
            let now = dump1.get(canon).map(|e| e.data.clone());
            let names: BTreeSet<Vec<u8>> = ins.iter().map(|i| lossy(&i.name).into_bytes()).collect();
            // another path may be printed alike when names are not UTF-8
            let name_clash = by.iter().any(|(c, o)| c != canon && o.iter().any(|i| names.contains(&lossy(&i.name).into_bytes())));
            let mine: Vec<bool> = verds.iter().filter(|(n, _)| names.contains(n)).map(|(_, v)| *v).collect();
            let fully_read = p.complete_reads.get(canon).map(|l| l.iter().any(|d| **d == *old)).unwrap_or(false);
            let needs_change = want.as_ref().map(|w| *w != old).unwrap_or(false);
            let hit = hard.iter().any(|f| {
                f.path == *canon
                    || ins.iter().any(|i| canonical(before, cwd, &i.name) == f.path)
                    || (wk.dirs.contains(&f.path) && under(canon, &f.path) && matches!(f.cls, Cls::Stat | Cls::OpenDir | Cls::ReadDir | Cls::Path | Cls::Other | Cls::OpenR))
                    // a directory reached through a link
                    || (wk.dirs.contains(&f.path) && before.inodes.values().any(|n| matches!(n.node, Node::Link(_))))
            });
            judged += 1;
            // someone else removed, created or re-moded it (or what leads to it)
            let meddled = p.fired.iter().any(|f| match &f.kind {
                Kind::Ext(Ext::Remove(q) | Ext::Chmod(q, _) | Ext::Create(q, _)) => {
                    let cq = canonical(before, before.root, q);
                    q == canon || cq == *canon || under(canon, q) || under(canon, &cq) || ins.iter().any(|i| i.name == *q || i.name.ends_with(base(q)))
                }
                _ => false,
            });

            let ok_now = match m {
                Mode::Format => readable && valid && fully_read && (now.is_some() && now == want),
                _ => readable && valid && fully_read && want.as_ref() == Some(&old),
            };
            in_order &= readable && valid && if m == Mode::Format { now.is_some() && now == want } else { want.as_ref() == Some(&old) };
            if !ok_now {
                all_ok = false;
                if first_bad.is_none() {
                    first_bad = Some(if !valid {
                        format!("{} is not well-formed ({val:?})", show(canon))
                    } else if !fully_read {
                        format!("{} was not read completely", show(canon))
                    } else if m == Mode::Format {
                        format!("{} does not hold its formatted text", show(canon))
                    } else {
                        format!("{} is not formatted", show(canon))
                    });
                }
            }
            if !writable && needs_change && m == Mode::Format {
                ambiguous = true;
            }

            // ---- C02
            if !valid || !readable {
                if alone && !rec.power_lost && now.as_ref() != Some(&old) && hard.iter().all(|f| !matches!(f.kind, Kind::Ext(_))) {
                    let d = format!("{}: {} ({}) now holds {}", what(), show(canon), if readable { format!("{val:?}") } else { "unreadable".into() }, brief(now.as_ref()));
                    self.bad("C02", "unformattable-file-modified", d);
                }
                if exit == Some(0) && !meddled {
                    let d = format!("{} exits 0 although {} is {}", what(), show(canon), if readable { format!("{val:?}") } else { "unreadable".into() });
                    self.bad("C02", "unformattable-file-accepted", d);
                }
            }
            // a read that keeps failing
            if p.fired.iter().any(|f| is_hard(f) && f.cls == Cls::Read && f.path == *canon) && !fully_read {
                if alone && !rec.power_lost && now.as_ref() != Some(&old) {
                    let d = format!("{}: {} could not be read, yet was changed to {}", what(), show(canon), brief(now.as_ref()));
                    self.bad("C02", "unreadable-file-modified", d);
                }
                if exit == Some(0) {
                    let d = format!("{} exits 0 although reading {} failed", what(), show(canon));
                    self.bad("C02", "unreadable-file-accepted", d);
                }
            }

            // ---- C03, second half
            if let (Mode::Format, Some(0), true, true) = (&m, exit, alone && !rec.power_lost, valid && want.is_some()) {
                if now != want && !hard.iter().any(|f| matches!(f.kind, Kind::Ext(_))) && (!hard.is_empty() || nospace) && readable {
                    let d = format!("{} exits 0 but {} holds {}", what(), show(canon), brief(now.as_ref()));
                    self.bad("C03", "failed-store-not-reported", d);
                }
            }

            // ---- C05
            let judge05 = exit.is_some() && alone && (!out_hard || m == Mode::Format) && !starved && free.is_none() && readable && !hit && !meddled;
            let crashed = !matches!(p.end, End::Exit(_) | End::Killed | End::PowerLost) && alone && !mem && free.is_none() && readable && !hit && !meddled;
            if (judge05 || crashed) && valid && want.is_some() {
                match m {
                    Mode::Format => {
                        if writable && now != want {
                            unprocessed.push((canon.clone(), format!("should hold its formatted text, holds {}", brief(now.as_ref()))));
                        }
                    }
                    _ => {
                        let expect = want.as_ref() == Some(&old);
                        if !name_clash && (mine.is_empty() || mine.iter().any(|v| *v != expect)) {
                            unprocessed.push((canon.clone(), format!("alone its verdict is {}, here {:?}", if expect { "passed" } else { "failed" }, mine)));
                        }
                    }
                }
            }
            if judge05 && !out_hard && !valid && !name_clash && !meddled && unprocessed_budget == 0 {
                let said = ins.iter().any(|i| !diagnostics(&p.out, &lossy(&i.name)).is_empty() || !diagnostics(&p.err, &lossy(&i.name)).is_empty() || mentions(p, &i.name));
                if !said {
                    let d = format!("{}: malformed {} is not diagnosed", what(), show(canon));
                    self.bad("C05", "refusal-depends-on-batch", d.clone());
                    self.bad("C10", "refused-file-not-named", d);
                }
            }

            // ---- C06: covered exactly once
            let overlap = ins.len() as u32;
            if m == Mode::Check && exit.is_some() && alone && !out_hard && valid && readable && !hit && unaffected_by_faults && want.is_some() && !name_clash && ins.iter().any(|i| i.from_dir) {
                if mine.is_empty() {
                    self.bad("C06", "file-not-covered", format!("{}: no verdict for {}", what(), show(canon)));
                } else if mine.len() as u32 > overlap {
                    self.bad("C06", "file-covered-twice", format!("{}: {} verdicts for {}, reachable {} time(s)", what(), mine.len(), show(canon), overlap));
                }
            }
            if m == Mode::Format && exit.is_some() && alone && unaffected_by_faults && valid && readable && writable && want.is_some() && ins.iter().any(|i| i.from_dir) && now != want {
                self.bad("C06", "file-not-covered", format!("{}: {} was not formatted", what(), show(canon)));
            }

            // ---- C10 / C11 / C09
            if valid && readable && want.is_none() && judge05 {
                // reported by contents()
            }
            if m == Mode::Check && exit == Some(0) && out_hard && alone && !hit && !meddled && !name_clash && valid && readable && mine.is_empty() {
                self.bad("C11", "verdict-lost", format!("{}: exits 0 although the verdict on {} could not be printed", what(), show(canon)));
            }
            if let (Some(_), true, false) = (exit, alone && !out_hard, hit) {
                if m == Mode::Check && unaffected_by_faults && readable && !name_clash && want.is_some() {
                    if mine.is_empty() || mine.len() as u32 > overlap {
                        self.bad("C11", "verdict-count", format!("{}: {} verdict lines for {}", what(), mine.len(), show(canon)));
                    }
                    let expect = want.as_ref() == Some(&old);
                    if mine.iter().any(|v| *v != expect) {
                        self.bad("C11", "verdict-wrong", format!("{}: says {} is {}", what(), show(canon), if expect { "unformatted" } else { "formatted" }));
                        if settling {
                            self.bad("C09", "check-disagrees", format!("{}: says {} is {}", what(), show(canon), if expect { "unformatted" } else { "formatted" }));
                        }
                    }
                }
                if m == Mode::Check && !valid && mine.iter().any(|v| *v) {
                    self.bad("C11", "malformed-file-passes", format!("{}: says malformed {} is formatted", what(), show(canon)));
                }
                if readable && !name_clash && !valid && val != Validity::NotUtf8 && unaffected_by_faults {
                    self.diag(p, ins, &old, &val, canon, &what());
                }
            }
            if exit.is_some() && alone && !out_hard && !starved {
                let named = ins.iter().any(|i| mentions(p, &i.name));
                if m == Mode::Format && readable && valid && want.is_some() && now != want && !named && hard.iter().all(|f| !matches!(f.kind, Kind::Ext(_))) {
                    let dir_named = wk.dirs.iter().any(|d| (under(canon, d) || ins.iter().any(|i| passes(before, cwd, &i.name, d))) && hard.iter().any(|f| f.path == *d));
                    if !dir_named {
                        self.bad("C11", "unwritten-file-not-named", format!("{}: {} was not formatted and nothing names it", what(), show(canon)));
                    }
                }
                if (!readable || val == Validity::NotUtf8) && !named && !hit && !meddled {
                    self.bad("C11", "unreadable-input-not-named", format!("{}: nothing names {}", what(), show(canon)));
                    self.bad("C10", "refused-file-not-named", format!("{}: nothing names {}", what(), show(canon)));
                }
                if m == Mode::Format && valid && want.is_some() && now == want && readable && unaffected_by_faults && !name_clash {
                    for n in &names {
                        let n = lossy(n);
                        let said = |t: &[u8]| String::from_utf8_lossy(t).lines().any(|l| l.strip_prefix(&n).map(|r| r.starts_with(':')).unwrap_or(false));
                        if said(&p.out) || said(&p.err) {
                            self.bad("C11", "chatter-about-formatted-file", format!("{}: mentions {} although it was formatted", what(), show(canon)));
                        }
                    }
                }
            }
        }
        let _ = judged;

        // unaffected files that did not get their own outcome
        if unprocessed.len() as u32 > unprocessed_budget {
            for (c, d) in unprocessed.iter().take(3) {
                self.bad("C05", "outcome-depends-on-others", format!("{} ({:?}): {}: {d}", what(), p.end, show(c)));
            }
        }
        if m == Mode::Format && exit.is_some() && alone && all_ok && wk.doubtful == 0 && unaffected_by_faults && (!p.out.is_empty() || !p.err.is_empty()) {
            self.bad("C11", "chatter", format!("{} prints {} {}", what(), show(&p.out), show(&p.err)));
        }
        if exit.is_some() && alone && !out_hard && !starved {
            for x in &wk.problems {
                let meddled = p.fired.iter().any(|f| match &f.kind {
                    Kind::Ext(Ext::Remove(q) | Ext::Chmod(q, _) | Ext::Create(q, _)) => x.ends_with(base(q)) || q == x || under(x, q),
                    _ => false,
                });
                let parent_hit = meddled || hard.iter().any(|f| wk.dirs.contains(&f.path) || f.path == *x);
                // under whichever of its names
                let cwd = before.lookup(before.root, &p.cwd).unwrap_or(before.root);
                let cx = canonical(before, cwd, x);
                let named = mentions(p, x) || wk.problems.iter().chain(wk.inputs.iter().map(|i| &i.name)).any(|y| y != x && mentions(p, y) && canonical(before, cwd, y) == cx);
                if !named && !parent_hit && !under_problem_dir(&wk, x) {
                    self.bad("C11", "unreadable-input-not-named", format!("{}: nothing names {}", what(), show(x)));
                    self.bad("C06", "unreadable-entry-not-reported", format!("{}: nothing names {}", what(), show(x)));
                }
            }
        }
        // an operation on a directory that failed must be reported
        if exit.is_some() && alone && !out_hard {
            for f in &hard {
                if is_hard(f) && matches!(f.cls, Cls::OpenDir | Cls::ReadDir) && f.op as usize <= p.ops.len() && wk.dirs.contains(&f.path) {
                    if exit == Some(0) {
                        self.bad("C06", "unreadable-directory-ignored", format!("{} exits 0 although {} on {} failed", what(), f.cls.name(), show(&f.path)));
                        self.bad("C04", "unreadable-directory-ignored", format!("{} exits 0 although {} on {} failed", what(), f.cls.name(), show(&f.path)));
                    }
                }
            }
        }

        // ---- C06: nothing else is touched or judged
        if m == Mode::Check && exit.is_some() && !out_hard {
            let known: BTreeSet<Vec<u8>> = wk.inputs.iter().map(|i| lossy(&i.name).into_bytes()).collect();
            for (n, _) in &verds {
                if !known.contains(n) && !p.fired.iter().any(|f| matches!(f.kind, Kind::Ext(Ext::Create(..)))) {
                    // the same file under another spelling (through a link cycle)
                    let cwd = before.lookup(before.root, &p.cwd).unwrap_or(before.root);
                    let c = canonical(before, cwd, n);
                    if by.contains_key(&c) {
                        self.bad("C06", "file-covered-twice", format!("{}: verdict for {} as {}", what(), show(&c), show(n)));
                        self.bad("C11", "verdict-count", format!("{}: verdict for {} as {}", what(), show(&c), show(n)));
                    } else {
                        self.bad("C06", "covers-foreign-file", format!("{}: verdict for {}", what(), show(n)));
                    }
                }
            }
        }
        if alone && m == Mode::Format && !rec.power_lost {
            for (path, e) in dump0 {
                if e.kind == 'f' && !by.contains_key(path) {
                    if let Some(n) = dump1.get(path) {
                        if n.data != e.data && !self.sibling(before, path, &by.keys().cloned().collect::<Vec<_>>(), &e.data, &n.data) {
                            self.bad("C06", "touches-foreign-file", format!("{}: changed {}", what(), show(path)));
                            self.bad("C13", "touches-foreign-file", format!("{}: changed {}", what(), show(path)));
                            if !is_mo(base(path)) {
                                self.bad("C02", "foreign-file-modified", format!("{}: changed {}", what(), show(path)));
                            }
                        }
                    }
                }
            }
        }
        // work in proportion: no exponential walks
        let walking = p.ops.iter().filter(|o| matches!(o.cls, Cls::Stat | Cls::OpenDir | Cls::ReadDir | Cls::OpenR | Cls::OpenW | Cls::Path)).count();
        let args = p.args.len().max(1);
        if walking > 2000 + 80 * (dump0.len() + wk.inputs.len() + args) + 10 * (args - 1) * dump0.len() {
            self.bad("C06", "walk-too-long", format!("{} made {} system calls for {} entries", what(), walking, dump0.len()));
        }

        // ---- C02: what is not a Modelica file by its name is refused
        if exit == Some(0) && alone && !rec.power_lost && !p.fired.iter().any(|f| matches!(f.kind, Kind::Ext(_))) {
            let cwd = before.lookup(before.root, &p.cwd).unwrap_or(before.root);
            for a in paths {
                if !is_mo(base(a)) && !before.lookup(cwd, a).map(|i| before.is_dir(i)).unwrap_or(false) {
                    self.bad("C02", "unformattable-file-accepted", format!("{} exits 0 although {} is not the name of a Modelica file", what(), show(a)));
                }
            }
        }

        // ---- C04
        if let (Some(c), true) = (exit, alone && !rec.power_lost) {
            let ext = p.fired.iter().any(|f| matches!(f.kind, Kind::Ext(_)));
            if c == 0 && !all_ok && !ext {
                self.bad("C04", "success-not-true", format!("{} exits 0 but {}", what(), first_bad.clone().unwrap_or_default()));
            }
            if c != 0 && in_order && unaffected_by_faults && !ext && !ambiguous {
                self.bad("C04", "failure-not-true", format!("{} exits {c} although every input is well-formed and in order", what()));
            }
            if ext && c == 0 {
                for f in &p.fired {
                    if let Kind::Ext(Ext::Remove(q)) = &f.kind {
                        // it vanished before it was read: naming it must fail
                        if by.get(q).map(|i| i.iter().any(|i| !i.from_dir)).unwrap_or(false) && !p.complete_reads.contains_key(q) {
                            self.bad("C04", "vanished-input-ignored", format!("{} exits 0 although {} vanished before it was read", what(), show(q)));
                        }
                    }
                }
            }
        }
        let _ = after;
    }

    fn diag(&mut self, p: &ProcRec, ins: &[&Input], old: &[u8], val: &Validity, canon: &[u8], what: &str) {
        let Ok(text) = std::str::from_utf8(old) else { return };
        // a carriage return alone ends a line, too
        let lines: Vec<usize> = text.replace("\r\n", " \n").replace('\r', " \n").split('\n').map(|l| l.chars().count()).collect();
        let mut d = vec![];
        for i in ins {
            d.extend(diagnostics(&p.out, &lossy(&i.name)));
            d.extend(diagnostics(&p.err, &lossy(&i.name)));
        }
        if d.is_empty() {
            self.bad("C11", "no-diagnostic", format!("{what}: no path:line:column for malformed {}", show(canon)));
            return;
        }
        for (l, c) in &d {
            if *l == 0 || *l > lines.len() || *c == 0 || *c > lines[*l - 1] + 1 {
                self.bad("C11", "diagnostic-outside-file", format!("{what}: {}:{l}:{c} lies outside the file", show(canon)));
                return;
            }
        }
        if let Validity::Lex(e) = val {
            if e.stray && d[0] != (e.line, e.col) {
                self.bad(
                    "C11",
                    "stray-character-misplaced",
                    format!("{what}: stray character of {} is at {}:{}, first diagnostic says {}:{}", show(canon), e.line, e.col, d[0].0, d[0].1),
                );
            }
        }
    }

    /// Is this another name of a file that was asked for, and holds its formatted text?
    fn sibling(&mut self, before: &Vfs, path: &[u8], asked: &[Vec<u8>], old: &[u8], now: &Bytes) -> bool {
        if !before.hard {
            return false;
        }
        let i = before.find(path);
        i.is_some() && asked.iter().any(|a| before.find(a) == i) && self.ctx.want(old).as_ref() == Some(now)
    }

    /// C13: names, kinds, modes, links, other files.
    fn tree(&mut self, rec: &StepRec, before: &Vfs, d0: &BTreeMap<Vec<u8>, Entry>, d1: &BTreeMap<Vec<u8>, Entry>, ext: &[Ext]) {
        // files asked for, by whatever name (a link `a.mo` may lead to `b`)
        let mut asked: BTreeSet<Vec<u8>> = BTreeSet::new();
        for p in &rec.procs {
            let (m, paths) = mode(&p.args);
            if m == Mode::Format {
                asked.extend(walk(before, &p.cwd, paths).inputs.into_iter().map(|i| i.canon));
            }
        }
        let stopped = rec.procs.iter().any(|p| p.stopped()) || rec.power_lost;
        let chown_fault = rec.procs.iter().any(|p| p.fired.iter().any(|f| is_hard(f) && f.cls == Cls::Chown) || p.alloc_fail != 0);
        let unlink_fault = rec.procs.iter().any(|p| p.fired.iter().any(|f| is_hard(f) && f.cls == Cls::Unlink) || p.alloc_fail != 0);
        let ext_touch = |p: &[u8]| {
            ext.iter().any(|e| match e {
                Ext::Remove(q) | Ext::Chmod(q, _) | Ext::Create(q, _) => q == p,
            })
        };
        for (p, e) in d0 {
            if ext_touch(p) {
                continue;
            }
            match d1.get(p) {
                None => {
                    if self.authored.contains_key(p) || e.kind != 'f' {
                        self.bad("C13", "entry-missing", format!("{} is gone", show(p)));
                    }
                }
                Some(n) => {
                    if n.kind != e.kind || (e.kind == 'l' && n.data != e.data) {
                        self.bad("C13", "entry-replaced", format!("{} was {} now {}{}", show(p), e.kind, n.kind, if e.kind == 'l' { " (link target changed)" } else { "" }));
                    } else if n.mode != e.mode && !(rec.power_lost && before.has_unsynced()) {
                        self.bad("C13", "mode-changed", format!("{}: mode {:o} became {:o}", show(p), e.mode, n.mode));
                    }
                    if n.uid != e.uid && !stopped && !chown_fault {
                        self.bad("C13", "owner-changed", format!("{} belonged to {}, now to {}", show(p), e.uid, n.uid));
                    }
                    if e.kind == 'f'
                        && !asked.contains(p)
                        && !rec.power_lost
                        && n.data != e.data
                        && self.authored.contains_key(p)
                        && !self.sibling(before, p, &asked.iter().cloned().collect::<Vec<_>>(), &e.data, &n.data)
                    {
                        self.bad("C13", "other-file-changed", format!("{} was changed", show(p)));
                    }
                }
            }
        }
        for (p, n) in d1 {
            if d0.contains_key(p) || ext_touch(p) || (rec.power_lost && self.authored.contains_key(p)) {
                continue;
            }
            if is_mo(base(p)) || n.kind != 'f' {
                self.bad("C13", "new-source-or-entry", format!("{} ({}) appeared{}", show(p), n.kind, if stopped { " and stays after the run was stopped" } else { "" }));
            } else if !stopped && !unlink_fault {
                self.bad("C13", "leftover", format!("{} was left behind by a run that ended by itself", show(p)));
            }
        }
    }

    /// C12: several runs at once.
    fn together(&mut self, rec: &StepRec, before: &Vfs, d0: &BTreeMap<Vec<u8>, Entry>, d1: &BTreeMap<Vec<u8>, Entry>, ext: &[Ext], free: Option<i64>) {
        if rec.power_lost || !ext.is_empty() || free.is_some() {
            return;
        }
        if rec.procs.iter().any(|p| p.alloc_fail != 0 || p.fired.iter().any(is_hard)) {
            return;
        }
        let any_format = rec.procs.iter().any(|p| mode(&p.args).0 == Mode::Format);
        for p in &rec.procs {
            let (m, paths) = mode(&p.args);
            if p.end == End::Killed || m == Mode::Info || m == Mode::Bad {
                continue;
            }
            let wk = walk(before, &p.cwd, paths);
            let what = format!("mofmt{} (with {} other run(s))", command(&p.args), rec.procs.len() - 1);
            let code = match p.end {
                End::Exit(c) => c,
                e => {
                    self.bad("C12", "run-disturbed", format!("{what} ended with {e:?}: {}", lossy(&p.err).chars().take(200).collect::<String>()));
                    continue;
                }
            };
            let by = wk.by_canon();
            let mut must_fail = !wk.problems.is_empty();
            let mut may_fail = must_fail || wk.doubtful > 0;
            let mut skip = false;
            for (c, ins) in &by {
                let Some(e0) = d0.get(c) else { continue };
                let old = e0.data.clone();
                if self.ctx.valid(&old) != Validity::Ok {
                    must_fail = true;
                    may_fail = true;
                    continue;
                }
                let Some(want) = self.ctx.want(&old) else {
                    skip = true;
                    continue;
                };
                if !ins.iter().all(|i| i.readable && i.writable) {
                    may_fail = true;
                    continue;
                }
                for i in ins {
                    let n = lossy(&i.name);
                    if !diagnostics(&p.out, &n).is_empty() || !diagnostics(&p.err, &n).is_empty() {
                        self.bad("C12", "syntax-error-from-other-run", format!("{what} reports a syntax error in well-formed {}", show(c)));
                    }
                }
                if m == Mode::Check {
                    let names: BTreeSet<Vec<u8>> = ins.iter().map(|i| lossy(&i.name).into_bytes()).collect();
                    let v: Vec<bool> = verdicts(&p.out).iter().filter(|(n, _)| names.contains(n)).map(|x| x.1).collect();
                    if v.is_empty() {
                        self.bad("C12", "no-verdict", format!("{what} gives no verdict on {}", show(c)));
                    }
                    if want == old {
                        if v.contains(&false) {
                            self.bad("C12", "verdict-wrong", format!("{what} says {} is not formatted, but it always was", show(c)));
                        }
                    } else {
                        may_fail = true;
                        if !any_format {
                            must_fail = true;
                            if v.contains(&true) {
                                self.bad("C12", "verdict-wrong", format!("{what} says {} is formatted, but it never was", show(c)));
                            }
                        }
                    }
                    if v.contains(&false) {
                        must_fail = true;
                    }
                } else {
                    let now = d1.get(c).map(|e| e.data.clone());
                    if now.as_ref() != Some(&want) {
                        self.bad("C12", "not-formatted-afterwards", format!("{what} ended with {code}, but {} holds {}", show(c), brief(now.as_ref())));
                    }
                }
            }
            if skip {
                continue;
            }
            if code == 0 && must_fail {
                self.bad("C12", "exit-status", format!("{what} exits 0"));
            }
            if code != 0 && !may_fail {
                self.bad("C12", "fails-because-of-other-run", format!("{what} exits {code}: {} {}", show(&p.out), show(&p.err)));
            }
        }
    }

    /// Faults have stopped: one format run must settle everything.
    fn settle(&mut self) {
        self.say(|| "== faults stop; the operator repairs permissions".into());
        for n in self.w.vfs.inodes.values_mut() {
            match n.node {
                Node::Dir(_) => n.mode |= 0o700,
                Node::File(_) => n.mode |= 0o600,
                _ => {}
            }
        }
        self.w.vfs.sync_all();
        self.w.sample_crashes = false;
        let root = self.root.clone();
        let d0 = self.w.vfs.dump();
        let spec = |check: bool| {
            let mut args = vec![];
            if check {
                args.push(b"--check".to_vec());
            }
            args.push(root.clone());
            ProcSpec { args, cwd: b"/".to_vec(), alloc_fail: 0, faults: vec![] }
        };
        self.run(&[spec(false)], None, true);
        let d1 = self.w.vfs.dump();
        let mut settled = vec![];
        for (p, e) in &d0 {
            if e.kind != 'f' || !is_mo(base(p)) || !under(p, &root) {
                continue;
            }
            if let Some(w) = self.ctx.want(&e.data) {
                if d1.get(p).map(|n| &n.data) != Some(&w) {
                    let d = format!("after faults stopped, formatting left {} as {}", show(p), brief(d1.get(p).map(|n| &n.data)));
                    self.bad("C09", "does-not-converge", d);
                }
                settled.push(p.clone());
            }
        }
        self.run(&[spec(true)], None, true);
        self.run(&[spec(false)], None, true);
        let d2 = self.w.vfs.dump();
        for p in &settled {
            if d1.get(p).map(|e| &e.data) != d2.get(p).map(|e| &e.data) {
                self.bad("C09", "formatting-again-changes", format!("{}: a second run changed it", show(p)));
            }
        }
    }

    /// Facts about every content the author wrote.
    fn contents(&mut self) {
        let all: BTreeSet<Vec<u8>> = self.authored.iter().filter(|(p, _)| is_mo(base(p))).map(|(_, d)| (**d).clone()).collect();
        for d in all {
            if self.ctx.valid(&d) != Validity::Ok {
                if self.on("C10") {
                    if let Gold::Broken(e) = self.ctx.gold(&d) {
                        self.bad("C10", "crash-on-damaged-input", format!("{e} on {}", brief(Some(&Arc::new(d.clone())))));
                    }
                }
                continue;
            }
            match self.ctx.gold(&d) {
                Gold::Accept(f) => {
                    self.streams(b"(alone)", &d, &f, "after formatting");
                    if self.on("C09") {
                        match self.ctx.gold(&f) {
                            Gold::Accept(g) if g == f => {}
                            Gold::Accept(g) => self.bad("C09", "not-idempotent", format!("formatting {} gives {}, formatting that gives {}", show(&d), show(&f), show(&g))),
                            o => self.bad("C09", "formatted-text-refused", format!("formatting {} gives {}, which is then {o:?}", show(&d), show(&f))),
                        }
                        match self.ctx.check_alone(&f) {
                            Some(true) => {}
                            o => self.bad("C09", "formatted-text-fails-check", format!("--check of formatted {} says {o:?}", show(&f))),
                        }
                        let c = self.ctx.check_alone(&d);
                        if c != Some(*f == d) {
                            self.bad("C09", "check-disagrees", format!("--check of {} says {c:?}, formatting {} it", show(&d), if *f == d { "keeps" } else { "changes" }));
                        }
                    }
                }
                Gold::Refuse => self.bad("C10", "legal-text-refused", format!("well-formed {} is refused", show(&d))),
                Gold::Broken(e) => self.bad("C10", "crash-on-legal-text", format!("{e} on {}", show(&d))),
            }
        }
    }
}

fn diff_ok_code(a: &[u8], b: &[u8]) -> bool {
    // comments are compared only where the code itself survived
    diff_streams(a, b, false).is_ok()
}
/// The arguments of a run, a long repetition counted.
fn command(args: &[Vec<u8>]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < args.len() {
        let n = args[i..].iter().take_while(|a| **a == args[i]).count();
        s += &format!(" {}", quote(&args[i]));
        if n > 1 {
            s += &format!(" [{n} times]");
        }
        i += n;
        if s.len() > 2000 {
            s += &format!(" ... ({} arguments)", args.len());
            break;
        }
    }
    s
}
fn under_problem_dir(w: &Walk, x: &[u8]) -> bool {
    w.problems.iter().any(|d| d != x && under(x, d))
}

pub fn under(p: &[u8], dir: &[u8]) -> bool {
    if dir == b"/" {
        return true;
    }
    p.len() > dir.len() && p.starts_with(dir) && p[dir.len()] == b'/'
}

/// Does this name lead through that directory?
fn passes(v: &Vfs, cwd: Ino, name: &[u8], dir: &[u8]) -> bool {
    under(name, dir) || (1..name.len()).any(|k| name[k] == b'/' && canonical(v, cwd, &name[..k]) == dir)
}

fn canonical(v: &Vfs, cwd: Ino, p: &[u8]) -> Vec<u8> {
    if p.is_empty() || p[0] == b'<' {
        return p.to_vec();
    }
    match v.resolve(cwd, p, true) {
        Ok(r) => match r.ino {
            Some(i) if v.is_dir(i) => v.path_of(i),
            _ => v.place(&r),
        },
        Err(_) => p.to_vec(),
    }
}

pub fn brief(d: Option<&Bytes>) -> String {
    match d {
        None => "nothing (missing)".into(),
        Some(d) => {
            let n = d.len();
            if n <= 160 {
                format!("{n} bytes {}", quote(d))
            } else {
                format!("{n} bytes {}...", quote(&d[..160]))
            }
        }
    }
}

fn diff_dumps(a: &BTreeMap<Vec<u8>, Entry>, b: &BTreeMap<Vec<u8>, Entry>) -> Option<String> {
    for (p, e) in a {
        match b.get(p) {
            None => return Some(format!("{} disappeared", show(p))),
            Some(n) => {
                if n.kind != e.kind {
                    return Some(format!("{} changed kind", show(p)));
                }
                if n.mode != e.mode {
                    return Some(format!("{} changed mode {:o} -> {:o}", show(p), e.mode, n.mode));
                }
                if n.data != e.data {
                    return Some(format!("{} changed contents to {}", show(p), brief(Some(&n.data))));
                }
            }
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) {
            return Some(format!("{} appeared", show(p)));
        }
    }
    None
}
