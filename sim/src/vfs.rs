//! The simulated disk: an in-memory POSIX file system with a page cache and a
//! separate notion of what has become durable.
//!
//! Durability model: file data becomes durable only through fsync; until then a
//! power loss may leave any version the file had since its last sync, or a torn
//! one.  Namespace operations (create, link, rename, unlink) are journaled in
//! order and any prefix of the pending ones may survive; fsync of a directory
//! (and, as a knob, of a file, as on ext4) commits them.

use crate::prng::Rng;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Ino = u64;
pub type Bytes = Arc<Vec<u8>>;

pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const ENOMEM: i32 = 12;
pub const EACCES: i32 = 13;
pub const EBUSY: i32 = 16;
pub const EEXIST: i32 = 17;
pub const EXDEV: i32 = 18;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENFILE: i32 = 23;
pub const EMFILE: i32 = 24;
pub const EFBIG: i32 = 27;
pub const ENOSPC: i32 = 28;
pub const EROFS: i32 = 30;
pub const EPIPE: i32 = 32;
pub const ENAMETOOLONG: i32 = 36;
pub const ENOTEMPTY: i32 = 39;
pub const ELOOP: i32 = 40;
pub const EDQUOT: i32 = 122;
pub const ESTALE: i32 = 116;

#[derive(Clone)]
pub struct FileData {
    pub data: Bytes,
    pub durable: Bytes,
    /// contents this file had since it was last synced (newest last)
    pub unsynced: Vec<Bytes>,
    /// writing back failed: what is in the cache now counts as clean, and never
    /// becomes durable (as Linux does it)
    pub lost: bool,
}

#[derive(Clone)]
pub enum Node {
    File(FileData),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Link(Vec<u8>),
}

#[derive(Clone)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub uid: u32,
    pub gid: u32,
    pub mtime: i64,
}

#[derive(Clone)]
enum MetaOp {
    Set { dir: Ino, name: Vec<u8>, ino: Ino },
    Del { dir: Ino, name: Vec<u8> },
    /// atomic move, replacing the target
    Mv { d1: Ino, n1: Vec<u8>, d2: Ino, n2: Vec<u8>, ino: Ino },
}

#[derive(Clone)]
pub struct Vfs {
    pub inodes: BTreeMap<Ino, Inode>,
    next: Ino,
    pub root: Ino,
    durable_dirs: BTreeMap<Ino, BTreeMap<Vec<u8>, Ino>>,
    pending: Vec<MetaOp>,
    pub file_sync_commits_journal: bool,
    /// bumped by every visible change
    pub changes: u64,
    /// bytes that may still be allocated
    pub free: Option<i64>,
    pub clock: i64,
    /// runs belong to the superuser: permission bits do not hold them up
    pub superuser: bool,
    /// /tmp is a file system of its own
    pub tmpfs: bool,
    /// some file has, or had, several names
    pub hard: bool,
}

pub struct Resolved {
    pub dir: Ino,
    pub name: Vec<u8>,
    pub ino: Option<Ino>,
}

pub const UID: u32 = 1000;

/// What is left of a mode once the file was written to or given away.
pub fn without_ids(mode: u32) -> u32 {
    mode & !0o4000 & !(if mode & 0o010 != 0 { 0o2000 } else { 0 })
}

impl Vfs {
    pub fn new() -> Vfs {
        let mut v = Vfs {
            inodes: BTreeMap::new(),
            next: 2,
            root: 1,
            durable_dirs: BTreeMap::new(),
            pending: Vec::new(),
            file_sync_commits_journal: false,
            changes: 0,
            free: None,
            clock: 1_700_000_000_000_000_000,
            superuser: false,
            tmpfs: false,
            hard: false,
        };
        v.inodes.insert(1, Inode { node: Node::Dir(BTreeMap::new()), mode: 0o755, uid: 0, gid: 0, mtime: 0 });
        v.durable_dirs.insert(1, BTreeMap::new());
        v
    }
    pub fn alloc(&mut self, node: Node, mode: u32) -> Ino {
        let i = self.next;
        self.next += 1;
        if let Node::Dir(_) = node {
            self.durable_dirs.insert(i, BTreeMap::new());
        }
        let mtime = self.clock;
        self.inodes.insert(i, Inode { node, mode, uid: UID, gid: UID, mtime });
        i
    }
    /// What a run creates belongs to its user.
    pub fn owned_by_run(&mut self, i: Ino) {
        if self.superuser {
            let n = self.inodes.get_mut(&i).unwrap();
            n.uid = 0;
            n.gid = 0;
        }
    }
    pub fn dir(&self, i: Ino) -> Option<&BTreeMap<Vec<u8>, Ino>> {
        match self.inodes.get(&i).map(|x| &x.node) {
            Some(Node::Dir(d)) => Some(d),
            _ => None,
        }
    }
    fn dir_mut(&mut self, i: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
        match &mut self.inodes.get_mut(&i).unwrap().node {
            Node::Dir(d) => d,
            _ => panic!("not a dir"),
        }
    }
    pub fn is_dir(&self, i: Ino) -> bool {
        self.dir(i).is_some()
    }
    pub fn file(&self, i: Ino) -> Option<&FileData> {
        match self.inodes.get(&i).map(|x| &x.node) {
            Some(Node::File(f)) => Some(f),
            _ => None,
        }
    }
    pub fn may(&self, i: Ino, want: u32) -> bool {
        self.superuser || self.allows(i, want)
    }
    /// What the permission bits alone say.
    pub fn allows(&self, i: Ino, want: u32) -> bool {
        let n = &self.inodes[&i];
        let bits = if n.uid == UID { n.mode >> 6 } else { n.mode } & 7;
        bits & want == want
    }
    pub fn parent_of(&self, i: Ino) -> Option<(Ino, Vec<u8>)> {
        for (d, n) in &self.inodes {
            if let Node::Dir(es) = &n.node {
                for (k, v) in es {
                    if *v == i {
                        return Some((*d, k.clone()));
                    }
                }
            }
        }
        None
    }
    pub fn path_of(&self, i: Ino) -> Vec<u8> {
        let mut parts = Vec::new();
        let mut cur = i;
        while cur != self.root {
            match self.parent_of(cur) {
                Some((d, n)) => {
                    parts.push(n);
                    cur = d;
                }
                None => return b"(unlinked)".to_vec(),
            }
            if parts.len() > 200 {
                break;
            }
        }
        let mut out = Vec::new();
        for p in parts.iter().rev() {
            out.push(b'/');
            out.extend_from_slice(p);
        }
        if out.is_empty() {
            out.push(b'/');
        }
        out
    }

    /// Resolve a path. The last component may be missing (`ino` is None).
    pub fn resolve(&self, cwd: Ino, path: &[u8], follow_last: bool) -> Result<Resolved, i32> {
        let mut budget = 40;
        self.resolve_in(cwd, path, follow_last, &mut budget)
    }
    fn resolve_in(&self, cwd: Ino, path: &[u8], follow_last: bool, budget: &mut i32) -> Result<Resolved, i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() >= 4096 {
            return Err(ENAMETOOLONG);
        }
        let mut cur = if path[0] == b'/' { self.root } else { cwd };
        let trailing = path.len() > 1 && *path.last().unwrap() == b'/';
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
        if comps.is_empty() {
            if !self.is_dir(cur) {
                return Err(ENOTDIR);
            }
            return Ok(Resolved { dir: cur, name: Vec::new(), ino: Some(cur) });
        }
        for (k, c) in comps.iter().enumerate() {
            let last = k + 1 == comps.len();
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let d = self.dir(cur).ok_or(ENOTDIR)?;
            if !self.may(cur, 1) {
                return Err(EACCES);
            }
            if *c == b".." {
                cur = self.parent_of(cur).map(|p| p.0).unwrap_or(self.root);
                if last {
                    return Ok(Resolved { dir: cur, name: Vec::new(), ino: Some(cur) });
                }
                continue;
            }
            match d.get(*c) {
                None => {
                    return if last { Ok(Resolved { dir: cur, name: c.to_vec(), ino: None }) } else { Err(ENOENT) };
                }
                Some(&i) => {
                    if let Node::Link(t) = &self.inodes[&i].node {
                        if !last || follow_last || trailing {
                            *budget -= 1;
                            if *budget < 0 {
                                return Err(ELOOP);
                            }
                            let r = self.resolve_in(cur, t, true, budget)?;
                            if last {
                                return Ok(r);
                            }
                            cur = r.ino.ok_or(ENOENT)?;
                            continue;
                        }
                    }
                    if last {
                        if trailing && !self.is_dir(i) {
                            return Err(ENOTDIR);
                        }
                        return Ok(Resolved { dir: cur, name: c.to_vec(), ino: Some(i) });
                    }
                    cur = i;
                }
            }
        }
        unreachable!()
    }
    /// The canonical path of what was resolved.
    pub fn place(&self, r: &Resolved) -> Vec<u8> {
        if r.name.is_empty() {
            return self.path_of(r.dir);
        }
        let mut p = self.path_of(r.dir);
        if p.last() != Some(&b'/') {
            p.push(b'/');
        }
        p.extend_from_slice(&r.name);
        p
    }
    /// Which file system a directory is on.
    pub fn device(&self, dir: Ino) -> u32 {
        if !self.tmpfs {
            return 1;
        }
        let p = self.path_of(dir);
        if p == b"/tmp" || p.starts_with(b"/tmp/") {
            2
        } else {
            1
        }
    }
    pub fn names_of(&self, ino: Ino) -> u32 {
        if !self.hard {
            return 1;
        }
        self.inodes.values().map(|n| if let Node::Dir(d) = &n.node { d.values().filter(|i| **i == ino).count() as u32 } else { 0 }).sum()
    }
    pub fn lookup(&self, cwd: Ino, path: &[u8]) -> Result<Ino, i32> {
        self.resolve(cwd, path, true)?.ino.ok_or(ENOENT)
    }

    // ---- namespace changes ----
    pub fn add_entry(&mut self, dir: Ino, name: &[u8], ino: Ino) {
        self.dir_mut(dir).insert(name.to_vec(), ino);
        self.pending.push(MetaOp::Set { dir, name: name.to_vec(), ino });
        self.changes += 1;
    }
    pub fn del_entry(&mut self, dir: Ino, name: &[u8]) {
        self.dir_mut(dir).remove(name);
        self.pending.push(MetaOp::Del { dir, name: name.to_vec() });
        self.changes += 1;
    }
    pub fn rename(&mut self, d1: Ino, n1: &[u8], d2: Ino, n2: &[u8]) -> Result<(), i32> {
        let ino = *self.dir(d1).unwrap().get(n1).ok_or(ENOENT)?;
        if !self.may(d1, 3) || !self.may(d2, 3) {
            return Err(EACCES);
        }
        if self.device(d1) != self.device(d2) {
            return Err(EXDEV);
        }
        if let Some(&t) = self.dir(d2).unwrap().get(n2) {
            if t == ino {
                return Ok(());
            }
            match (self.is_dir(ino), self.dir(t)) {
                (false, Some(_)) => return Err(EISDIR),
                (true, None) => return Err(ENOTDIR),
                (true, Some(e)) if !e.is_empty() => return Err(ENOTEMPTY),
                _ => {}
            }
        }
        self.dir_mut(d1).remove(n1);
        self.dir_mut(d2).insert(n2.to_vec(), ino);
        self.pending.push(MetaOp::Mv { d1, n1: n1.to_vec(), d2, n2: n2.to_vec(), ino });
        self.changes += 1;
        Ok(())
    }

    // ---- data ----
    pub fn set_data(&mut self, ino: Ino, data: Bytes) {
        let clock = self.clock;
        let n = self.inodes.get_mut(&ino).unwrap();
        n.mtime = clock;
        if let Node::File(f) = &mut n.node {
            f.data = data.clone();
            f.unsynced.push(data);
            if f.unsynced.len() > 12 {
                f.unsynced.remove(3);
            }
        }
        self.changes += 1;
    }
    fn drop_ids(&mut self, ino: Ino) {
        if !self.superuser {
            let n = self.inodes.get_mut(&ino).unwrap();
            n.mode = without_ids(n.mode);
        }
    }
    /// Write at `off`; returns bytes written (short when the disk fills up).
    pub fn write(&mut self, ino: Ino, off: usize, buf: &[u8]) -> Result<usize, i32> {
        let cur = self.file(ino).ok_or(EBADF)?.data.clone();
        let mut n = buf.len();
        if let Some(free) = &mut self.free {
            let grow = (off + n).saturating_sub(cur.len()) as i64;
            if grow > *free {
                n = (n as i64 - (grow - (*free).max(0))).max(0) as usize;
                if n == 0 && !buf.is_empty() {
                    return Err(ENOSPC);
                }
                *free = 0;
            } else {
                *free -= grow;
            }
        }
        let mut v = (*cur).clone();
        if v.len() < off + n {
            v.resize(off + n, 0);
        }
        v[off..off + n].copy_from_slice(&buf[..n]);
        self.set_data(ino, Arc::new(v));
        self.drop_ids(ino);
        Ok(n)
    }
    pub fn truncate(&mut self, ino: Ino, len: usize) -> Result<(), i32> {
        let cur = self.file(ino).ok_or(EINVAL)?.data.clone();
        if cur.len() == len {
            return Ok(());
        }
        if let Some(free) = &mut self.free {
            *free += cur.len() as i64 - len as i64;
        }
        let mut v = (*cur).clone();
        v.resize(len, 0);
        self.set_data(ino, Arc::new(v));
        self.drop_ids(ino);
        Ok(())
    }
    pub fn fsync(&mut self, ino: Ino) {
        let mut commit = false;
        if let Some(n) = self.inodes.get_mut(&ino) {
            match &mut n.node {
                Node::File(f) if f.lost => {
                    commit = self.file_sync_commits_journal;
                }
                Node::File(f) => {
                    f.durable = f.data.clone();
                    f.unsynced.clear();
                    commit = self.file_sync_commits_journal;
                }
                Node::Dir(_) => commit = true,
                _ => {}
            }
        }
        if commit {
            self.commit_journal();
        }
    }
    pub fn commit_journal(&mut self) {
        let p = std::mem::take(&mut self.pending);
        for op in &p {
            Self::apply(&mut self.durable_dirs, op);
        }
    }
    /// Everything becomes durable (a quiet moment, or unmount).
    pub fn sync_all(&mut self) {
        self.commit_journal();
        for n in self.inodes.values_mut() {
            if let Node::File(f) = &mut n.node {
                f.durable = f.data.clone();
                f.unsynced.clear();
                f.lost = false;
            }
        }
    }
    fn apply(dirs: &mut BTreeMap<Ino, BTreeMap<Vec<u8>, Ino>>, op: &MetaOp) {
        match op {
            MetaOp::Set { dir, name, ino } => {
                dirs.entry(*dir).or_default().insert(name.clone(), *ino);
            }
            MetaOp::Del { dir, name } => {
                dirs.entry(*dir).or_default().remove(name);
            }
            MetaOp::Mv { d1, n1, d2, n2, ino } => {
                dirs.entry(*d1).or_default().remove(n1);
                dirs.entry(*d2).or_default().insert(n2.clone(), *ino);
            }
        }
    }
    pub fn has_unsynced(&self) -> bool {
        !self.pending.is_empty() || self.inodes.values().any(|n| matches!(&n.node, Node::File(f) if !f.unsynced.is_empty()))
    }
    /// The disk as it may look after a power loss now.
    pub fn after_power_loss(&self, rng: &mut Rng) -> Vfs {
        let mut v = self.clone();
        let k = match rng.below(3) {
            0 => self.pending.len(),
            1 => 0,
            _ => rng.below(self.pending.len() + 1),
        };
        for op in &self.pending[..k] {
            Self::apply(&mut v.durable_dirs, op);
        }
        v.pending.clear();
        let dirs = v.durable_dirs.clone();
        for (i, n) in v.inodes.iter_mut() {
            match &mut n.node {
                Node::Dir(d) => *d = dirs.get(i).cloned().unwrap_or_default(),
                Node::File(f) => {
                    if !f.unsynced.is_empty() {
                        let pick = rng.below(f.unsynced.len() + 3);
                        let d: Bytes = if pick == 0 {
                            f.durable.clone()
                        } else if pick <= f.unsynced.len() {
                            f.unsynced[pick - 1].clone()
                        } else {
                            // torn: the newest version, with a block range lost or zeroed
                            let mut t = (**f.unsynced.last().unwrap()).clone();
                            let at = rng.below(t.len() + 1);
                            if pick == f.unsynced.len() + 1 {
                                t.truncate(at);
                            } else {
                                let end = (at + 1 + rng.below(512)).min(t.len());
                                for b in &mut t[at.min(end)..end] {
                                    *b = 0;
                                }
                            }
                            Arc::new(t)
                        };
                        f.data = d.clone();
                        f.durable = d;
                        f.unsynced.clear();
                    }
                }
                _ => {}
            }
        }
        v.free = None;
        v.changes += 1;
        v
    }

    // ---- building and looking at the tree from outside ----
    pub fn mkdirs(&mut self, path: &[u8]) -> Ino {
        let mut cur = self.root;
        for c in path.split(|c| *c == b'/').filter(|c| !c.is_empty()) {
            let nxt = self.dir(cur).and_then(|d| d.get(c).copied());
            cur = match nxt {
                Some(i) if self.is_dir(i) => i,
                Some(i) => {
                    if let Node::Link(_) = self.inodes[&i].node {
                        match self.resolve(cur, c, true).ok().and_then(|r| r.ino) {
                            Some(j) if self.is_dir(j) => j,
                            _ => return cur,
                        }
                    } else {
                        return cur;
                    }
                }
                None => {
                    let i = self.alloc(Node::Dir(BTreeMap::new()), 0o755);
                    self.add_entry(cur, c, i);
                    i
                }
            };
        }
        cur
    }
    pub fn split(path: &[u8]) -> (&[u8], &[u8]) {
        match path.iter().rposition(|c| *c == b'/') {
            Some(k) => (&path[..k.max(1)], &path[k + 1..]),
            None => (b"/", path),
        }
    }
    pub fn put_file(&mut self, path: &[u8], data: Vec<u8>, mode: u32) -> Ino {
        let (d, n) = Self::split(path);
        let (d, n) = (d.to_vec(), n.to_vec());
        let dir = self.mkdirs(&d);
        let b = Arc::new(data);
        let i = self.alloc(Node::File(FileData { data: b.clone(), durable: b, unsynced: vec![], lost: false }), mode);
        self.add_entry(dir, &n, i);
        i
    }
    /// Replace the contents seen at `path` (an editor's save).
    pub fn overwrite(&mut self, path: &[u8], data: Vec<u8>) -> bool {
        match self.lookup(self.root, path) {
            Ok(i) if self.file(i).is_some() => {
                self.set_data(i, Arc::new(data));
                self.fsync(i);
                true
            }
            _ => false,
        }
    }
    /// The entry at a canonical path, whatever the permissions on the way.
    pub fn find(&self, path: &[u8]) -> Option<Ino> {
        let mut cur = self.root;
        for c in path.split(|c| *c == b'/').filter(|c| !c.is_empty()) {
            cur = *self.dir(cur)?.get(c)?;
        }
        Some(cur)
    }
    /// How much text there is.
    pub fn bytes(&self) -> usize {
        self.inodes.values().map(|n| if let Node::File(f) = &n.node { f.data.len() } else { 0 }).sum()
    }
    pub fn read_path(&self, path: &[u8]) -> Option<Bytes> {
        let i = match self.find(path) {
            Some(i) if self.file(i).is_some() => i,
            _ => self.lookup(self.root, path).ok()?,
        };
        self.file(i).map(|f| f.data.clone())
    }
    /// Every entry: path -> (kind, mode, contents or target)
    pub fn dump(&self) -> BTreeMap<Vec<u8>, Entry> {
        let mut out = BTreeMap::new();
        self.dump_dir(self.root, &mut Vec::new(), &mut out);
        out
    }
    fn dump_dir(&self, d: Ino, pre: &mut Vec<u8>, out: &mut BTreeMap<Vec<u8>, Entry>) {
        for (k, &i) in self.dir(d).unwrap() {
            let l = pre.len();
            pre.push(b'/');
            pre.extend_from_slice(k);
            let n = &self.inodes[&i];
            let e = match &n.node {
                Node::File(f) => Entry { kind: 'f', mode: n.mode, data: f.data.clone(), ino: i, uid: n.uid },
                Node::Dir(_) => Entry { kind: 'd', mode: n.mode, data: Arc::new(vec![]), ino: i, uid: n.uid },
                Node::Link(t) => Entry { kind: 'l', mode: 0, data: Arc::new(t.clone()), ino: i, uid: n.uid },
            };
            let isd = e.kind == 'd';
            out.insert(pre.clone(), e);
            if isd {
                self.dump_dir(i, pre, out);
            }
            pre.truncate(l);
        }
    }
}

#[derive(Clone)]
pub struct Entry {
    pub kind: char,
    pub mode: u32,
    pub data: Bytes,
    pub ino: Ino,
    pub uid: u32,
}
