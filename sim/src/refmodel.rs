//! The reference model: what a run of mofmt is asked to do, given the disk as
//! it is when the run starts.

use crate::gramref;
use crate::lexref::{self, Item, LexErr};
use crate::vfs::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Validity {
    Ok,
    NotUtf8,
    Lex(LexErr),
    Syntax,
}

pub fn validity(data: &[u8]) -> Validity {
    let s = match std::str::from_utf8(data) {
        Ok(s) => s,
        Err(_) => return Validity::NotUtf8,
    };
    match lexref::lex(s) {
        Err(e) => Validity::Lex(e),
        Ok(l) => {
            let k: Vec<&'static str> = l.iter().filter(|x| x.item == Item::Tok).map(|x| x.kind).collect();
            match gramref::valid(&k) {
                Ok(()) => Validity::Ok,
                Err(_) => Validity::Syntax,
            }
        }
    }
}

/// Is this a Modelica file by its name (extension exactly `.mo`, non-empty stem)?
pub fn is_mo(name: &[u8]) -> bool {
    if name == b".." {
        return false;
    }
    match name.iter().rposition(|c| *c == b'.') {
        Some(k) if k > 0 => &name[k + 1..] == b"mo",
        _ => false,
    }
}
pub fn base(path: &[u8]) -> &[u8] {
    // as Path::file_name: trailing slashes and "/." do not count
    let mut p = path;
    loop {
        if p.len() > 1 && p.ends_with(b"/") {
            p = &p[..p.len() - 1];
        } else if p.ends_with(b"/.") {
            p = &p[..p.len() - 2];
        } else {
            break;
        }
    }
    Vfs::split(p).1
}

#[derive(Clone, Debug)]
pub struct Input {
    /// as mofmt spells it
    pub name: Vec<u8>,
    pub canon: Vec<u8>,
    pub readable: bool,
    pub writable: bool,
    pub from_dir: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Walk {
    pub inputs: Vec<Input>,
    /// named or listed things that cannot be processed
    pub problems: Vec<Vec<u8>>,
    /// listed things that need not be looked at, but cannot be when they are
    pub doubtful: usize,
    /// directories visited (canonical)
    pub dirs: Vec<Vec<u8>>,
    pub truncated: bool,
}

impl Walk {
    /// canonical path -> the names under which it is asked for
    pub fn by_canon(&self) -> BTreeMap<Vec<u8>, Vec<&Input>> {
        let mut m: BTreeMap<Vec<u8>, Vec<&Input>> = BTreeMap::new();
        for i in &self.inputs {
            m.entry(i.canon.clone()).or_default().push(i);
        }
        m
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Format,
    Check,
    Info,
    Bad,
}

pub fn mode(args: &[Vec<u8>]) -> (Mode, &[Vec<u8>]) {
    let Some(a) = args.first() else { return (Mode::Bad, &[]) };
    match a.as_slice() {
        b"-h" | b"--help" | b"-v" | b"--version" => (Mode::Info, &[]),
        b"--check" => {
            if args.len() < 2 {
                (Mode::Bad, &[])
            } else {
                (Mode::Check, &args[1..])
            }
        }
        a if a.starts_with(b"-") => (Mode::Bad, &[]),
        _ => (Mode::Format, args),
    }
}

pub fn join(dir: &[u8], name: &[u8]) -> Vec<u8> {
    let mut p = dir.to_vec();
    if !p.ends_with(b"/") {
        p.push(b'/');
    }
    p.extend_from_slice(name);
    p
}

pub fn walk(v: &Vfs, cwd: &[u8], paths: &[Vec<u8>]) -> Walk {
    let mut w = Walk::default();
    let cwd = v.lookup(v.root, cwd).unwrap_or(v.root);
    for a in paths {
        let at = v.resolve(cwd, a, true).ok().filter(|r| r.ino.is_some());
        match at.as_ref().and_then(|r| r.ino) {
            Some(i) if v.is_dir(i) => walk_dir(v, a, i, &mut vec![i], &mut w),
            _ => {
                if !is_mo(base(a)) {
                    w.problems.push(a.clone());
                } else {
                    file_input(v, a, at, false, &mut w);
                }
            }
        }
    }
    w
}

fn file_input(v: &Vfs, name: &[u8], at: Option<Resolved>, from_dir: bool, w: &mut Walk) {
    match at {
        None => w.problems.push(name.to_vec()),
        Some(r) => {
            let i = r.ino.unwrap();
            let canon = v.place(&r);
            let readable = v.may(i, 4);
            let dirw = v.allows(r.dir, 3);
            if !readable {
                w.problems.push(name.to_vec());
            }
            w.inputs.push(Input { name: name.to_vec(), canon, readable, writable: dirw && v.allows(i, 2), from_dir });
        }
    }
}

fn walk_dir(v: &Vfs, name: &[u8], dir: Ino, stack: &mut Vec<Ino>, w: &mut Walk) {
    if w.inputs.len() > 3000 || w.dirs.len() > 3000 {
        w.truncated = true;
        return;
    }
    w.dirs.push(v.path_of(dir));
    if !v.may(dir, 4) {
        w.problems.push(name.to_vec());
        return;
    }
    let names: Vec<Vec<u8>> = v.dir(dir).unwrap().keys().cloned().collect();
    for n in names {
        let p = join(name, &n);
        let at = v.resolve(dir, &n, true).and_then(|r| if r.ino.is_some() { Ok(r) } else { Err(ENOENT) });
        match at.as_ref().map(|r| r.ino.unwrap()).map_err(|e| *e) {
            Ok(i) if v.is_dir(i) => {
                if !stack.contains(&i) {
                    stack.push(i);
                    walk_dir(v, &p, i, stack, w);
                    stack.pop();
                }
            }
            Ok(_) => {
                if is_mo(&n) {
                    file_input(v, &p, at.ok(), true, w);
                }
            }
            Err(ENOENT) => {
                if is_mo(&n) {
                    w.problems.push(p);
                }
            }
            Err(_) => {
                let plain = v.dir(dir).and_then(|d| d.get(&n)).map(|i| v.file(*i).is_some()).unwrap_or(false);
                if plain && !is_mo(&n) {
                    w.doubtful += 1;
                } else {
                    w.problems.push(p);
                }
            }
        }
    }
}
