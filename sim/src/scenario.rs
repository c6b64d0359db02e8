//! A scenario is everything a simulated history depends on: the initial disk,
//! the steps, the faults and the knobs.  It is written out as the replay file.

use crate::exec::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    /// `formatted`: store the formatted text of `data` instead (if it is valid)
    File { path: Vec<u8>, mode: u32, data: Vec<u8>, formatted: bool },
    Dir { path: Vec<u8>, mode: u32 },
    Link { path: Vec<u8>, target: Vec<u8> },
    /// another name of a file
    Hard { path: Vec<u8>, target: Vec<u8> },
}
impl Item {
    pub fn path(&self) -> &[u8] {
        match self {
            Item::File { path, .. } | Item::Dir { path, .. } | Item::Link { path, .. } | Item::Hard { path, .. } => path,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum StepSpec {
    Run { procs: Vec<ProcSpec>, free: Option<i64> },
    /// the author saves new contents
    Edit { path: Vec<u8>, data: Vec<u8> },
    /// the file becomes a mixture of its contents and their formatted text
    Splice { path: Vec<u8>, seed: u64 },
    Chmod { path: Vec<u8>, mode: u32 },
    Remove { path: Vec<u8> },
    /// power loss while nothing runs
    Outage { seed: u64 },
    /// everything reaches the disk
    Sync,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub property: String,
    pub origin: String,
    pub knobs: Knobs,
    pub world_seed: u64,
    pub sample_crashes: bool,
    /// after the steps: stop faults, format, check, format again
    pub settle: bool,
    pub tree: Vec<Item>,
    pub steps: Vec<StepSpec>,
}

// ---------------------------------------------------------------- text form

pub fn quote(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for &c in b {
        match c {
            b'"' => s.push_str("\\\""),
            b'\\' => s.push_str("\\\\"),
            b'\n' => s.push_str("\\n"),
            b'\r' => s.push_str("\\r"),
            b'\t' => s.push_str("\\t"),
            32..=126 => s.push(c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    s.push('"');
    s
}

pub fn words(line: &str) -> Result<Vec<Vec<u8>>, String> {
    let b = line.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b' ' {
            i += 1;
            continue;
        }
        let mut w = Vec::new();
        while i < b.len() && b[i] != b' ' {
            if b[i] == b'"' {
                i += 1;
                loop {
                    let c = *b.get(i).ok_or("open quote")?;
                    i += 1;
                    match c {
                        b'"' => break,
                        b'\\' => {
                            let e = *b.get(i).ok_or("open escape")?;
                            i += 1;
                            match e {
                                b'n' => w.push(b'\n'),
                                b'r' => w.push(b'\r'),
                                b't' => w.push(b'\t'),
                                b'x' => {
                                    let h = std::str::from_utf8(b.get(i..i + 2).ok_or("bad hex")?).map_err(|e| e.to_string())?;
                                    w.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                                    i += 2;
                                }
                                c => w.push(c),
                            }
                        }
                        c => w.push(c),
                    }
                }
            } else {
                w.push(b[i]);
                i += 1;
            }
        }
        out.push(w);
    }
    Ok(out)
}

fn mask_text(m: u32) -> String {
    let v: Vec<&str> = ALL_CLS.iter().filter(|c| m & c.bit() != 0).map(|c| c.name()).collect();
    if v.len() == ALL_CLS.len() {
        "any".into()
    } else {
        v.join(",")
    }
}
fn mask_parse(s: &str) -> Result<u32, String> {
    if s == "any" {
        return Ok(all_mask());
    }
    let mut m = 0;
    for w in s.split(',') {
        m |= Cls::parse(w).ok_or_else(|| format!("class {w}"))?.bit();
    }
    Ok(m)
}
pub fn all_mask() -> u32 {
    ALL_CLS.iter().fold(0, |m, c| m | c.bit())
}

fn kind_text(k: &Kind) -> String {
    match k {
        Kind::Err(e) => format!("err {e}"),
        Kind::AnyErr(e) => format!("anyerr {e}"),
        Kind::Short(e) => format!("short {e}"),
        Kind::Kill => "kill".into(),
        Kind::KillAfter => "kill-after".into(),
        Kind::Torn(e) => format!("torn {e}"),
        Kind::Power(e) => format!("power {e}"),
        Kind::PowerAfter(e) => format!("power-after {e}"),
        Kind::Stall(e) => format!("stall {e}"),
        Kind::Ext(Ext::Remove(p)) => format!("ext-remove {}", quote(p)),
        Kind::Ext(Ext::Chmod(p, m)) => format!("ext-chmod {} {m:o}", quote(p)),
        Kind::Ext(Ext::Create(p, d)) => format!("ext-create {} {}", quote(p), quote(d)),
    }
}

impl Scenario {
    pub fn to_text(&self) -> String {
        let k = &self.knobs;
        let mut s = String::from("mosim-scenario 1\n");
        s += &format!("property {}\norigin {}\n", self.property, quote(self.origin.as_bytes()));
        s += &format!(
            "knobs fsync-journal={} dir-order={} dtype-unknown={} latency={} pid-base={} pid-reuse={} pid-step={} clock={} max-io={} max-fds={} env={} tmpfs={} umask={:o} superuser={} plain={}\n",
            k.fsync_journal as u8, k.dir_order, k.dtype_unknown as u8, k.latency, k.pid_base, k.pid_reuse as u8, k.pid_step, k.clock, k.max_io, k.max_fds, k.env, k.tmpfs as u8, k.umask, k.superuser as u8, k.plain as u8
        );
        s += &format!("world seed={} sample-crashes={} settle={}\n", self.world_seed, self.sample_crashes as u8, self.settle as u8);
        for i in &self.tree {
            match i {
                Item::File { path, mode, data, formatted } => {
                    s += &format!("file {} {mode:o} {} {}\n", quote(path), if *formatted { "formatted" } else { "plain" }, quote(data))
                }
                Item::Dir { path, mode } => s += &format!("dir {} {mode:o}\n", quote(path)),
                Item::Link { path, target } => s += &format!("link {} {}\n", quote(path), quote(target)),
                Item::Hard { path, target } => s += &format!("hard-link {} {}\n", quote(path), quote(target)),
            }
        }
        for st in &self.steps {
            match st {
                StepSpec::Run { procs, free } => {
                    s += &match free {
                        Some(f) => format!("run free={f}\n"),
                        None => "run\n".to_string(),
                    };
                    for p in procs {
                        s += &format!("  mofmt cwd {} alloc-fail {} args", quote(&p.cwd), p.alloc_fail);
                        for a in &p.args {
                            s += " ";
                            s += &quote(a);
                        }
                        s += "\n";
                        for f in &p.faults {
                            s += "    fault ";
                            s += &match &f.at {
                                At::Nth { mask, suffix, nth } => format!("nth {} {} {nth}", mask_text(*mask), quote(suffix)),
                                At::Frac { mask, permille } => format!("frac {} {permille}", mask_text(*mask)),
                            };
                            s += &format!(" times {} {}\n", f.times, kind_text(&f.kind));
                        }
                    }
                }
                StepSpec::Edit { path, data } => s += &format!("edit {} {}\n", quote(path), quote(data)),
                StepSpec::Splice { path, seed } => s += &format!("splice {} {seed}\n", quote(path)),
                StepSpec::Chmod { path, mode } => s += &format!("chmod {} {mode:o}\n", quote(path)),
                StepSpec::Remove { path } => s += &format!("remove {}\n", quote(path)),
                StepSpec::Outage { seed } => s += &format!("outage {seed}\n"),
                StepSpec::Sync => s += "sync\n",
            }
        }
        s += "end\n";
        s
    }

    pub fn parse(text: &str) -> Result<Scenario, String> {
        let mut sc = Scenario {
            property: String::new(),
            origin: String::new(),
            knobs: Knobs::default(),
            world_seed: 0,
            sample_crashes: false,
            settle: false,
            tree: vec![],
            steps: vec![],
        };
        let mut seen_end = false;
        for (ln, line) in text.lines().enumerate() {
            if line.starts_with('#') || line.trim().is_empty() {
                continue;
            }
            let w = words(line).map_err(|e| format!("line {}: {e}", ln + 1))?;
            let t = |i: usize| -> Result<String, String> {
                w.get(i).map(|x| String::from_utf8_lossy(x).into_owned()).ok_or(format!("line {}: missing word {i}", ln + 1))
            };
            let b = |i: usize| -> Result<Vec<u8>, String> { w.get(i).cloned().ok_or(format!("line {}: missing word {i}", ln + 1)) };
            let num = |s: String| -> Result<i64, String> { s.parse::<i64>().map_err(|_| format!("line {}: number {s}", ln + 1)) };
            let unum = |s: String| -> Result<u64, String> { s.parse::<u64>().map_err(|_| format!("line {}: number {s}", ln + 1)) };
            let oct = |s: String| -> Result<u32, String> { u32::from_str_radix(&s, 8).map_err(|_| format!("line {}: mode {s}", ln + 1)) };
            match t(0)?.as_str() {
                "mosim-scenario" | "violation" => {}
                "property" => sc.property = t(1)?,
                "origin" => sc.origin = t(1)?,
                "knobs" | "world" => {
                    for i in 1..w.len() {
                        let kv = t(i)?;
                        let (k, v) = kv.split_once('=').ok_or("knob")?;
                        let v = v.to_string();
                        match k {
                            "fsync-journal" => sc.knobs.fsync_journal = v == "1",
                            "dir-order" => sc.knobs.dir_order = unum(v)?,
                            "dtype-unknown" => sc.knobs.dtype_unknown = v == "1",
                            "latency" => sc.knobs.latency = unum(v)?,
                            "pid-base" => sc.knobs.pid_base = num(v)?,
                            "pid-reuse" => sc.knobs.pid_reuse = v == "1",
                            "pid-step" => sc.knobs.pid_step = num(v)?,
                            "clock" => sc.knobs.clock = num(v)?,
                            "max-io" => sc.knobs.max_io = unum(v)? as u32,
                            "max-fds" => sc.knobs.max_fds = num(v)?,
                            "env" => sc.knobs.env = unum(v)?,
                            "tmpfs" => sc.knobs.tmpfs = v == "1",
                            "umask" => sc.knobs.umask = oct(v)?,
                            "plain" => sc.knobs.plain = v == "1",
                            "superuser" => sc.knobs.superuser = v == "1",
                            "seed" => sc.world_seed = unum(v)?,
                            "sample-crashes" => sc.sample_crashes = v == "1",
                            "settle" => sc.settle = v == "1",
                            _ => return Err(format!("unknown knob {k}")),
                        }
                    }
                }
                "file" => sc.tree.push(Item::File { path: b(1)?, mode: oct(t(2)?)?, formatted: t(3)? == "formatted", data: b(4)? }),
                "dir" => sc.tree.push(Item::Dir { path: b(1)?, mode: oct(t(2)?)? }),
                "link" => sc.tree.push(Item::Link { path: b(1)?, target: b(2)? }),
                "hard-link" => sc.tree.push(Item::Hard { path: b(1)?, target: b(2)? }),
                "run" => {
                    let free = match w.get(1) {
                        Some(_) => Some(num(t(1)?.trim_start_matches("free=").to_string())?),
                        None => None,
                    };
                    sc.steps.push(StepSpec::Run { procs: vec![], free });
                }
                "mofmt" => {
                    let p = ProcSpec { cwd: b(2)?, alloc_fail: num(t(4)?)?, args: w[6..].to_vec(), faults: vec![] };
                    match sc.steps.last_mut() {
                        Some(StepSpec::Run { procs, .. }) => procs.push(p),
                        _ => return Err("mofmt outside run".into()),
                    }
                }
                "fault" => {
                    let mask = mask_parse(&t(2)?)?;
                    let (at, i) = match t(1)?.as_str() {
                        "nth" => (At::Nth { mask, suffix: b(3)?, nth: unum(t(4)?)? as u32 }, 5),
                        _ => (At::Frac { mask, permille: unum(t(3)?)? as u32 }, 4),
                    };
                    let times = unum(t(i + 1)?)? as u32;
                    let kind = match t(i + 2)?.as_str() {
                        "err" => Kind::Err(num(t(i + 3)?)? as i32),
                        "anyerr" => Kind::AnyErr(unum(t(i + 3)?)? as u32),
                        "short" => Kind::Short(unum(t(i + 3)?)? as u32),
                        "kill" => Kind::Kill,
                        "kill-after" => Kind::KillAfter,
                        "torn" => Kind::Torn(unum(t(i + 3)?)? as u32),
                        "power" => Kind::Power(unum(t(i + 3)?)?),
                        "power-after" => Kind::PowerAfter(unum(t(i + 3)?)?),
                        "stall" => Kind::Stall(unum(t(i + 3)?)? as u32),
                        "ext-remove" => Kind::Ext(Ext::Remove(b(i + 3)?)),
                        "ext-chmod" => Kind::Ext(Ext::Chmod(b(i + 3)?, oct(t(i + 4)?)?)),
                        "ext-create" => Kind::Ext(Ext::Create(b(i + 3)?, b(i + 4)?)),
                        k => return Err(format!("fault kind {k}")),
                    };
                    match sc.steps.last_mut() {
                        Some(StepSpec::Run { procs, .. }) if !procs.is_empty() => procs.last_mut().unwrap().faults.push(Fault { at, kind, times }),
                        _ => return Err("fault outside run".into()),
                    }
                }
                "edit" => sc.steps.push(StepSpec::Edit { path: b(1)?, data: b(2)? }),
                "splice" => sc.steps.push(StepSpec::Splice { path: b(1)?, seed: unum(t(2)?)? }),
                "chmod" => sc.steps.push(StepSpec::Chmod { path: b(1)?, mode: oct(t(2)?)? }),
                "remove" => sc.steps.push(StepSpec::Remove { path: b(1)? }),
                "outage" => sc.steps.push(StepSpec::Outage { seed: unum(t(1)?)? }),
                "sync" => sc.steps.push(StepSpec::Sync),
                "end" => seen_end = true,
                k => return Err(format!("line {}: unknown word {k}", ln + 1)),
            }
        }
        if !seen_end {
            return Err("no end line".into());
        }
        Ok(sc)
    }
}
