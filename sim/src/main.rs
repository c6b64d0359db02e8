//! mosim: deterministic simulation of mofmt with fault injection.
#![allow(dead_code)]

mod exec;
mod gen;
mod gramref;
mod launch;
mod lexref;
mod minimize;
mod oracle;
mod prng;
mod profiles;
mod refmodel;
mod scenario;
mod templates;
mod vfs;

use exec::Stats;
use oracle::*;
use scenario::Scenario;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn usage() -> ! {
    eprintln!(
        "usage:
  mosim check --property ID --tier quick|thorough --seed N --bin MOFMT --shim SHIM.so
              --evidence FILE --replays DIR [--known FILE] [--runs N] [--wall SECONDS] [--jobs N]
  mosim replay FILE --bin MOFMT --shim SHIM.so [--quiet]
  mosim show --property ID --seed N --run I
  mosim trace --property ID --seed N --runs N [--jobs N] --bin MOFMT --shim SHIM.so
              (prints one hash per run: two invocations must print the same)
  mosim hunt --seed N --runs N --bin MOFMT --shim SHIM.so [--property ID] [--all]
              (lists violations without stopping)"
    );
    std::process::exit(2)
}

struct Args(BTreeMap<String, String>, Vec<String>);
impl Args {
    fn parse() -> Args {
        let mut m = BTreeMap::new();
        let mut p = vec![];
        let mut it = std::env::args().skip(1).peekable();
        while let Some(a) = it.next() {
            match a.strip_prefix("--") {
                Some(k) => {
                    let v = match it.peek() {
                        Some(n) if !n.starts_with("--") => it.next().unwrap(),
                        _ => "1".into(),
                    };
                    m.insert(k.to_string(), v);
                }
                None => p.push(a),
            }
        }
        Args(m, p)
    }
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn need(&self, k: &str) -> String {
        self.get(k).map(|s| s.to_string()).unwrap_or_else(|| {
            eprintln!("missing --{k}");
            usage()
        })
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        match self.get(k) {
            None => d,
            Some(s) => s.parse().unwrap_or_else(|_| {
                // any text is a seed
                prng::hash_bytes(s.as_bytes())
            }),
        }
    }
}

fn main() {
    let a = Args::parse();
    let code = match a.1.first().map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("replay") => replay(&a),
        Some("show") => {
            print!("{}", profiles::scenario(&a.need("property"), a.num("seed", 1), a.num("run", 0)).to_text());
            0
        }
        Some("templates") => {
            // every template, for checking them against the real mofmt
            let dir = a.need("out");
            for (i, t) in templates::all().iter().enumerate() {
                let s = t.join(" ") + "\n";
                let v = refmodel::validity(s.as_bytes());
                std::fs::write(format!("{dir}/{i:04}-{v:?}.mo"), s).unwrap();
            }
            0
        }
        Some("sources") => {
            // the sources of the scenarios, for measuring what they cover
            let dir = a.need("out");
            for i in 0..a.num("runs", 100) {
                let sc = profiles::scenario(&a.need("property"), a.num("seed", 1), i);
                for (k, t) in sc.tree.iter().enumerate() {
                    if let scenario::Item::File { data, .. } = t {
                        let _ = std::fs::write(format!("{dir}/{i}-{k}.mo"), data);
                    }
                }
            }
            0
        }
        Some("trace") => trace(&a),
        Some("hunt") => hunt(&a),
        _ => usage(),
    };
    std::process::exit(code)
}

fn fail(e: String) -> ! {
    eprintln!("mosim: harness error: {e}");
    std::process::exit(3)
}

fn jobs(a: &Args) -> usize {
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    a.num("jobs", n.min(16) as u64).max(1) as usize
}

/// Run `f(worker context, index)` for indices 0..n on several threads.
fn pool<F>(a: &Args, n: u64, f: F) -> Stats
where
    F: Fn(&mut Ctx, u64) -> bool + Sync,
{
    let next = AtomicU64::new(0);
    let total = Mutex::new(Stats::default());
    let (bin, plain, shim) = (a.need("bin"), a.get("plain"), a.need("shim"));
    std::thread::scope(|s| {
        for _ in 0..jobs(a) {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, || {
                    let mut ctx = Ctx::new(&bin, plain, &shim).unwrap_or_else(|e| fail(e));
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        ctx.trim();
                        if !f(&mut ctx, i) {
                            break;
                        }
                    }
                    total.lock().unwrap().add(&ctx.all_stats());
                })
                .expect("thread");
        }
    });
    total.into_inner().unwrap()
}

fn trace(a: &Args) -> i32 {
    let n = a.num("runs", 100);
    let out = Mutex::new(BTreeMap::new());
    let (p, seed) = (a.need("property"), a.num("seed", 1));
    pool(a, n, |ctx, i| {
        let o = execute(ctx, &profiles::scenario(&p, seed, i), None, false);
        let v = o.violations.iter().map(|v| format!("{}/{}", v.property, v.slug)).collect::<Vec<_>>().join(",");
        out.lock().unwrap().insert(i, format!("{:016x} {v}", o.trace));
        true
    });
    for (i, t) in out.into_inner().unwrap() {
        println!("{p} {i} {t}");
    }
    0
}

fn hunt(a: &Args) -> i32 {
    let n = a.num("runs", 100);
    let seed = a.num("seed", 1);
    let found: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
    let all = a.get("all").is_some();
    let first = a.num("first", 0);
    let slow = a.num("slow", 1000) as f64;
    let props: Vec<&str> = match a.get("property") {
        Some(p) => vec![profiles::PROPS.iter().copied().find(|q| *q == p).unwrap_or_else(|| usage())],
        None => profiles::PROPS.to_vec(),
    };
    let k = props.len() as u64;
    let t = Instant::now();
    let st = pool(a, n * k, |ctx, j| {
        let (p, i) = (props[(j % k) as usize], first + j / k);
        let sc = profiles::scenario(p, seed, i);
        let since = Instant::now();
        let o = execute(ctx, &sc, if all { None } else { Some(p) }, false);
        if since.elapsed().as_secs_f64() > slow {
            println!("slow: {p} run {i}: {:.1} s", since.elapsed().as_secs_f64());
        }
        for v in o.violations {
            let key = format!("{} {}", v.property, v.slug);
            let mut f = found.lock().unwrap();
            let e = f.entry(key).or_insert((0, format!("[{p} seed {seed} run {i}] {}", v.detail)));
            e.0 += 1;
        }
        true
    });
    for (k, (n, d)) in found.into_inner().unwrap() {
        println!("{k}: {n}x, e.g. {d}");
    }
    println!("{} scenarios, {} runs, {} ops in {:.1} s; faults {:?}", n * k, st.runs, st.ops, t.elapsed().as_secs_f64(), st.faults);
    0
}

/// property, scenario file, description
fn known(a: &Args, id: &str) -> Vec<(String, String)> {
    let Some(f) = a.get("known") else { return vec![] };
    let text = std::fs::read_to_string(f).unwrap_or_default();
    let dir = std::path::Path::new(f).parent().unwrap().to_path_buf();
    let mut v = vec![];
    for l in text.lines() {
        // known: property=C10 scenario=known/x.scenario slug=crash <what fails>
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let w: Vec<&str> = r.splitn(3, ' ').collect();
        if w.len() == 3 && w[0] == format!("property={id}") {
            if let Some(s) = w[1].strip_prefix("scenario=") {
                v.push((dir.join(s).to_string_lossy().into_owned(), w[2].to_string()));
            }
        }
    }
    v
}

fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let id = a.need("property");
    if !profiles::PROPS.contains(&id.as_str()) {
        eprintln!("unknown property {id}");
        return 2;
    }
    let tier = a.get("tier").unwrap_or("quick").to_string();
    let seed = a.num("seed", 1);
    let (runs, wall) = if tier == "quick" { (profiles::quick_runs(&id), 140) } else { (u64::MAX, 600) };
    let runs = a.num("runs", runs);
    let wall = Duration::from_secs(a.num("wall", wall));
    println!("mosim: property {id}, tier {tier}, base seed {seed}, {} workers", jobs(a));

    // listed findings first: each is one committed scenario
    let findings = known(a, &id);
    if !findings.is_empty() {
        let mut ctx = Ctx::new(&a.need("bin"), a.get("plain"), &a.need("shim")).unwrap_or_else(|e| fail(e));
        for (f, what) in &findings {
            let text = std::fs::read_to_string(f).unwrap_or_else(|e| fail(format!("{f}: {e}")));
            let sc = Scenario::parse(&text).unwrap_or_else(|e| fail(format!("{f}: {e}")));
            let o = execute(&mut ctx, &sc, Some(&id), false);
            if !o.violations.is_empty() {
                println!("KNOWN-FINDING: property={id} {what}");
            }
        }
    }

    let best: Mutex<Option<(u64, Scenario, Violation)>> = Mutex::new(None);
    let limit = AtomicU64::new(u64::MAX);
    let done = AtomicU64::new(0);
    let nontrivial: Mutex<BTreeSet<u64>> = Mutex::new(BTreeSet::new());
    let repeats = AtomicU64::new(0);
    let diverged = AtomicU64::new(0);
    let probes: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let stats = pool(a, runs, |ctx, i| {
        if i >= limit.load(Ordering::SeqCst) || t0.elapsed() > wall {
            return false;
        }
        let sc = profiles::scenario(&id, seed, i);
        let o = execute(ctx, &sc, Some(&id), false);
        done.fetch_add(1, Ordering::SeqCst);
        if o.nontrivial {
            nontrivial.lock().unwrap().insert(o.trace);
        }
        {
            let mut p = probes.lock().unwrap();
            for k in &o.probes {
                *p.entry(k.to_string()).or_insert(0) += 1;
            }
        }
        if i % 50 == 7 {
            // the same scenario again must be the same history
            let o2 = execute(ctx, &sc, Some(&id), false);
            repeats.fetch_add(1, Ordering::SeqCst);
            if o2.trace != o.trace || o2.violations != o.violations {
                diverged.fetch_add(1, Ordering::SeqCst);
                println!("note: run {i} did not repeat");
            }
        }
        if let Some(v) = o.violations.into_iter().next() {
            let mut b = best.lock().unwrap();
            if b.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                *b = Some((i, sc, v));
                limit.store(i, Ordering::SeqCst);
            }
            return false;
        }
        true
    });
    let found = best.into_inner().unwrap();
    let mut code = 0;
    let mut report = None;
    if let Some((i, sc, v)) = &found {
        let mut ctx = Ctx::new(&a.need("bin"), a.get("plain"), &a.need("shim")).unwrap_or_else(|e| fail(e));
        // must fail again in a fresh context before it is reported
        let again = execute(&mut ctx, sc, Some(&id), false);
        let stable = again.violations.iter().any(|w| w.property == v.property && w.slug == v.slug);
        let min = if stable { minimize::minimize(&mut ctx, sc, v, Duration::from_secs(60)) } else { sc.clone() };
        let o = execute(&mut ctx, &min, Some(&id), true);
        let w = o.violations.iter().find(|w| w.slug == v.slug).cloned().unwrap_or_else(|| v.clone());
        let dir = a.need("replays");
        let _ = std::fs::create_dir_all(&dir);
        let text = format!(
            "# {} {}: {}\n# base seed {seed}, run {i} of property {id}; minimised from {} to {} items, {} to {} steps\n# replay: bin/replay.sh THIS-FILE\n{}",
            w.property,
            w.slug,
            w.detail.replace('\n', " "),
            sc.tree.len(),
            min.tree.len(),
            sc.steps.len(),
            min.steps.len(),
            min.to_text()
        );
        let path = format!("{dir}/{id}-{}-{:08x}.scenario", w.slug, prng::hash_bytes(text.as_bytes()) as u32);
        if let Err(e) = std::fs::write(&path, &text) {
            fail(format!("{path}: {e}"));
        }
        println!("violation of {id} ({}) in run {i} of base seed {seed}: {}", w.slug, w.detail);
        if !stable {
            println!("note: the violation did not repeat in a fresh process; the program under test is itself nondeterministic");
        }
        for l in &o.log {
            println!("{l}");
        }
        println!("VIOLATION property={id} replay={path}");
        report = Some(path);
        code = 1;
    }
    let diverged = diverged.load(Ordering::SeqCst);
    if diverged > 0 {
        // every history was judged all the same; a seed does not name one of them
        eprintln!("mosim: warning: {diverged} scenarios executed twice gave two different histories: the program has a source of nondeterminism of its own");
    }
    let wall_s = t0.elapsed().as_secs_f64();
    write_evidence(a, &id, &tier, seed, wall_s, done.load(Ordering::SeqCst), &nontrivial.into_inner().unwrap(), &stats, repeats.load(Ordering::SeqCst), diverged, &probes.into_inner().unwrap(), report);
    if code == 0 {
        println!(
            "{id}: held on {} scenarios ({} program runs, {} system calls) in {wall_s:.1} s",
            done.load(Ordering::SeqCst),
            stats.runs,
            stats.ops
        );
    }
    code
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "))
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    a: &Args,
    id: &str,
    tier: &str,
    seed: u64,
    wall_s: f64,
    done: u64,
    nontrivial: &BTreeSet<u64>,
    st: &Stats,
    repeats: u64,
    diverged: u64,
    probes: &BTreeMap<String, u64>,
    report: Option<String>,
) {
    let Some(path) = a.get("evidence") else { return };
    let samples: Vec<String> = (0..3)
        .map(|i| {
            let mut t = profiles::scenario(id, seed, i).to_text();
            if t.len() > 4000 {
                let mut k = 4000;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push_str("...");
            }
            js(&t)
        })
        .collect();
    let all: u64 = st.faults.values().sum();
    let s = format!(
        "{{
  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",
  \"coverage\": {{
    \"evaluations\": {done},
    \"distinct_nontrivial\": {},
    \"rule\": \"one evaluation = one seeded scenario (disk image, one or several runs of the shipped binary, faults, edits) executed once; non-trivial = some run read a source file or directory and a fault fired, a file was rewritten or refused, or runs overlapped; distinct = different sequences of system calls, arguments and results\",
    \"samples\": [{}],
    \"program_runs\": {}, \"system_calls_served\": {}, \"simulated_seconds\": {:.3},
    \"scenarios_per_hour\": {:.0}, \"program_runs_per_hour\": {:.0},
    \"faults_fired\": {all}, \"faults_fired_by_kind\": {},
    \"kills\": {}, \"power_losses\": {}, \"crash_states_sampled\": {}, \"scheduler_switches\": {}, \"thread_switches\": {}, \"scenarios_that_did_not_repeat\": {diverged},
    \"distinct_histories\": {}, \"distinct_disk_states\": {},
    \"scenarios_repeated_for_determinism\": {repeats},
    \"rare_conditions_hit\": {},
    \"real\": [\"the mofmt program built from /repo's current tree (release profile; for half of the scenarios with overflow checks and debug assertions on), no hooks, including the Rust standard library\"],
    \"simulated\": [\"files, directories, links, permissions, page cache and durability\", \"standard output and error\", \"clock, randomness, process id\", \"process scheduling, signals, power\", \"allocation failure\"]
  }},
  \"assumptions\": [\"the shim intercepts every libc entry point mofmt uses for I/O (unknown ones are reported as escapes)\", \"the disk model is a journalling file system: metadata in order, data of an unsynced file arbitrary after power loss\", \"the reference lexer and recogniser describe the Modelica grammar mofmt documents\"],
  \"wall_s\": {wall_s:.2}, \"violations\": {}{}
}}
",
        js(id),
        js(tier),
        seed.min(i64::MAX as u64),
        nontrivial.len(),
        samples.join(", "),
        st.runs,
        st.ops,
        st.sim_ns as f64 / 1e9,
        done as f64 * 3600.0 / wall_s.max(0.001),
        st.runs as f64 * 3600.0 / wall_s.max(0.001),
        jmap(&st.faults),
        st.kills,
        st.power_losses,
        st.crash_samples,
        st.switches,
        st.thread_switches,
        st.traces.len(),
        st.states.len(),
        jmap(probes),
        report.is_some() as u8,
        match &report {
            Some(p) => format!(", \"replay\": {}", js(p)),
            None => String::new(),
        }
    );
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(path, s) {
        fail(format!("{path}: {e}"));
    }
}

fn replay(a: &Args) -> i32 {
    let f = a.1.get(1).cloned().unwrap_or_else(|| usage());
    let text = std::fs::read_to_string(&f).unwrap_or_else(|e| fail(format!("{f}: {e}")));
    let sc = Scenario::parse(&text).unwrap_or_else(|e| fail(format!("{f}: {e}")));
    let verbose = a.get("quiet").is_none();
    let go = || {
        let mut ctx = Ctx::new(&a.need("bin"), a.get("plain"), &a.need("shim")).unwrap_or_else(|e| fail(e));
        execute(&mut ctx, &sc, Some(&sc.property), verbose)
    };
    let t = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, || (go(), go())).unwrap().join().unwrap()
    });
    let (o, o2) = t;
    for l in &o.log {
        println!("{l}");
    }
    println!("history {:016x}", o.trace);
    if o2.trace != o.trace {
        println!("the second execution differs: {:016x}", o2.trace);
    }
    for v in &o.violations {
        println!("{} {}: {}", v.property, v.slug, v.detail);
    }
    if o.violations.is_empty() {
        println!("no violation");
        0
    } else {
        println!("VIOLATION property={} replay={f}", sc.property);
        1
    }
}
