//! Seeded scenario generators, one profile per property.

use crate::exec::*;
use crate::gen::{self, Style};
use crate::lexref;
use crate::prng::{hash_bytes, mix, Rng};
use crate::refmodel::{validity, Validity};
use crate::scenario::*;
use crate::templates;
use crate::vfs::{EACCES, EIO, ENOSPC, EINTR};

pub const PROPS: [&str; 13] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"];

/// How many scenarios the quick check executes.
pub fn quick_runs(p: &str) -> u64 {
    match p {
        "C07" | "C08" | "C09" => 60_000,
        _ => 45_000,
    }
}

/// How likely each ingredient is.  Percentages unless said otherwise.
struct Prof {
    files: (usize, usize),
    /// weights: valid, formatted, invalid, stray, not UTF-8, damaged, shaped, hollow
    mix: [u32; 8],
    big: u32,
    comments: bool,
    odd: u32,
    links: u32,
    perms: u32,
    dirs: usize,
    steps: (usize, usize),
    check: u32,
    cli: u32,
    dir_args: u32,
    bad_args: u32,
    /// share of runs that get faults at all
    faulty: u32,
    /// weights: error, harmless (EINTR, short, stall), kill, power, external, disk full, allocation
    kinds: [u32; 7],
    /// weights of the classes faults aim at: any, mutating, reading, directories, output
    aim: [u32; 5],
    between: u32,
    samples: u32,
    settle: u32,
    together: u32,
    chunks: u32,
    /// in thousand: batches of hundreds of files, long chains of directories
    many: usize,
    /// permille: hundreds of short files, all but right
    swarm: usize,
    /// permille: files with tens of thousands of lines or columns of nothing
    padded: usize,
    deep: usize,
    /// a kind of padding or shape that has to be among the files
    forced: Option<usize>,
}

/// The first scenarios of a check hold one kind of large file each.
const FORCED: usize = 9 + gen::SHAPES;

const BASE: Prof = Prof {
    files: (1, 6),
    mix: [40, 15, 12, 6, 4, 8, 4, 4],
    big: 2,
    comments: false,
    odd: 20,
    links: 15,
    perms: 8,
    dirs: 4,
    steps: (1, 3),
    check: 40,
    cli: 2,
    dir_args: 60,
    bad_args: 10,
    faulty: 50,
    kinds: [40, 25, 10, 6, 5, 5, 2],
    aim: [30, 25, 20, 15, 10],
    between: 25,
    samples: 0,
    settle: 0,
    together: 0,
    chunks: 25,
    many: 2,
    swarm: 2,
    padded: 3,
    deep: 10,
    forced: None,
};

fn prof(p: &str, r: &mut Rng) -> Prof {
    match p {
        "C01" => Prof { check: 88, faulty: 65, kinds: [40, 20, 14, 10, 6, 6, 4], aim: [45, 20, 15, 15, 5], perms: 15, ..BASE },
        "C02" => Prof { swarm: 150, mix: [22, 6, 25, 10, 10, 24, 1, 2], check: 20, faulty: 45, aim: [20, 20, 45, 10, 5], perms: 14, bad_args: 18, links: 30, ..BASE },
        "C03" => Prof {
            files: (1, 4),
            mix: [75, 10, 5, 2, 1, 3, 3, 1],
            big: 4,
            check: 6,
            faulty: 88,
            kinds: [38, 10, 16, 16, 3, 14, 3],
            aim: [22, 62, 8, 6, 2],
            samples: 55,
            between: 35,
            steps: (1, 4),
            settle: 20,
            perms: 6,
            ..BASE
        },
        "C04" => Prof { many: 12, faulty: 45, aim: [28, 22, 20, 14, 16], bad_args: 16, cli: 7, perms: 12, kinds: [50, 30, 3, 2, 5, 6, 2], ..BASE },
        "C05" => Prof {
            swarm: 15,
            many: 6,
            files: (3, 10),
            mix: [42, 14, 12, 6, 4, 8, 6, 4],
            faulty: 50,
            bad_args: 20,
            perms: 14,
            kinds: [52, 28, 0, 0, 12, 0, 0],
            chunks: 45,
            ..BASE
        },
        "C06" => Prof {
            many: 6,
            deep: 40,
            files: (2, 14),
            mix: [55, 20, 8, 3, 2, 4, 0, 8],
            odd: 60,
            links: 55,
            dirs: 9,
            dir_args: 96,
            perms: 12,
            check: 55,
            faulty: 35,
            kinds: [60, 15, 2, 1, 18, 2, 0],
            aim: [15, 5, 15, 60, 5],
            bad_args: 5,
            ..BASE
        },
        "C07" => Prof {
            files: (1, 4),
            mix: [86, 4, 2, 1, 0, 2, 4, 1],
            check: 8,
            odd: 3,
            links: 4,
            perms: 2,
            faulty: 30,
            kinds: [35, 10, 25, 20, 0, 8, 2],
            aim: [25, 70, 3, 1, 1],
            samples: 15,
            steps: (1, 2),
            bad_args: 2,
            ..BASE
        },
        "C08" => Prof {
            files: (1, 4),
            mix: [80, 4, 1, 1, 0, 2, 3, 9],
            comments: true,
            check: 8,
            odd: 3,
            links: 4,
            perms: 2,
            faulty: 25,
            kinds: [35, 10, 25, 20, 0, 8, 2],
            aim: [25, 70, 3, 1, 1],
            samples: 15,
            steps: (1, 2),
            bad_args: 2,
            ..BASE
        },
        "C09" => Prof {
            files: (1, 5),
            mix: [72, 8, 5, 2, 1, 3, 4, 5],
            comments: r.pct(50),
            check: 25,
            faulty: 55,
            kinds: [32, 10, 20, 20, 4, 10, 4],
            aim: [25, 60, 6, 6, 3],
            steps: (1, 4),
            between: 45,
            settle: 100,
            odd: 10,
            links: 8,
            bad_args: 4,
            ..BASE
        },
        "C10" => Prof {
            padded: 10,
            swarm: 40,
            files: (1, 5),
            mix: [20, 2, 12, 14, 8, 30, 10, 4],
            big: 6,
            check: 35,
            faulty: 35,
            kinds: [60, 25, 0, 0, 12, 3, 0],
            odd: 20,
            ..BASE
        },
        "C11" => Prof {
            padded: 12,
            swarm: 40,
            files: (1, 7),
            mix: [30, 16, 18, 16, 5, 10, 2, 3],
            check: 65,
            faulty: 30,
            perms: 12,
            bad_args: 14,
            kinds: [55, 35, 0, 0, 8, 2, 0],
            aim: [18, 30, 22, 16, 14],
            ..BASE
        },
        "C12" => Prof {
            files: (1, 4),
            mix: [66, 14, 8, 4, 2, 2, 2, 2],
            together: 100,
            check: 35,
            faulty: 30,
            kinds: [0, 60, 40, 0, 0, 0, 0],
            odd: 6,
            links: 8,
            perms: 0,
            steps: (1, 2),
            bad_args: 3,
            between: 20,
            cli: 0,
            settle: 15,
            ..BASE
        },
        _ => Prof {
            // C13
            files: (1, 6),
            odd: 35,
            links: 35,
            perms: 25,
            check: 15,
            faulty: 65,
            kinds: [55, 10, 18, 6, 3, 6, 2],
            aim: [20, 60, 8, 10, 2],
            steps: (1, 4),
            ..BASE
        },
    }
}

/// A source the reference model accepts.
pub fn valid_source(r: &mut Rng, st: &Style) -> String {
    for _ in 0..6 {
        let s = gen::source(r, st);
        if validity(s.as_bytes()) == Validity::Ok {
            return s;
        }
    }
    "model M\nReal x;\nend M;\n".into()
}

fn style(r: &mut Rng, comments: bool) -> Style {
    let mut st = Style::random(r);
    if comments {
        st.comments = *r.pick(&[30, 60, 120, 250, 400]);
        st.usual = r.pct(20);
    }
    st
}

const STRAYS: &[&str] = &["#", "$", "@", "?", "~", "%", "&", "|", "!", "`", "\\", "ä", "é", "°", "日", "😀", "\u{feff}", "\u{a0}", "\u{0}", "\u{7f}", "“", "–"];

/// One edit of the kind that makes a program malformed.
fn break_tokens(r: &mut Rng, t: &mut Vec<String>) {
    let i = r.below(t.len());
    match r.below(11) {
        6 => {
            // no token at all
            const NUM: &[&str] = &["1e", "2.e+", "0.5E-", "3e+x", "1.2.3", "5 e", "1e 5", ".5", "1..2", "1.e", "7E", "0x1"];
            const WORD: &[&str] = &["''", "'a", "'\u{e9}'", "'a\n'", "'\\'", "a'", "\\", "$x", "a b", "\u{e4}", "x@y"];
            const STR: &[&str] = &["\"b", "/* c", "/*/", "\"\\\"", "\"a\"\"b\"", "\"a\" b\""];
            let first = |w: &String| w.chars().next().unwrap_or(' ');
            let c: Vec<usize> = (0..t.len())
                .filter(|i| first(&t[*i]).is_ascii_digit() || "'\"".contains(first(&t[*i])) || (first(&t[*i]).is_ascii_alphabetic() && !lexref::KEYWORDS.contains(&t[*i].as_str())))
                .collect();
            let i = if c.is_empty() || r.pct(10) { i } else { *r.pick(&c) };
            t[i] = match first(&t[i]) {
                '0'..='9' => r.pick(NUM).to_string(),
                '"' => r.pick(STR).to_string(),
                _ => r.pick(WORD).to_string(),
            };
        }
        7 => {
            // one word for another of its kind
            let groups: &[&[&str]] = &[
                &["=", ":=", "==", "<>", ":"],
                &["equation", "algorithm", "public", "protected", "initial"],
                &["(", "[", "{"],
                &[")", "]", "}"],
                &["if", "when", "for", "while"],
                &["then", "loop"],
                &["else", "elseif", "elsewhen"],
                &["model", "function", "type", "package", "within", "import", "extends", "end"],
                &["+", "*", "^", ".", ",", ";", "and", "or", "not", "-"],
                &["in", "constrainedby", "annotation", "external", "der", "enumeration"],
            ];
            let f = |w: &String| groups.iter().find(|g| g.contains(&w.as_str()));
            let c: Vec<usize> = (0..t.len()).filter(|i| f(&t[*i]).is_some()).collect();
            if !c.is_empty() {
                let i = *r.pick(&c);
                let g = f(&t[i]).unwrap();
                t[i] = r.pick(g).to_string();
            }
        }
        8 => t.insert(i, lexref::KEYWORDS[r.below(lexref::KEYWORDS.len())].into()),
        9 => t[i] = lexref::KEYWORDS[r.below(lexref::KEYWORDS.len())].into(),
        10 => {
            // a list that ends or begins with its separator
            let w = *r.pick(&[",", ";", "."]);
            let c: Vec<usize> = (0..t.len()).filter(|i| ["(", ")", "{", "}", "[", "]", ",", ";"].contains(&t[*i].as_str())).collect();
            if !c.is_empty() {
                let i = *r.pick(&c);
                t.insert(i + r.below(2), w.into());
            }
        }
        0 => {
            t.remove(i);
        }
        1 => {
            let x = t[i].clone();
            t.insert(i, x);
        }
        2 => {
            let j = r.below(t.len());
            t.swap(i, j);
        }
        3 => t.truncate(i),
        4 => {
            let w = *r.pick(&["end", "equation", ";", ")", "(", "if", "then", "model", ",", "=", "end if", "annotation", "\"s\"", "1", "+", "}", "]"]);
            t.insert(i, w.into());
        }
        _ => t[i] = r.pick(&["end", ";", "(", ")", "model", "x", "3", "for", "loop", "when"]).to_string(),
    }
}

fn invalid(r: &mut Rng, st: &Style) -> Vec<u8> {
    for _ in 0..8 {
        let mut t = gen::tokens(r, &Style { fuel: st.fuel.min(60), ..st.clone() });
        for _ in 0..r.range(1, 2) {
            if !t.is_empty() {
                break_tokens(r, &mut t);
            }
        }
        if t.is_empty() {
            t.push("end".into());
        }
        let s = gen::render(&t, r, st).into_bytes();
        let near = r.pct(25);
        match validity(&s) {
            Validity::Syntax | Validity::Lex(_) => return s,
            // still right, but nothing anybody would write
            Validity::Ok if near => return s,
            _ => {}
        }
    }
    b"model M\n  Real ;\nend M;\n".to_vec()
}

/// Short, and as little wrong as possible.
fn nearly(r: &mut Rng, st: &Style) -> Vec<u8> {
    if r.pct(60) {
        return gen::render(&templates::nearly(r), r, st).into_bytes();
    }
    let mut t = gen::lean_tokens(r, st);
    if r.pct(60) {
        let i = r.below(t.len());
        t.remove(i);
    } else {
        break_tokens(r, &mut t);
    }
    gen::render(&t, r, st).into_bytes()
}

fn stray(r: &mut Rng, st: &Style) -> Vec<u8> {
    let s = valid_source(r, st);
    // put the character between two tokens, outside comments and strings
    if let Ok(l) = lexref::lex(&s) {
        let k = r.below(l.len() + 1);
        let at = if k < l.len() { l[k].start } else { s.len() };
        let mut o = s[..at].to_string();
        if r.pct(50) {
            o.push(' ');
        }
        o += *r.pick(STRAYS);
        if r.pct(50) {
            o.push_str(*r.pick(&[" ", "\n"]));
        }
        o += &s[at..];
        return o.into_bytes();
    }
    s.into_bytes()
}

fn not_utf8(r: &mut Rng, st: &Style) -> Vec<u8> {
    let mut s = valid_source(r, st).into_bytes();
    let at = r.below(s.len() + 1);
    let bad: &[u8] = *r.pick(&[&b"\xff"[..], b"\xe4", b"\x80", b"\xc3", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xfe\xff", b"\xc0\xaf"]);
    s.splice(at..at, bad.iter().copied());
    if validity(&s) == Validity::NotUtf8 {
        s
    } else {
        b"model M // \xe4\nend M;\n".to_vec()
    }
}

/// What a failing medium returns.
fn damaged(r: &mut Rng, st: &Style) -> Vec<u8> {
    let mut s = valid_source(r, st).into_bytes();
    let n = s.len();
    match r.below(9) {
        0 | 1 => s.truncate(r.below(n + 1)),
        2 => {
            let a = r.below(n + 1);
            let b = (a + *r.pick(&[1usize, 16, 64, 512])).min(n);
            for c in &mut s[a..b] {
                *c = 0;
            }
        }
        3 => {
            for _ in 0..r.range(1, 4) {
                if n > 0 {
                    let a = r.below(n);
                    s[a] ^= 1 << r.below(8);
                }
            }
        }
        4 => {
            let a = r.below(n + 1);
            let o = valid_source(r, st).into_bytes();
            let b = r.below(o.len() + 1);
            s.truncate(a);
            s.extend_from_slice(&o[b..]);
        }
        5 => {
            let a = r.below(n + 1);
            let b = (a + r.below(64)).min(n);
            s.drain(a..b);
        }
        6 => {
            let a = r.below(n + 1);
            let b = (a + r.below(64)).min(n);
            let x = s[a..b].to_vec();
            s.splice(a..a, x);
        }
        7 => {
            s.clear();
            for _ in 0..r.below(200) {
                s.push(r.u64() as u8);
            }
        }
        _ => {
            // random characters Modelica is made of
            s.clear();
            for _ in 0..r.below(60) {
                let w = *r.pick(&[
                    "model", "end", "M", ";", "(", ")", "\"", "/*", "*/", "//", "\n", " ", "'", "\\", "1.", "1e", ".", "/", "*", "ä", "if", "{", "[", "equation", "=", ":=", "<", ">", "<>",
                    "within", "\r", "\t", "ö//", "\"é", "/**/", "1e+", "0x", ".*", "./", "'é'", "#",
                ]);
                s.extend_from_slice(w.as_bytes());
            }
        }
    }
    s
}

/// The same text with so much layout or comment before or after it that no
/// buffer or small counter holds.
fn padded(r: &mut Rng, data: Vec<u8>, kind: Option<usize>) -> Vec<u8> {
    let k = r.range(1, 40);
    let pad: Vec<u8> = match kind.unwrap_or(r.below(9)) {
        // more comments than a small counter holds
        8 => b"//\n".repeat(65_530 + k),
        0 => b"\n".repeat(65_536 + k),
        1 => b" ".repeat(65_536 + k),
        2 => [&b"/*"[..], &b"pad ".repeat(16_400 + k), b"*/\n"].concat(),
        3 => b"// pad\n".repeat(9_400 + k),
        4 => b"\r\n".repeat(33_000 + k),
        5 if kind.is_some() || r.pct(20) => [&b"/*"[..], &b"a lot of text, and more of it\n".repeat(37_000 + k), b"*/\n"].concat(),
        6 => [&b" /*xxx"[r.below(2)..], "\u{e4}".repeat(33_000 + k).as_bytes(), b"*/\n"].concat(),
        _ => [&b"/*xxx"[..2 + r.below(4)], "\u{65e5}".repeat(3_000 + k).as_bytes(), b"*/ "].concat(),
    };
    if r.pct(75) {
        [pad, data].concat()
    } else {
        [data, pad].concat()
    }
}

/// The same length, and hardly a difference.
fn twin(r: &mut Rng, data: &[u8]) -> Vec<u8> {
    let mut t = data.to_vec();
    let from = if r.pct(70) { t.len() / 2 } else { 0 };
    let c: Vec<usize> = (from..t.len()).filter(|i| t[*i].is_ascii_alphanumeric() || t[*i] == b';').collect();
    if !c.is_empty() {
        let i = *r.pick(&c);
        t[i] = match t[i] {
            b';' => *r.pick(b" ,;"),
            b'0'..=b'9' => *r.pick(b"0123456789"),
            _ => *r.pick(b"abcxyzABC"),
        };
    }
    t
}

fn content(r: &mut Rng, p: &Prof) -> (Vec<u8>, bool) {
    if let (Some(k @ 9..), true) = (p.forced, r.pct(50)) {
        return (gen::shaped(r, true, Some(k - 9)).into_bytes(), r.pct(20));
    }
    let (c, formatted) = plain_content(r, p);
    if let (Some(k @ 0..9), true) = (p.forced, r.pct(50)) {
        return (padded(r, c, Some(k)), formatted);
    }
    if r.below(1000) < p.padded && c.len() < 20_000 {
        return (padded(r, c, None), formatted);
    }
    (c, formatted)
}
fn plain_content(r: &mut Rng, p: &Prof) -> (Vec<u8>, bool) {
    let st = style(r, p.comments);
    let small = Style { fuel: st.fuel.min(40), ..st.clone() };
    match r.weighted(&p.mix) {
        0 => (valid_source(r, &st).into_bytes(), false),
        1 => (valid_source(r, &st).into_bytes(), true),
        2 => (invalid(r, &small), false),
        3 => (stray(r, &small), false),
        4 => (not_utf8(r, &small), false),
        5 => (damaged(r, &small), false),
        6 => {
            let big = r.pct(p.big);
            (gen::shaped(r, big, None).into_bytes(), r.pct(20))
        }
        _ => (gen::hollow(r, &st).into_bytes(), false),
    }
}

const PLAIN: &[&str] = &["a", "b", "c", "d", "e", "f", "Motor", "Pump", "package", "Test", "x1", "Z"];
const ODD_FILES: &[&[u8]] = &[
    b".hidden.mo", b".mo", b"x.MO", b"x.mo.bak", b"x.mo~", b"x..mo", b"README", b"notes.txt", b"sp ace.mo", b"\xc3\xbcml.mo", b"\xff\xfe.mo", b"a:1:2.mo",
    b"script.mos", b"mo", b"xmo", b"-v.mo", b"--check.mo", b"x.mo.mo", b"package.order", b".x.mo", b"x.mO", b"x.txt.mo", b"#a.mo#", b"x.mo ", b"*.mo", b"x.tmp", b".a.mo.swp", b"x.momo", b"..mo", b"...mo",
    b"@a.mo", b"[ab].mo", b"?.mo", b"$HOME.mo", b"~.mo", b"a,b.mo", b"a;b.mo", b"tab\there.mo", b"a%20b.mo", b"\"q\".mo", b"{a,b}.mo", b"!x.mo", b"a=b.mo", b"back\\slash.mo", b"1.mo", b"\xef\xbb\xbfbom.mo",
];
const DIRS: &[&[u8]] = &[b"src", b"lib", b"pkg", b"A", b"B", b"C"];
const ODD_DIRS: &[&[u8]] = &[b".git", b"d.mo", b"sp ace", b"\xc3\x9cber", b"\xffdir", b"a:b", b"-x", b".mo", b"..x", b"target", b"x.mo.d", b".d.mo"];

struct Made {
    items: Vec<Item>,
    dirs: Vec<Vec<u8>>,
    files: Vec<Vec<u8>>,
    mos: Vec<Vec<u8>>,
    links: Vec<Vec<u8>>,
}

fn join(d: &[u8], n: &[u8]) -> Vec<u8> {
    crate::refmodel::join(d, n)
}

fn tree(r: &mut Rng, p: &Prof) -> Made {
    let mut m = Made { items: vec![], dirs: vec![b"/w".to_vec()], files: vec![], mos: vec![], links: vec![] };
    let mut taken: Vec<Vec<u8>> = vec![];
    for _ in 0..r.below(p.dirs + 1) {
        let d = r.pick(&m.dirs).clone();
        if d.len() > 60 {
            continue;
        }
        let n: &[u8] = if r.pct(p.odd) { *r.pick(ODD_DIRS) } else { *r.pick(DIRS) };
        let x = join(&d, n);
        if taken.contains(&x) {
            continue;
        }
        taken.push(x.clone());
        m.dirs.push(x.clone());
        let mode = if r.pct(p.perms) { *r.pick(&[0o555, 0o500, 0o300, 0o000, 0o444, 0o311]) } else { *r.pick(&[0o755, 0o755, 0o700, 0o775]) };
        m.items.push(Item::Dir { path: x, mode });
    }
    if r.below(1000) < p.deep {
        // a long chain of directories
        let mut d = r.pick(&m.dirs).clone();
        for _ in 0..r.range(8, 50) {
            d = join(&d, *r.pick(DIRS));
            if !taken.contains(&d) {
                taken.push(d.clone());
                m.dirs.push(d.clone());
                m.items.push(Item::Dir { path: d.clone(), mode: 0o755 });
            }
        }
    }
    if r.below(1000) < p.many {
        // more files than anybody would list by hand
        let d = r.pick(&m.dirs).clone();
        let bad = r.pct(50);
        for i in 0..*r.pick(&[40usize, 130, 257, 300, 600]) {
            let x = join(&d, format!("n{i}.mo").as_bytes());
            let (s, formatted) = match r.below(if bad { 4 } else { 3 }) {
                0 => (format!("model N{i}\n\nend N{i};\n"), false),
                1 => (format!("model N{i} end N{i};"), false),
                2 => (format!("model N{i} \"{}\" end N{i};", "d".repeat(r.below(40))), true),
                _ => (format!("model N{i} end"), false),
            };
            taken.push(x.clone());
            m.items.push(Item::File { path: x.clone(), mode: 0o644, data: s.into_bytes(), formatted });
            m.mos.push(x.clone());
            m.files.push(x);
        }
    }
    if r.below(1000) < p.swarm {
        let d = r.pick(&m.dirs).clone();
        let st = Style { comments: 0, ..style(r, false) };
        for i in 0..*r.pick(&[40usize, 100, 150, 200]) {
            let x = join(&d, format!("s{i}.mo").as_bytes());
            taken.push(x.clone());
            m.items.push(Item::File { path: x.clone(), mode: 0o644, data: nearly(r, &st), formatted: false });
            m.mos.push(x.clone());
            m.files.push(x);
        }
    }
    let n = r.range(p.files.0, p.files.1);
    let same = r.pct(8);
    let mut prev: Option<(Vec<u8>, bool)> = None;
    for _ in 0..n {
        let d = r.pick(&m.dirs).clone();
        let name: Vec<u8> = if r.pct(p.odd) { r.pick(ODD_FILES).to_vec() } else { format!("{}.mo", r.pick(PLAIN)).into_bytes() };
        let name = if r.pct(p.odd) && r.pct(4) { [&b"n".repeat(*r.pick(&[200usize, 247, 252]))[..], b".mo"].concat() } else { name };
        let x = join(&d, &name);
        if taken.contains(&x) {
            continue;
        }
        taken.push(x.clone());
        let (data, formatted) = match (&prev, same) {
            (Some(c), true) if r.pct(50) => c.clone(),
            (Some(c), true) => (twin(r, &c.0), c.1),
            _ => content(r, p),
        };
        prev = Some((data.clone(), formatted));
        let mode = if r.pct(p.perms) { *r.pick(&[0o444, 0o400, 0o000, 0o200, 0o555]) } else { *r.pick(&[0o644, 0o644, 0o600, 0o664, 0o755, 0o640, 0o666]) };
        let mode = if r.pct(5) { *r.pick(&[0o4755, 0o2664, 0o2755, 0o1644, 0o6775, 0o7777, 0o4600]) } else { mode };
        m.items.push(Item::File { path: x.clone(), mode, data, formatted });
        if crate::refmodel::is_mo(&name) {
            m.mos.push(x.clone());
        }
        m.files.push(x);
    }
    if r.pct(p.links) {
        for _ in 0..r.range(1, 3) {
            let d = r.pick(&m.dirs).clone();
            let mo = r.pct(50);
            let name: Vec<u8> = if mo { format!("l{}.mo", r.below(4)).into_bytes() } else { format!("l{}{}", r.below(4), r.pick(&["", "", ".txt", ".mos", ".MO"])).into_bytes() };
            let x = join(&d, &name);
            if taken.contains(&x) {
                continue;
            }
            let target: Vec<u8> = match r.below(9) {
                8 if !m.links.is_empty() => {
                    let l = r.pick(&m.links).clone();
                    match l.strip_prefix(&d[..]) {
                        Some(t) if t.first() == Some(&b'/') && r.pct(50) => t[1..].to_vec(),
                        _ => l,
                    }
                }
                8 if mo && r.pct(30) => x.clone(),
                0 | 1 if !m.files.is_empty() => r.pick(&m.files).clone(),
                2 | 3 => r.pick(&m.dirs).clone(),
                4 => b".".to_vec(),
                5 => b"..".to_vec(),
                6 if !m.files.is_empty() => {
                    // relative to its own directory
                    let f = r.pick(&m.files).clone();
                    match f.strip_prefix(&d[..]) {
                        Some(t) if t.first() == Some(&b'/') => t[1..].to_vec(),
                        _ => f,
                    }
                }
                7 if mo => b"missing.mo".to_vec(),
                _ => r.pick(&m.dirs).clone(),
            };
            taken.push(x.clone());
            m.links.push(x.clone());
            m.items.push(Item::Link { path: x, target });
        }
    }
    if r.pct(p.links / 3) && !m.files.is_empty() {
        for _ in 0..r.range(1, 2) {
            let d = r.pick(&m.dirs).clone();
            let name: Vec<u8> = if r.pct(80) { format!("h{}.mo", r.below(4)).into_bytes() } else { b"h.txt".to_vec() };
            let x = join(&d, &name);
            if taken.contains(&x) {
                continue;
            }
            let target = r.pick(&m.files).clone();
            taken.push(x.clone());
            if crate::refmodel::is_mo(&name) {
                m.mos.push(x.clone());
            }
            m.files.push(x.clone());
            m.items.push(Item::Hard { path: x, target });
        }
    }
    m
}

/// How the path is spelled on the command line, for a run started in `cwd`.
fn spell(r: &mut Rng, cwd: &[u8], p: &[u8], dir: bool) -> Vec<u8> {
    let mut s = p.to_vec();
    if cwd == p && dir {
        s = b".".to_vec();
    } else if let Some(t) = p.strip_prefix(cwd) {
        if cwd == b"/" {
            if r.pct(50) {
                s = t.to_vec();
            }
        } else if t.first() == Some(&b'/') && r.pct(75) {
            s = t[1..].to_vec();
            if r.pct(40) || s.starts_with(b"-") {
                s = [b"./", &s[..]].concat();
            }
        }
    }
    if dir && s != b"." && r.pct(20) {
        s.push(b'/');
    }
    if dir && r.pct(4) {
        s.extend_from_slice(b"/.");
    }
    s
}

fn argv(r: &mut Rng, p: &Prof, m: &Made) -> (Vec<Vec<u8>>, Vec<u8>) {
    let cwd = if r.pct(40) { r.pick(&m.dirs).clone() } else { b"/".to_vec() };
    if r.pct(p.cli) {
        let a: &[&str] = *r.pick(&[
            &[][..],
            &["-h"],
            &["--help"],
            &["-v"],
            &["--version"],
            &["--check"],
            &["--chekc", "/w"],
            &["-c", "/w"],
            &["-h", "/w"],
            &["--version", "/w"],
            &["-\u{e9}"],
            &["--", "/w"],
            &["-"],
        ]);
        return (a.iter().map(|x| x.as_bytes().to_vec()).collect(), cwd);
    }
    let mut a: Vec<Vec<u8>> = vec![];
    let whole = r.pct(p.dir_args);
    if whole {
        let n = if r.pct(75) { 1 } else { r.range(1, 3) };
        for k in 0..n {
            let d = if k == 0 && r.pct(65) { b"/w".to_vec() } else { r.pick(&m.dirs).clone() };
            let s = spell(r, &cwd, &d, true);
            a.push(s);
        }
        if r.pct(12) && !m.links.is_empty() {
            let l = r.pick(&m.links).clone();
            a.push(spell(r, &cwd, &l, false));
        }
    }
    if !whole || r.pct(20) {
        let mut fs = if r.pct(80) { m.mos.clone() } else { m.files.clone() };
        let any = r.pct(40);
        fs.extend(m.links.iter().filter(|l| any || l.ends_with(b".mo")).cloned());
        r.shuffle(&mut fs);
        let n = if r.pct(60) { fs.len() } else { r.below(fs.len() + 1) };
        for f in fs.into_iter().take(n) {
            a.push(spell(r, &cwd, &f, false));
        }
        if r.pct(5) && !a.is_empty() {
            let x = r.pick(&a).clone();
            a.push(x);
        }
        let total: usize = m.items.iter().map(|i| if let Item::File { data, .. } = i { data.len() } else { 0 }).sum();
        if r.below(1000) < p.many && !a.is_empty() && total < 20_000 {
            // the same argument again and again
            let x = r.pick(&a).clone();
            let all = a.clone();
            let k = (*r.pick(&[255usize, 256, 256, 512, 768])).min(60_000 / (x.len() + 1));
            if r.pct(50) {
                a = vec![x; k];
            } else {
                a = all.into_iter().filter(|y| *y != x).collect();
                a.extend(vec![x; k]);
            }
        }
    }
    if r.pct(p.bad_args) {
        let x: Vec<u8> = match r.below(5) {
            0 => b"/w/missing.mo".to_vec(),
            1 => b"/w/missing".to_vec(),
            2 => b"/w/none/at/all.mo".to_vec(),
            3 => b"/w/\xffgone.mo".to_vec(),
            _ => {
                if m.files.is_empty() {
                    b"/w/a.mo/x.mo".to_vec()
                } else {
                    r.pick(&m.files).clone()
                }
            }
        };
        let at = r.below(a.len() + 1);
        a.insert(at, x);
    }
    if a.is_empty() {
        a.push(b"/w".to_vec());
    }
    if a[0].starts_with(b"-") {
        a[0] = [b"./", &a[0][..]].concat();
    }
    if r.pct(p.check) {
        a.insert(0, b"--check".to_vec());
    }
    (a, cwd)
}

const MUT: u32 = (1 << Cls::OpenW as u32)
    | (1 << Cls::Write as u32)
    | (1 << Cls::Fsync as u32)
    | (1 << Cls::Rename as u32)
    | (1 << Cls::Unlink as u32)
    | (1 << Cls::Chmod as u32)
    | (1 << Cls::Chown as u32)
    | (1 << Cls::Trunc as u32)
    | (1 << Cls::Mkdir as u32)
    | (1 << Cls::Link as u32);
const RD: u32 = (1 << Cls::OpenR as u32) | (1 << Cls::Read as u32) | (1 << Cls::Stat as u32) | (1 << Cls::Path as u32);
const DIRM: u32 = (1 << Cls::OpenDir as u32) | (1 << Cls::ReadDir as u32) | (1 << Cls::Stat as u32);
const OUTM: u32 = (1 << Cls::Out as u32) | (1 << Cls::ErrOut as u32);
/// where interrupted and partial calls can happen
const SOFT: u32 = (1 << Cls::OpenR as u32)
    | (1 << Cls::OpenW as u32)
    | (1 << Cls::Read as u32)
    | (1 << Cls::Write as u32)
    | (1 << Cls::Out as u32)
    | (1 << Cls::ErrOut as u32)
    | (1 << Cls::Fsync as u32);
const XFER: u32 = (1 << Cls::Read as u32) | (1 << Cls::Write as u32) | (1 << Cls::Out as u32) | (1 << Cls::ErrOut as u32);

fn aim(r: &mut Rng, p: &Prof) -> u32 {
    if r.pct(2) {
        return Cls::Thread.bit();
    }
    match r.weighted(&p.aim) {
        0 => all_mask() & !Cls::Thread.bit(),
        1 => {
            if r.pct(50) {
                MUT
            } else {
                r.pick(&[Cls::OpenW, Cls::Write, Cls::Fsync, Cls::Rename, Cls::Chmod, Cls::Unlink]).bit()
            }
        }
        2 => {
            if r.pct(50) {
                RD
            } else {
                r.pick(&[Cls::OpenR, Cls::Read]).bit()
            }
        }
        3 => {
            if r.pct(50) {
                DIRM
            } else {
                r.pick(&[Cls::OpenDir, Cls::ReadDir, Cls::Stat]).bit()
            }
        }
        _ => OUTM,
    }
}

fn at(r: &mut Rng, mask: u32, m: &Made) -> At {
    if r.pct(65) {
        At::Frac { mask, permille: r.below(1000) as u32 }
    } else {
        let suffix = if r.pct(60) && !m.mos.is_empty() {
            let f = r.pick(&m.mos);
            let k = f.iter().rposition(|c| *c == b'/').unwrap_or(0);
            f[k..].to_vec()
        } else if r.pct(40) {
            b".mo".to_vec()
        } else {
            vec![]
        };
        At::Nth { mask, suffix, nth: *r.pick(&[0, 0, 0, 1, 1, 2, 3, 5, 8]) }
    }
}

fn faults(r: &mut Rng, p: &Prof, m: &Made, args: &[Vec<u8>], alone: bool) -> (Vec<Fault>, i64, Option<i64>) {
    let mut v = vec![];
    let mut alloc = 0;
    let mut free = None;
    if !r.pct(p.faulty) {
        return (v, alloc, free);
    }
    let n = 1 + r.weighted(&[65, 22, 9, 4]);
    for _ in 0..n {
        match r.weighted(&p.kinds) {
            0 => {
                let mask = aim(r, p);
                let times = *r.pick(&[1, 1, 1, 2, 1000]);
                let times = if mask & (1 << Cls::Other as u32) != 0 && times > 2 { 1 } else { times };
                let kind = if r.pct(70) { Kind::AnyErr(r.below(64) as u32) } else { Kind::Err(*r.pick(&[EIO, EACCES, ENOSPC])) };
                // never on calls whose failure is not observable as such
                v.push(Fault { at: at(r, mask & !(1 << Cls::Other as u32), m), kind, times });
            }
            1 => match r.below(3) {
                0 => v.push(Fault { at: at(r, SOFT, m), kind: Kind::Err(EINTR), times: *r.pick(&[1, 1, 2, 5, 20]) }),
                1 => v.push(Fault { at: at(r, XFER, m), kind: Kind::Short(r.below(1000) as u32), times: *r.pick(&[1, 2, 10, 50]) }),
                _ => v.push(Fault { at: at(r, all_mask(), m), kind: Kind::Stall(r.range(1, 60) as u32), times: 1 }),
            },
            2 => {
                let mask = aim(r, p);
                let k = match r.below(4) {
                    0 => Kind::Kill,
                    1 => Kind::KillAfter,
                    _ => Kind::Torn(r.below(1000) as u32),
                };
                v.push(Fault { at: at(r, mask, m), kind: k, times: 1 });
            }
            3 => {
                if alone {
                    let mask = aim(r, p);
                    let s = r.u64();
                    let k = if r.pct(50) { Kind::Power(s) } else { Kind::PowerAfter(s) };
                    v.push(Fault { at: at(r, mask, m), kind: k, times: 1 });
                }
            }
            4 => {
                // something disappears or becomes unreadable before it is opened
                if !m.mos.is_empty() && alone && m.links.is_empty() {
                    let f = r.pick(&m.mos).clone();
                    let once = args.iter().filter(|a| !a.starts_with(b"-")).count() == 1;
                    let k = f.iter().rposition(|c| *c == b'/').unwrap_or(0);
                    let e = Ext::Remove(f.clone());
                    if once && r.pct(60) {
                        // just before its first open
                        v.push(Fault { at: At::Nth { mask: Cls::OpenR.bit(), suffix: f[k..].to_vec(), nth: 0 }, kind: Kind::Ext(e), times: 1 });
                    } else {
                        v.push(Fault { at: At::Nth { mask: (Cls::OpenDir.bit()) | Cls::Stat.bit(), suffix: vec![], nth: 0 }, kind: Kind::Ext(e), times: 1 });
                    }
                }
            }
            5 => free = Some(*r.pick(&[0i64, 1, 10, 60, 200, 500, 4000])),
            _ => alloc = r.range(1, 400) as i64,
        }
    }
    (v, alloc, free)
}

pub fn seed_of(property: &str, base: u64, i: u64) -> u64 {
    mix(hash_bytes(property.as_bytes()) ^ mix(base).rotate_left(17) ^ mix(i.wrapping_mul(0x9E37)))
}

pub fn scenario(property: &str, base: u64, i: u64) -> Scenario {
    let seed = seed_of(property, base, i);
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let p = Prof { forced: Some(i as usize).filter(|i| *i < 2 * FORCED).map(|i| i % FORCED), ..prof(property, r) };
    let m = tree(r, &p);
    let knobs = Knobs {
        fsync_journal: r.pct(50),
        dir_order: match r.below(4) {
            0 => 0,
            1 => 1,
            _ => 2 + r.u64() % 1000,
        },
        dtype_unknown: r.pct(20),
        latency: *r.pick(&[1000, 100_000, 10_000_000, 1_000_000_000]),
        pid_base: *r.pick(&[2, 100, 4321, 4_000_000]),
        pid_reuse: r.pct(20),
        pid_step: *r.pick(&[1i64, 1, 1, 1, 1, 0, 0, 16, 64, 256, 1000, 65_536]),
        clock: *r.pick(&[0i64, 1_000_000_000, 1_700_000_000_000_000_000, 4_102_444_800_000_000_000]),
        // enough for one descriptor per nested directory and some more
        max_fds: if r.pct(15) { m.dirs.len() as i64 + 16 } else { 400 },
        env: if r.pct(40) { 1 + r.below(1_000_000) as u64 } else { 0 },
        tmpfs: r.pct(30),
        umask: *r.pick(&[0o022, 0o022, 0o077, 0o002, 0, 0o777]),
        superuser: r.pct(6),
        plain: if (i as usize) < 2 * FORCED { i as usize >= FORCED } else { mix(seed ^ 0x706c6169) & 1 == 1 },
        max_io: if r.pct(p.chunks) { *r.pick(&[1u32, 7, 16, 64, 512, 4096]) } else { 0 },
    };
    let total: usize = m.items.iter().map(|i| if let Item::File { data, .. } = i { data.len() } else { 0 }).sum();
    // not more pieces than a large file can bear
    let least = if total > 20_000 { 512.max(total / 100) } else if total > 2000 { 16 } else { 1 };
    let knobs = Knobs { max_io: if knobs.max_io > 0 { knobs.max_io.max(least as u32) } else { 0 }, ..knobs };
    let mut steps = vec![];
    let n = r.range(p.steps.0, p.steps.1);
    for s in 0..n {
        if s > 0 && r.pct(p.between) {
            let f = if m.mos.is_empty() { b"/w/new.mo".to_vec() } else { r.pick(&m.mos).clone() };
            steps.push(match r.below(9) {
                0 | 1 => {
                    let (d, _) = content(r, &p);
                    StepSpec::Edit { path: f, data: d }
                }
                2 => StepSpec::Splice { path: f, seed: r.u64() },
                3 => {
                    if p.perms > 0 && !m.files.is_empty() {
                        StepSpec::Chmod { path: r.pick(&m.files).clone(), mode: *r.pick(&[0o444, 0o600, 0o000, 0o755]) }
                    } else {
                        StepSpec::Sync
                    }
                }
                4 => StepSpec::Remove { path: f },
                5 | 6 | 7 => StepSpec::Outage { seed: r.u64() },
                _ => StepSpec::Sync,
            });
        }
        if r.pct(p.together) {
            let k = if r.pct(70) { 2 } else { 3 };
            let mut procs = vec![];
            let mut killed = false;
            for _ in 0..k {
                let (args, cwd) = argv(r, &p, &m);
                let (mut fs, _, _) = faults(r, &p, &m, &args, false);
                for f in &fs {
                    killed |= matches!(f.kind, Kind::Kill | Kind::KillAfter | Kind::Torn(_));
                }
                if killed {
                    // at most one run of the group is killed
                    if procs.iter().any(|q: &ProcSpec| q.faults.iter().any(|f| matches!(f.kind, Kind::Kill | Kind::KillAfter | Kind::Torn(_)))) {
                        fs.retain(|f| !matches!(f.kind, Kind::Kill | Kind::KillAfter | Kind::Torn(_)));
                    }
                }
                procs.push(ProcSpec { args, cwd, alloc_fail: 0, faults: fs });
            }
            steps.push(StepSpec::Run { procs, free: None });
        } else {
            let (args, cwd) = argv(r, &p, &m);
            let (fs, alloc, free) = faults(r, &p, &m, &args, true);
            steps.push(StepSpec::Run { procs: vec![ProcSpec { args, cwd, alloc_fail: alloc, faults: fs }], free });
        }
    }
    if p.forced.is_some() {
        // whatever became of it, everything is looked at and formatted in the end
        for args in [vec![b"--check".to_vec(), b"/w".to_vec()], vec![b"/w".to_vec()]] {
            let procs = vec![ProcSpec { args, cwd: b"/".to_vec(), alloc_fail: 0, faults: vec![] }];
            steps.push(StepSpec::Run { procs, free: None });
        }
    }
    let sample_crashes = r.pct(p.samples);
    let settle = r.pct(p.settle);
    Scenario {
        property: property.into(),
        origin: format!("base seed {base}, run {i}, seed {seed:016x}"),
        knobs,
        world_seed: r.u64(),
        sample_crashes,
        settle,
        tree: m.items,
        steps,
    }
}
