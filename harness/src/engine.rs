//! A small property-based testing engine (choice-sequence based, like Hypothesis):
//! a property draws bounded choices from a `Gen`; a failure is shrunk by editing the recorded
//! choice sequence; the shrunk sequence is the replay file.

use crate::alloc;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ PRNG

#[derive(Clone)]
pub struct Rng(u64, u64);
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64, stream: u64, index: u64) -> Rng {
        let mut s = seed ^ stream.wrapping_mul(0xD1342543DE82EF95) ^ index.wrapping_mul(0xA24BAED4963EE407);
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a, b | 1)
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut s1 = self.0;
        let s0 = self.1;
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
}
pub fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

// ------------------------------------------------------------------ Gen

enum Src {
    Rng(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Gen {
    src: Src,
    pub trace: Vec<u64>,
    pub verbose: bool,
    pub notes: Vec<String>,
    labels: BTreeMap<&'static str, u64>,
    nontrivial: bool,
    rec: Option<std::fs::File>,
}

impl Gen {
    fn record(&mut self, v: u64) {
        alloc::exempt(|| {
            self.trace.push(v);
            if let Some(f) = &mut self.rec {
                f.write_all(&v.to_le_bytes()).unwrap();
            }
        });
    }
    fn new(src: Src, verbose: bool) -> Gen {
        Gen { src, trace: Vec::new(), verbose, notes: vec![], labels: BTreeMap::new(), nontrivial: false, rec: None }
    }
    /// A choice in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.src {
            Src::Rng(r) => ((r.next() as u128 * n as u128) >> 64) as u64,
            Src::Replay(v, i) => {
                let x = v.get(*i).copied().unwrap_or(0);
                *i += 1;
                x.min(n - 1)
            }
        };
        self.record(v);
        v
    }
    /// Any u64 (recorded as is).
    pub fn u64(&mut self) -> u64 {
        let v = match &mut self.src {
            Src::Rng(r) => r.next(),
            Src::Replay(v, i) => {
                let x = v.get(*i).copied().unwrap_or(0);
                *i += 1;
                x
            }
        };
        self.record(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// `lo..=hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// Weighted choice.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut x = self.below(total as u64) as u32;
        for (i, &w) in ws.iter().enumerate() {
            if x < w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    /// `n` bytes, costing two choices only (so that shrinking acts on structure).
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        let kind = self.below(8);
        let seed = self.below(1 << 32);
        let mut r = Rng::new(seed, 0x5EED, n as u64);
        (0..n)
            .map(|i| match kind {
                0 => (seed as u8).wrapping_add(i as u8),
                1 => 0,
                2 => 0xFF,
                3 => b"ab"[(r.next() & 1) as usize],
                _ => r.next() as u8,
            })
            .collect()
    }
    /// Interesting integers.
    pub fn int(&mut self) -> u64 {
        match self.below(4) {
            0 => self.below(16),
            1 => {
                let b = self.below(64);
                (1u64 << b).wrapping_sub(self.below(3))
            }
            2 => !self.below(16),
            _ => self.u64(),
        }
    }
    pub fn label(&mut self, l: &'static str) {
        alloc::exempt(|| *self.labels.entry(l).or_insert(0) += 1);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            alloc::exempt(|| {
                let s = f();
                eprintln!("  {s}");
                self.notes.push(s)
            });
        }
    }
}

/// Fails the current case, with a stable signature.
#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => {
        $crate::engine::fail_($sig, ::std::format!($($arg)*))
    };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { $crate::fail!($sig, $($arg)*) }
    };
}
#[macro_export]
macro_rules! check_eq {
    ($l:expr, $r:expr, $sig:expr) => {{
        match (&$l, &$r) { (l, r) => if !(*l == *r) {
            $crate::fail!($sig, "{} = {:?}, expected {} = {:?}", stringify!($l), l, stringify!($r), r)
        }}
    }};
}

pub struct Failure {
    pub sig: String,
    pub msg: String,
}
#[cold]
pub fn fail_(sig: &str, msg: String) -> ! {
    alloc::exempt(|| std::panic::panic_any(Failure { sig: sig.to_owned(), msg }))
}

// ------------------------------------------------------------------ Properties

pub struct Sub {
    pub name: &'static str,
    pub f: fn(&mut Gen),
    pub quick: u64,
    pub thorough: u64,
    /// Check that the case frees everything it allocates.
    pub leaks: bool,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        alloc::exempt(|| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = payload_str(info.payload());
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc)));
        })
    }));
}
fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(f) = p.downcast_ref::<Failure>() {
        f.msg.clone()
    } else {
        "<non-string panic payload>".into()
    }
}

/// Did `f` panic? (`Failure`s raised by the harness itself are propagated.)
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Failure>() {
                std::panic::resume_unwind(p)
            }
            drop(p);
            Err(())
        }
    }
}

pub struct Outcome {
    pub fail: Option<Failure>,
    pub trace: Vec<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub notes: Vec<String>,
}

fn run_once(sub: &Sub, src: Src, verbose: bool) -> Outcome {
    let mut g = Gen::new(src, verbose);
    g.trace.reserve(256);
    let live0 = alloc::live_tracked();
    let r = {
        let prev = alloc::set_tracking(true);
        let r = catch_unwind(AssertUnwindSafe(|| (sub.f)(&mut g)));
        alloc::set_tracking(prev);
        r
    };
    let mut fail = match r {
        Ok(()) => None,
        Err(p) => Some(match p.downcast::<Failure>() {
            Ok(f) => *f,
            Err(p) => {
                let (msg, loc) = LAST_PANIC
                    .with(|x| x.borrow_mut().take())
                    .unwrap_or((payload_str(&*p), String::new()));
                Failure { sig: "unexpected-panic".into(), msg: format!("unexpected panic at {loc}: {msg}") }
            }
        }),
    };
    alloc::check_quarantine(64);
    if fail.is_none() && sub.leaks {
        let live1 = alloc::live_tracked();
        if live1 != live0 {
            fail = Some(Failure {
                sig: "leak".into(),
                msg: format!("{} heap block(s) allocated by the case are still live after it", live1 - live0),
            });
        }
    }
    Outcome { fail, trace: g.trace, labels: g.labels, nontrivial: g.nontrivial, notes: g.notes }
}

fn run_case(sub: &Sub, mk: &dyn Fn() -> Src, verbose: bool) -> Outcome {
    let o = run_once(sub, mk(), verbose);
    // One-time lazy initialisations (of std or of the runtime) are not leaks:
    // a leak must reproduce.
    if matches!(&o.fail, Some(f) if f.sig == "leak") {
        let o2 = run_once(sub, mk(), false);
        if o2.fail.is_none() {
            return Outcome { fail: None, ..o };
        }
        return Outcome { fail: o2.fail, ..o };
    }
    o
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ------------------------------------------------------------------ CLI

fn opt(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

pub fn main(props: Vec<Prop>) {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => std::process::exit(cmd_run(&props, &args)),
        Some("shard") => std::process::exit(cmd_shard(&props, &args)),
        Some("replay") => std::process::exit(cmd_replay(&props, &args)),
        Some("shard-record") => {
            let p = find(&props, &args[2]);
            let s = p.subs.iter().find(|s| s.name == args[3]).unwrap();
            let stream = fnv(p.id) ^ fnv(s.name).rotate_left(17);
            let (seed, i) = (args[4].parse().unwrap(), args[5].parse().unwrap());
            install_hook();
            let mut g = Gen::new(Src::Rng(Rng::new(seed, stream, i)), false);
            g.rec = Some(std::fs::File::create(&args[6]).unwrap());
            alloc::set_tracking(true);
            let _ = catch_unwind(AssertUnwindSafe(|| (s.f)(&mut g)));
            alloc::set_tracking(false);
        }
        Some("list") => {
            for p in &props {
                for s in &p.subs {
                    println!("{} {} {} {}", p.id, s.name, s.quick, s.thorough);
                }
            }
        }
        _ => {
            eprintln!("usage: vh run ID --tier T --seed N --out FILE --work DIR | replay FILE");
            std::process::exit(2)
        }
    }
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(2)
    })
}

fn read_replay(path: &str) -> (String, String, Vec<u64>) {
    let s = std::fs::read_to_string(path).expect("replay file");
    let (mut id, mut sub, mut tr) = (String::new(), String::new(), vec![]);
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property: ") {
            id = x.into()
        } else if let Some(x) = l.strip_prefix("test: ") {
            sub = x.into()
        } else if let Some(x) = l.strip_prefix("choices:") {
            tr = x.split_whitespace().map(|t| t.parse().unwrap()).collect()
        }
    }
    (id, sub, tr)
}

/// Exit 0: passes; 1: fails (signature on stdout).
fn cmd_replay(props: &[Prop], args: &[String]) -> i32 {
    let (id, subname, tr) = read_replay(&args[2]);
    let quiet = args.iter().any(|a| a == "--quiet");
    let p = find(props, &id);
    let s = p.subs.iter().find(|s| s.name == subname).expect("test name");
    install_hook();
    let o = run_case(s, &|| Src::Replay(tr.clone(), 0), !quiet);
    match o.fail {
        None => {
            println!("PASS");
            0
        }
        Some(f) => {
            println!("SIG {}", f.sig);
            println!("MSG {}", f.msg.replace('\n', "\\n"));
            1
        }
    }
}

/// Runs cases index ≡ shard (mod nshards) of each test of the property.
fn cmd_shard(props: &[Prop], args: &[String]) -> i32 {
    let p = find(props, &args[2]);
    let thorough = opt(args, "--tier").unwrap() == "thorough";
    let seed: u64 = opt(args, "--seed").unwrap().parse().unwrap();
    let shard: u64 = opt(args, "--shard").unwrap().parse().unwrap();
    let n: u64 = opt(args, "--nshards").unwrap().parse().unwrap();
    let out = opt(args, "--out").unwrap();
    let known: HashSet<String> =
        opt(args, "--known").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.into()).collect();
    let start_sub: usize = opt(args, "--start-sub").unwrap_or("0".into()).parse().unwrap();
    let start_i: u64 = opt(args, "--start-i").unwrap_or(shard.to_string()).parse().unwrap();
    install_hook();
    let progress = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(format!("{out}.progress"))
        .unwrap();
    use std::os::unix::fs::FileExt;
    let mut evals = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut knowns: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut failure = None;
    'outer: for (si, s) in p.subs.iter().enumerate().skip(start_sub) {
        let total = if thorough { s.thorough } else { s.quick };
        let stream = fnv(p.id) ^ fnv(s.name).rotate_left(17);
        let mut nsamples = 0;
        let mut i = if si == start_sub { start_i } else { shard };
        while i < total {
            let mut rec = [0u8; 16];
            rec[..8].copy_from_slice(&(si as u64).to_le_bytes());
            rec[8..].copy_from_slice(&i.to_le_bytes());
            progress.write_all_at(&rec, 0).unwrap();
            let mk = || Src::Rng(Rng::new(seed, stream, i));
            let o = run_case(s, &mk, false);
            evals += 1;
            for (k, v) in &o.labels {
                *labels.entry(format!("{}/{}", s.name, k)).or_insert(0) += v;
            }
            if o.nontrivial {
                let mut h = fnv(s.name);
                for t in &o.trace {
                    h = (h ^ *t).wrapping_mul(0x100000001b3).rotate_left(23);
                }
                if hashes.insert(h) && shard == 0 && nsamples < 2 && o.fail.is_none() {
                    nsamples += 1;
                    // re-run verbosely, with stderr discarded by the caller
                    let v = run_case(s, &mk, true);
                    let mut t: Vec<String> = v.notes;
                    if t.len() > 14 {
                        let k = t.len();
                        t.truncate(14);
                        t.push(format!("… ({k} steps)"));
                    }
                    samples.push(format!("{} #{}: {}", s.name, i, t.join("; ")));
                }
            }
            if let Some(f) = o.fail {
                if known.contains(&f.sig) {
                    let e = knowns.entry(f.sig.clone()).or_insert((0, f.msg.clone()));
                    e.0 += 1;
                } else {
                    failure = Some((s.name, i, f, o.trace));
                    break 'outer;
                }
            }
            i += n;
        }
    }
    let mut j = String::from("{");
    write!(j, "\"evals\":{evals},").unwrap();
    write!(j, "\"labels\":{{{}}},", labels.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, "\"samples\":[{}],", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")).unwrap();
    write!(
        j,
        "\"known\":{{{}}},",
        knowns.iter().map(|(k, v)| format!("{}:{{\"count\":{},\"msg\":{}}}", json_str(k), v.0, json_str(&v.1))).collect::<Vec<_>>().join(",")
    )
    .unwrap();
    match &failure {
        Some((s, i, f, tr)) => write!(
            j,
            "\"failure\":{{\"test\":{},\"index\":{i},\"sig\":{},\"msg\":{},\"choices\":[{}]}}",
            json_str(s),
            json_str(&f.sig),
            json_str(&f.msg),
            tr.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(",")
        )
        .unwrap(),
        None => j.push_str("\"failure\":null"),
    }
    j.push('}');
    std::fs::write(&out, j).unwrap();
    let hb: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(format!("{out}.hashes"), hb).unwrap();
    if failure.is_some() {
        1
    } else {
        0
    }
}

struct Fail {
    test: String,
    index: u64,
    sig: String,
    msg: String,
    choices: Vec<u64>,
}

fn wait_timeout(c: &mut std::process::Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    let mut nap = 1;
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return Some(s);
        }
        if t0.elapsed() > d {
            c.kill().ok();
            c.wait().ok();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
    }
}

fn crash_sig(st: std::process::ExitStatus, stderr: &str) -> (String, String) {
    use std::os::unix::process::ExitStatusExt;
    if st.code() == Some(alloc::ALLOC_VIOLATION_EXIT) {
        let m = stderr.lines().rev().find(|l| l.starts_with("ALLOC-VIOLATION")).unwrap_or("").to_string();
        let sig = m.trim_start_matches("ALLOC-VIOLATION: ").replace(' ', "-");
        (format!("alloc:{sig}"), m)
    } else if let Some(s) = st.signal() {
        (format!("crash:signal-{s}"), format!("process killed by signal {s}: {}", stderr.lines().last().unwrap_or("")))
    } else {
        (format!("crash:exit-{:?}", st.code()), stderr.lines().last().unwrap_or("").to_string())
    }
}

/// Runs a choice sequence in a child process; Some((sig,msg)) if it fails.
fn probe(id: &str, test: &str, choices: &[u64], work: &str, hang: Duration) -> Option<(String, String)> {
    let path = format!("{work}/probe.replay");
    write_replay(&path, id, test, choices, "", "");
    let err = format!("{work}/probe.err");
    let outp = format!("{work}/probe.out");
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["replay", &path, "--quiet"])
        .stdout(std::fs::File::create(&outp).unwrap())
        .stderr(std::fs::File::create(&err).unwrap())
        .spawn()
        .unwrap();
    let st = match wait_timeout(&mut c, hang) {
        None => return Some(("hang".into(), format!("no result after {hang:?}"))),
        Some(s) => s,
    };
    if st.success() {
        return None;
    }
    let o = std::fs::read_to_string(&outp).unwrap_or_default();
    if st.code() == Some(1) && o.contains("SIG ") {
        let get = |k: &str| o.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
        return Some((get("SIG "), get("MSG ")));
    }
    Some(crash_sig(st, &std::fs::read_to_string(&err).unwrap_or_default()))
}

fn write_replay(path: &str, id: &str, test: &str, choices: &[u64], sig: &str, msg: &str) {
    let mut s = format!("property: {id}\ntest: {test}\n");
    if !sig.is_empty() {
        writeln!(s, "signature: {sig}\nmessage: {}", msg.replace('\n', "\\n")).unwrap();
    }
    s.push_str("choices:");
    for c in choices {
        write!(s, " {c}").unwrap();
    }
    s.push('\n');
    std::fs::write(path, s).unwrap();
}

fn shrink(id: &str, f: &mut Fail, work: &str, budget: usize, hang: Duration) -> usize {
    let t0 = Instant::now();
    let mut tries = 0;
    let mut cur = f.choices.clone();
    let sig = f.sig.clone();
    let mut best_msg = f.msg.clone();
    let attempt = |cand: &[u64], tries: &mut usize, best_msg: &mut String| -> bool {
        if *tries >= budget || t0.elapsed() > Duration::from_secs(60) {
            return false;
        }
        *tries += 1;
        match probe(id, &f.test, cand, work, hang) {
            Some((s, m)) if s == sig => {
                *best_msg = m;
                true
            }
            _ => false,
        }
    };
    loop {
        let before = cur.clone();
        // drop the tail
        let mut k = cur.len() / 2;
        while k > 0 {
            while cur.len() >= k {
                let cand = cur[..cur.len() - k].to_vec();
                if attempt(&cand, &mut tries, &mut best_msg) {
                    cur = cand
                } else {
                    break;
                }
            }
            k /= 2;
        }
        // delete spans
        let mut k = (cur.len() / 2).max(1);
        while k > 0 {
            let mut i = 0;
            while i + k <= cur.len() {
                let mut cand = cur.clone();
                cand.drain(i..i + k);
                if attempt(&cand, &mut tries, &mut best_msg) {
                    cur = cand
                } else {
                    i += k
                }
            }
            k /= 2;
        }
        // minimise values
        for i in 0..cur.len() {
            if cur[i] == 0 {
                continue;
            }
            let mut cand = cur.clone();
            cand[i] = 0;
            if attempt(&cand, &mut tries, &mut best_msg) {
                cur = cand;
                continue;
            }
            let (mut lo, mut hi) = (0u64, cur[i]);
            for _ in 0..12 {
                if hi - lo <= 1 {
                    break;
                }
                let mid = lo + (hi - lo) / 2;
                let mut cand = cur.clone();
                cand[i] = mid;
                if attempt(&cand, &mut tries, &mut best_msg) {
                    cur = cand;
                    hi = mid
                } else {
                    lo = mid
                }
            }
        }
        if cur == before || tries >= budget || t0.elapsed() > Duration::from_secs(60) {
            break;
        }
    }
    f.choices = cur;
    f.msg = best_msg;
    tries
}

/// exit 0: held; 1: violated; 2: the run itself failed.
fn cmd_run(props: &[Prop], args: &[String]) -> i32 {
    let id = args[2].clone();
    let p = find(props, &id);
    let tier = opt(args, "--tier").unwrap();
    let seed: u64 = opt(args, "--seed").unwrap().parse().unwrap();
    let out = opt(args, "--out").unwrap();
    let work = opt(args, "--work").unwrap();
    let replay_out = opt(args, "--replay-out").unwrap();
    let known = opt(args, "--known").unwrap_or_default();
    let knownset: HashSet<String> = known.split(',').filter(|s| !s.is_empty()).map(|s| s.into()).collect();
    let n: u64 = opt(args, "--nshards").unwrap_or("8".into()).parse().unwrap();
    let case_hang = Duration::from_secs(opt(args, "--case-hang").unwrap_or("60".into()).parse().unwrap());
    std::fs::create_dir_all(&work).unwrap();
    let spawn = |sh: u64, gen: usize, start: Option<(u64, u64)>| {
        let o = format!("{work}/shard{sh}.{gen}.json");
        let _ = std::fs::remove_file(&o);
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(["shard", &id, "--tier", &tier, "--seed", &seed.to_string()])
            .args(["--shard", &sh.to_string(), "--nshards", &n.to_string(), "--out", &o, "--known", &known]);
        if let Some((s, i)) = start {
            c.args(["--start-sub", &s.to_string(), "--start-i", &i.to_string()]);
        }
        c.stdout(Stdio::null()).stderr(std::fs::File::create(format!("{o}.err")).unwrap());
        (c.spawn().unwrap(), o)
    };
    let mut running: Vec<(u64, usize, std::process::Child, String, (u64, Instant))> = (0..n)
        .map(|s| {
            let (c, o) = spawn(s, 0, None);
            (s, 0, c, o, (u64::MAX, Instant::now()))
        })
        .collect();
    let mut outs: Vec<String> = vec![];
    let mut fails: Vec<Fail> = vec![];
    let mut known_crashes: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut errors: Vec<String> = vec![];
    let read_progress = |o: &str| -> Option<(u64, u64)> {
        let b = std::fs::read(format!("{o}.progress")).ok()?;
        if b.len() < 16 {
            return None;
        }
        Some((u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..16].try_into().unwrap())))
    };
    let mut first_fail: Option<Instant> = None;
    while !running.is_empty() {
        // once something failed, the other shards get a short while to fail at an earlier test
        if first_fail.map_or(false, |t| t.elapsed() > Duration::from_secs(10)) {
            for (_, _, c, _, _) in &mut running {
                c.kill().ok();
                c.wait().ok();
            }
            break;
        }
        let mut i = 0;
        while i < running.len() {
            let (sh, gen, c, o, last) = &mut running[i];
            let mut dead = None;
            let mut hung = false;
            if let Some(st) = c.try_wait().unwrap() {
                dead = Some(st);
            } else {
                let pr = read_progress(o).map_or(0, |(s, i)| s << 48 | i);
                if pr != last.0 {
                    *last = (pr, Instant::now());
                } else if last.1.elapsed() > case_hang {
                    c.kill().ok();
                    c.wait().ok();
                    hung = true;
                }
            }
            if dead.is_none() && !hung {
                i += 1;
                continue;
            }
            let (sh, gen, o) = (*sh, *gen, o.clone());
            running.remove(i);
            if let Some(st) = dead {
                if st.code() == Some(0) || st.code() == Some(1) {
                    if st.code() == Some(1) {
                        first_fail.get_or_insert_with(Instant::now);
                    }
                    outs.push(o);
                    continue;
                }
            }
            // crashed or hung
            let Some((si, ci)) = read_progress(&o) else {
                errors.push(format!("shard {sh} died before its first case: {dead:?}"));
                continue;
            };
            let s = &p.subs[si as usize];
            let stderr = std::fs::read_to_string(format!("{o}.err")).unwrap_or_default();
            let (sig, msg) = match dead {
                Some(st) => crash_sig(st, &stderr),
                None => ("hang".to_string(), format!("no result after {case_hang:?}")),
            };
            if knownset.contains(&sig) {
                known_crashes.entry(sig).or_insert((0, msg)).0 += 1;
                let (c, o) = spawn(sh, gen + 1, Some((si, ci + n)));
                running.push((sh, gen + 1, c, o, (u64::MAX, Instant::now())));
                continue;
            }
            first_fail.get_or_insert_with(Instant::now);
            fails.push(Fail {
                test: s.name.into(),
                index: ci,
                sig,
                msg,
                choices: vec![], // recorded below
            });
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    // merge
    let mut evals = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut knowns = known_crashes;
    for o in &outs {
        let Ok(j) = std::fs::read_to_string(o) else {
            errors.push(format!("no output {o}"));
            continue;
        };
        let v = crate::json::parse(&j);
        evals += v["evals"].num() as u64;
        for (k, x) in v["labels"].obj() {
            *labels.entry(k.clone()).or_insert(0) += x.num() as u64;
        }
        for s in v["samples"].arr() {
            samples.push(s.str().into());
        }
        for (k, x) in v["known"].obj() {
            knowns.entry(k.clone()).or_insert((0, x["msg"].str().into())).0 += x["count"].num() as u64;
        }
        if let crate::json::V::Obj(_) = &v["failure"] {
            let f = &v["failure"];
            fails.push(Fail {
                test: f["test"].str().into(),
                index: f["index"].num() as u64,
                sig: f["sig"].str().into(),
                msg: f["msg"].str().into(),
                choices: f["choices"].arr().iter().map(|x| x.raw_u64()).collect(),
            });
        }
        if let Ok(b) = std::fs::read(format!("{o}.hashes")) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let mut code = 0;
    let mut viol = String::from("null");
    if !fails.is_empty() {
        code = 1;
        let order: Vec<&str> = p.subs.iter().map(|s| s.name).collect();
        fails.sort_by_key(|f| (order.iter().position(|o| *o == f.test), f.index));
        let mut f = fails.swap_remove(0);
        if f.sig.starts_with("crash:") || f.sig.starts_with("alloc:") || f.sig == "hang" {
            f.choices = record_crashing(&id, &f, seed, &work, case_hang);
        }
        let budget = 600;
        let mut hang = case_hang;
        if f.sig == "hang" {
            hang = Duration::from_secs(10).min(case_hang);
        }
        let tries = if f.sig == "hang" { 0 } else { shrink(&id, &mut f, &work, budget, hang) };
        write_replay(&replay_out, &id, &f.test, &f.choices, &f.sig, &f.msg);
        eprintln!("violation in test {} (case {}), signature {}", f.test, f.index, f.sig);
        eprintln!("  {}", f.msg);
        eprintln!("  shrunk to {} choices in {} executions: {}", f.choices.len(), tries, replay_out);
        viol = format!(
            "{{\"test\":{},\"sig\":{},\"msg\":{},\"replay\":{}}}",
            json_str(&f.test),
            json_str(&f.sig),
            json_str(&f.msg),
            json_str(&replay_out)
        );
    } else if !errors.is_empty() {
        code = 2;
        for e in &errors {
            eprintln!("error: {e}");
        }
    }
    let mut j = String::from("{");
    write!(j, "\"property\":{},\"rule\":{},", json_str(&id), json_str(p.rule)).unwrap();
    write!(j, "\"evaluations\":{evals},\"distinct_nontrivial\":{},", hashes.len()).unwrap();
    write!(j, "\"labels\":{{{}}},", labels.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, "\"samples\":[{}],", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")).unwrap();
    write!(
        j,
        "\"known\":{{{}}},",
        knowns.iter().map(|(k, v)| format!("{}:{{\"count\":{},\"msg\":{}}}", json_str(k), v.0, json_str(&v.1))).collect::<Vec<_>>().join(",")
    )
    .unwrap();
    write!(j, "\"violation\":{viol}}}").unwrap();
    std::fs::write(&out, j).unwrap();
    let _ = std::io::stderr().flush();
    code
}

/// For a crashing case: re-runs it in a child that appends every choice to a file as it is drawn.
fn record_crashing(id: &str, f: &Fail, seed: u64, work: &str, hang: Duration) -> Vec<u64> {
    let path = format!("{work}/record.bin");
    let _ = std::fs::remove_file(&path);
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["shard-record", id, &f.test, &seed.to_string(), &f.index.to_string(), &path])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    wait_timeout(&mut c, hang);
    std::fs::read(&path)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}
