"""E02: a panic never leaves an exported function.

Programs with exported functions of generated shapes; each runs generated scenarios (trees of panics, catches, nested
exports, callbacks, threads, armed drops), every one in a process of its own, against a recursive model."""
import json, os, random, re, shutil
from common import CheckError, V
import progbuild

RULE = ("evaluation = one scenario: a child process in which C++ code calls an exported function whose body interprets a generated tree of panics, catches, nested calls, "
        "callbacks, threads and armed drops. Non-trivial and distinct = a distinct tree shape whose model outcome involves at least one panic")

PRELUDE = r'''#![allow(warnings)]
use progrt::safer_ffi;
use safer_ffi::{prelude::*, closure::*, closure::boxed::*};
use progrt::Facts;
progrt::exports!();
use std::cell::RefCell;
thread_local! { static NEXT: RefCell<String> = RefCell::new(String::new()); }
#[no_mangle] pub unsafe extern "C" fn vh_plan(p: *const std::os::raw::c_char) { plan(std::ffi::CStr::from_ptr(p).to_str().unwrap()) }
#[no_mangle] pub extern "C" fn vh_never() { }
fn plan(s: &str) { NEXT.with(|n| *n.borrow_mut() = s.to_owned()) }
fn take() -> String { NEXT.with(|n| std::mem::take(&mut *n.borrow_mut())) }
fn say(s: &str) { use std::io::Write; let o = std::io::stdout(); let mut o = o.lock(); let _ = writeln!(o, "{s}"); let _ = o.flush(); }
/// A frame that must never be unwound.
struct Mark; impl Drop for Mark { fn drop(&mut self) { if std::thread::panicking() { say("CLEANUP rust") } } }
#[derive_ReprC] #[repr(C)] pub struct Bomb { armed: u8 }
impl Drop for Bomb { fn drop(&mut self) { if self.armed != 0 && !std::thread::panicking() { panic!("the argument's drop") } } }
fn bomb(a: u8) -> Bomb { Bomb { armed: a } }
#[derive_ReprC] #[repr(C)] pub struct Big { words: [u64; 9] }
struct Wicked; impl Drop for Wicked { fn drop(&mut self) { say("PAYLOAD DROPPED"); } }
fn boom(k: u32) {
    match k {
        0 => panic!("a literal"),
        1 => panic!("formatted {k} with \n newlines of `other()`"),
        2 => std::panic::panic_any(Box::new(7u64)),
        3 => std::panic::panic_any(()),
        4 => std::panic::resume_unwind(Box::new("resumed")),
        5 => { let v: Vec<u8> = vec![]; let i = v.len(); std::hint::black_box(v[i]); }
        6 => { let z = std::hint::black_box(0u8); std::hint::black_box(1 / z); }
        7 => { std::hint::black_box(None::<u8>).unwrap(); }
        8 => { let c = RefCell::new(0); let _a = c.borrow_mut(); let _b = c.borrow_mut(); }
        9 => std::panic::panic_any(Wicked),
        10 => assert_eq!(std::hint::black_box(1), 2),
        11 => std::panic::resume_unwind(Box::new(Wicked)),
        12 => unreachable!(),
        13 => { let s = std::hint::black_box("ñ"); &s[1..]; }
        14 => { Err::<(), _>(std::fmt::Error).expect("expectation"); }
        _ => { let _s: Box<str> = panic!(""); }
    }
    unreachable!()
}
/// The text within braces that starts at `p[0]`, and what follows
fn braces(p: &str) -> (&str, &str) {
    let mut d = 0;
    for (i, c) in p.bytes().enumerate() {
        match c { b'{' => d += 1, b'}' => { d -= 1; if d == 0 { return (&p[1..i], &p[i + 1..]) } } _ => {} }
    }
    panic!("harness: braces {p}")
}
extern "C" fn callback(x: u32) -> u32 { let p = take(); interp(&p, None); x + 1 }
type Cb = extern "C" fn(u32) -> u32;
fn interp(mut p: &str, cb: Option<Cb>) {
    while let Some(c) = p.chars().next() {
        let rest = &p[1..];
        match c {
            'P' | 'N' | 'R' => {
                let e = rest.find('.').unwrap();
                let k: u32 = rest[..e].parse().unwrap();
                p = &rest[e + 1..];
                if c == 'P' { boom(k) } else {
                    let armed = p.starts_with('!') as u8;
                    let (b, r) = braces(&p[armed as usize..]);
                    p = r;
                    let _m = if c == 'N' { Some(Mark) } else { None };
                    plan(b);
                    if c == 'N' { by_symbol(k, armed) } else { by_path(k, armed) }
                }
            }
            'H' => { std::panic::set_hook(Box::new(|_| {})); p = rest }
            'O' => { let _ = std::panic::take_hook(); p = rest }
            'S' => { std::hint::black_box(vec![1u8; 10]); p = rest }
            _ => {
                let (b, r) = braces(rest);
                p = r;
                match c {
                    'C' => if let Err(e) = std::panic::catch_unwind(|| interp(b, cb)) { std::mem::forget(e) },
                    'B' => { plan(b); let f = cb.unwrap_or(callback); f(1); }
                    'K' => { let b = b.to_owned(); let mut f: BoxDynFnMut0<()> = Box::new(move || interp(&b, None)).into(); f.call(); }
                    'A' => { let b = b.to_owned(); let f: ArcDynFn1<u8, u8> = std::sync::Arc::new(move |x: u8| { interp(&b, None); x }).into(); f.call(3); }
                    'T' => { let b = b.to_owned(); if let Err(e) = std::thread::spawn(move || interp(&b, None)).join() { std::mem::forget(e) } }
                    'J' => { let b = b.to_owned(); std::thread::spawn(move || interp(&b, None)).join().unwrap(); }
                    'D' => { let _b = bomb(1); interp(b, cb); }
                    'E' => { let v: repr_c::Vec<Bomb> = vec![bomb(0), bomb(1), bomb(1)].into(); interp(b, cb); drop(v); }
                    'I' => { b.chars().filter(|c| *c == 'x').map(|_| interp(&b[1..], None)).count(); }
                    _ => panic!("harness: op {c}"),
                }
            }
        }
    }
}
fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::*;
    struct W; impl Wake for W { fn wake(self: std::sync::Arc<W>) {} }
    let w = Waker::from(std::sync::Arc::new(W));
    let mut f = Box::pin(f);
    loop { if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) { return r } }
}
struct Yield(u32); impl std::future::Future for Yield { type Output = ();
  fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> { if self.0 == 0 { std::task::Poll::Ready(()) } else { self.0 -= 1; std::task::Poll::Pending } } }
fn __facts(f: &mut Facts) {}
static LENT: u32 = 41;
'''

# kind -> (Rust type, expression for an argument, can be armed)
ARGS = {
    "u8": ("u8", "7", 0), "i64": ("i64", "-3", 0), "f64": ("f64", "1.5", 0), "bool": ("bool", "true", 0), "usize": ("usize", "9", 0),
    "bomb": ("Bomb", "bomb(a)", 1), "box": ("repr_c::Box<Bomb>", "Box::new(bomb(a)).into()", 1),
    "optbox": ("Option<repr_c::Box<Bomb>>", "Some(Box::new(bomb(a)).into())", 1),
    "vec": ("repr_c::Vec<Bomb>", "vec![bomb(0), bomb(a), bomb(0)].into()", 1),
    "slice": ("c_slice::Box<Bomb>", "vec![bomb(a), bomb(a)].into_boxed_slice().into()", 1),
    "opt": ("repr_c::TaggedOption<Bomb>", "Some(bomb(a)).into()", 1),
    "ref": ("&LT u32", "&LENT", 0), "optref": ("Option<&LT u32>", "None", 0), "str": ("str::Ref<LT>", "\"borrowed\".into()", 0), "big": ("Big", "Big { words: [u64::MAX; 9] }", 0),
    "clo": ("BoxDynFnMut0<()>", "{ let b = bomb(a); Box::new(move || { std::hint::black_box(&b); }).into() }", 1),
    "arc": ("ArcDynFn1<u8, u8>", "{ let b = SendBomb(bomb(a)); std::sync::Arc::new(move |x: u8| { std::hint::black_box(&b); x }).into() }", 1),
    "cb": ("Cb", "callback", 0),
    "tup": ("safer_ffi::Tuple2<Bomb, u16>", "safer_ffi::Tuple2 { _0: bomb(a), _1: 3 }", 1),
}
RETS = {"()": ("", "", "true"), "u8": ("u8", "0xa5", "r == 0xa5"), "f64": ("f64", "2.25", "r == 2.25"), "i64": ("i64", "-77", "r == -77"), "bool": ("bool", "true", "r"),
        "big": ("Big", "Big { words: [0x0123456789abcdef; 9] }", "r.words.idx[0] == 0x0123456789abcdef && r.words.idx[8] == 0x0123456789abcdef"),
        "box": ("repr_c::Box<u32>", "Box::new(99).into()", "r && *r == 99"), "optnone": ("Option<repr_c::Box<u32>>", "None", "!r"),
        "vec": ("repr_c::Vec<u8>", "vec![1, 2, 3].into()", "r.len == 3 && r.ptr[2] == 3")}
RAW = ["become", "box", "yield", "priv", "override"]


def gen_fns(rnd):
    out = []
    for k in range(rnd.randint(10, 16)):
        async_ = rnd.random() < 0.2
        args = [[rnd.choice(["a", "mut b", "_c", "ref d", "r#type", "_", "(e)", "f"]), rnd.choice(list(ARGS))] for _ in range(rnd.choice([0, 1, 1, 2, 3, 5, 8]))]
        name = f"exp_{k}_{rnd.choice(['open', 'x', 'Close', '__', 'ü'[:0] + 'z9'])}"
        if rnd.random() < 0.12:
            name = RAW[k % 5]
            if name in [f["name"] for f in out]:
                name = f"exp_{k}"
        out.append(dict(name=name, rename=f"Renamed_{k}_{rnd.choice('abc')}" if rnd.random() < 0.25 else None, args=args, ret=rnd.choice(list(RETS)),
                        async_=rnd.choice(["prelude", "future", "polled"]) if async_ else None, abi=rnd.choice(["", "", 'extern "C" ']), unsafe=(not async_) and rnd.random() < 0.2,
                        pub=rnd.random() < 0.5, early=rnd.random() < 0.3, lt=rnd.random() < 0.5))
    return out


def symbol(f):
    return f["rename"] or f["name"]


def armable(f):
    return any(ARGS[a[1]][2] for a in f["args"])


def source(fns):
    o = [PRELUDE, "struct SendBomb(Bomb); unsafe impl Sync for SendBomb {}\n"]
    sym, path = [], []
    for k, f in enumerate(fns):
        params, has_lt = [], False
        cbv = "None"
        for n, (pat, kind) in enumerate(f["args"]):
            t = ARGS[kind][0]
            if "LT" in t:
                has_lt = True
                if f["lt"]:
                    t = t.replace("LT", "'lt")
                else:
                    t = t.replace("&LT", "&'_").replace("LT", "'_")
            name = pat if pat in ("_", ) else (pat + str(n) if not pat.startswith(("r#", "(")) else (f"{pat}{n}" if pat.startswith("r#") else f"(e{n})"))
            if kind == "cb":
                name = f"cb{n}"
                cbv = f"Some(cb{n})"
            params.append(f"{name}: {t}")
        rt, rv, _ = RETS[f["ret"]]
        raw = "r#" if f["name"] in RAW else ""
        attr = []
        if f["async_"]:
            attr.append("executor = block_on")
        if f["rename"]:
            attr.append(f'rename = "{f["rename"]}"')
        lt = "<'lt>" if f["lt"] and has_lt else ""
        head = f"#[ffi_export{'(' + ', '.join(attr) + ')' if attr else ''}]\n{'pub ' if f['pub'] else ''}{'async ' if f['async_'] else ''}{'unsafe ' if f['unsafe'] else ''}{f['abi'] if not f['async_'] else ''}fn {raw}{f['name']}{lt}({', '.join(params)})" + (f" -> {rt}" if rt else "")
        if f["async_"] == "prelude":
            body = f"let p = take(); let cb: Option<Cb> = {cbv}; interp(&p, cb); ffi_await!(async move {{ Yield(2).await; {rv} }})"
        elif f["async_"]:
            body = f"let p = take(); let cb: Option<Cb> = {cbv}; ffi_await!(async move {{ Yield({'3' if f['async_'] == 'polled' else '0'}).await; interp(&p, cb); Yield(1).await; {rv} }})"
        elif f["early"]:
            body = f"let p = take(); if p.len() > 0 {{ interp(&p, {cbv}); return {rv}; }} {rv}"
        else:
            body = f"let p = take(); interp(&p, {cbv}); {rv}"
        o.append(head + " { " + body + " }\n")
        args = ", ".join(ARGS[kind][1] for _, kind in f["args"])
        path.append(f"{k} => {{ {'unsafe ' if f['unsafe'] else ''}{{ {raw}{f['name']}({args}); }} }}")
        ps = ", ".join(f"_: <{ARGS[kind][0].replace('&LT', chr(38) + chr(39) + 'static').replace('LT', chr(39) + 'static')} as safer_ffi::layout::ReprC>::CLayout" for _, kind in f["args"])
        rr = f"<{rt or '()'} as safer_ffi::layout::ReprC>::CLayout"
        sym.append(f'{k} => {{ extern "C" {{ #[link_name = "{symbol(f)}"] fn imported({ps}) -> {rr}; }} '
                   + "".join(f"let x{n}: {ARGS[kind][0].replace('&LT', chr(38) + chr(39) + 'static').replace('LT', chr(39) + 'static')} = {ARGS[kind][1]}; " for n, (_, kind) in enumerate(f["args"]))
                   + f"unsafe {{ imported({', '.join(f'safer_ffi::layout::into_raw(x{n})' for n in range(len(f['args'])))}); }} }}")
    o.append("fn by_path(k: u32, a: u8) { match k { " + "\n".join(path) + " _ => panic!(\"harness\") } }\n")
    o.append("fn by_symbol(k: u32, a: u8) { match k { " + "\n".join(sym) + " _ => panic!(\"harness\") } }\n")
    # constructors of arguments for the C++ caller
    for n, (kind, (t, e, _)) in enumerate(ARGS.items()):
        t = t.replace("&LT", "&'static").replace("LT", "'static")
        o.append(f"#[ffi_export] fn mk_{kind}(a: u8) -> {t} {{ {e} }}\n")
    return "".join(o)


def driver(fns):
    o = ['#include "header.h"\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <string>\n#include <unistd.h>\n#include <sys/wait.h>\n#include <sys/resource.h>\n'
         'extern "C" void vh_plan(const char *);\n'
         'static void say(const char *s) { fputs(s, stdout); fputc(10, stdout); fflush(stdout); }\n'
         'struct Frame { bool armed = true; ~Frame() { if (armed) say("CLEANUP c++"); } };\n'
         'static bool call(int k, unsigned char a) {\n  switch (k) {\n']
    for k, f in enumerate(fns):
        args = ", ".join(f"mk_{kind}(a)" for _, kind in f["args"])
        cond = RETS[f["ret"]][2]
        if f["ret"] == "()":
            o.append(f"    case {k}: {symbol(f)}({args}); say(\"RETURNED\"); return true;\n")
        else:
            o.append(f"    case {k}: {{ auto r = {symbol(f)}({args}); say(\"RETURNED\"); return {cond}; }}\n")
    o.append(r'''  }
  return false;
}
int main() {
  struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z);
  static char line[1 << 20];
  while (fgets(line, sizeof line, stdin)) {
    int k, a, n = 0, mode;
    sscanf(line, "%d %d %d %n", &k, &a, &mode, &n);
    char *p = line + n; p[strcspn(p, "\n")] = 0;
    int fd[2]; if (pipe(fd)) return 3;
    pid_t c = fork();
    if (!c) {
      dup2(fd[1], 1); dup2(fd[1], 2); close(fd[0]); close(fd[1]);
      if (mode == 1) close(2);
      alarm(60);
      vh_plan(p);
      bool ok;
      if (mode == 2) { Frame f; ok = call(k, a); f.armed = false; }
      else { Frame f; try { ok = call(k, a); } catch (...) { say("UNWOUND"); f.armed = false; _exit(4); } f.armed = false; }
      say(ok ? "VALUE right" : "VALUE wrong");
      _exit(0);
    }
    close(fd[1]);
    std::string s; char buf[4096]; ssize_t m;
    while ((m = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, m);
    close(fd[0]);
    int st; waitpid(c, &st, 0);
    printf("%d %d %zu\n", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : -1, s.size());
    fwrite(s.data(), 1, s.size(), stdout); putchar(10); fflush(stdout);
  }
}
''')
    return "".join(o)


# ---------------------------------------------------------------- scenarios: lists of [op, number, armed, children]
WITH_BODY = "CBKATJDEI"


def gen_ops(r, fns, d, n=None):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3]) if n is None else n):
        x = r.random()
        if d <= 0 or x < 0.22:
            out.append(["P", r.randrange(16), 0, []] if r.random() < 0.6 else [r.choice("SSHO"), 0, 0, []])
        elif x < 0.55:
            k = r.randrange(len(fns))
            out.append([r.choice("NNR"), k, int(armable(fns[k]) and r.random() < 0.3), gen_ops(r, fns, d - 1)])
        elif x < 0.72:
            out.append(["C", 0, 0, gen_ops(r, fns, d - 1)])
        else:
            out.append([r.choice(WITH_BODY), 0, 0, gen_ops(r, fns, d - 1)])
    return out


def text(ops):
    o = ""
    for op, k, a, b in ops:
        if op in "NR":
            o += f"{op}{k}.{'!' if a else ''}{{{text(b)}}}"
        elif op == "P":
            o += f"P{k}."
        elif op == "I":
            o += "I{x" + text(b) + "}"
        elif op in WITH_BODY:
            o += op + "{" + text(b) + "}"
        else:
            o += op
    return o


class Abort(Exception):
    pass


def model(ops, fns):
    """-> whether it panics; raises Abort(symbol)"""
    for op, k, a, b in ops:
        if op == "P":
            return True
        if op in "NR":
            p = model(b, fns) or bool(a)
            if p and op == "N":
                raise Abort(symbol(fns[k]))
            if p:
                return True
        elif op in WITH_BODY:
            p = model(b, fns)
            if op in "DE":
                p = True
            if op not in "CT" and p:
                return True
    return False


def expected(k, a, ops, fns):
    try:
        if model(ops, fns) or a:
            return symbol(fns[k])
        return None
    except Abort as e:
        return e.args[0]


def judge(fns, case, res):
    k, a, mode, ops = case
    sig, code, out = res
    want = expected(k, a, ops, fns)
    where = f"{symbol(fns[k])} running {text(ops) or 'nothing'}{' with an armed argument' if a else ''}"
    if "harness:" in out:
        raise CheckError(out[-800:])
    lines = out.splitlines()
    for m in ("UNWOUND", "CLEANUP c++", "CLEANUP rust"):
        if m in lines:
            return f"{where}: the panic unwound out of the exported function ({m})"
    if want is None:
        if (sig, code) != (0, 0) or "RETURNED" not in lines or "VALUE right" not in lines:
            return f"{where}: should return normally; signal {sig}, exit {code}, output {out[-400:]!r}"
        return None
    if "RETURNED" in lines:
        return f"{where}: should abort, but returned to C"
    if sig != 6:
        return f"{where}: should abort; signal {sig}, exit {code}, output {out[-400:]!r}"
    # In mode 2 no caller has a handler: the unwinder may find that out before it runs the guard, and the runtime aborts by itself.
    if mode == 0 and not re.search(r"(?<![A-Za-z0-9_])" + re.escape(want) + r"(?![A-Za-z0-9_])", out):
        return f"{where}: aborts without naming {want}: {out[-400:]!r}"
    return None


class World:
    """One built program."""

    def __init__(self, tc, fns, profile, d):
        self.tc, self.fns, self.d = tc, fns, d
        if os.path.isdir(d):
            shutil.rmtree(d)
        so, msg = tc.rustc(source(fns), d, profile)
        if so is None:
            errs = [l for l in msg.splitlines() if l.startswith("error")]
            raise Bad("does-not-compile", "rustc rejects the program: " + " | ".join(errs[:4])[:800] + msg[:1500])
        ok, msg = tc.headers(so, d)
        if not ok:
            raise Bad("generation", msg[-600:])
        with open(os.path.join(d, "driver.cpp"), "w") as f:
            f.write(driver(fns))
        self.exe = os.path.join(d, "driver")
        r = tc.ctx.run(["g++", "-O1", "-w", "-std=c++17", "-I", d, os.path.join(d, "driver.cpp"), "-o", self.exe, so, "-Wl,-rpath," + d], check=False, timeout=200)
        if r.returncode:
            raise Bad("c-compile", "a C++ program that uses the header does not compile: " + r.err[:800])

    def run(self, cases):
        inp = "".join(f"{k} {a} {mode} {text(ops)}\n" for k, a, mode, ops in cases).encode()
        r = self.tc.ctx.run([self.exe], check=False, timeout=800, stdin=inp, env=dict(RUST_BACKTRACE="0"), cwd=self.d)
        b, out = r.stdout, []
        while b:
            h, b = b.split(b"\n", 1)
            sig, code, n = map(int, h.split())
            out.append((sig, code, b[:n].decode("utf-8", "replace")))
            b = b[n + 1:]
        if len(out) != len(cases):
            raise CheckError(f"the driver stopped: {r.returncode} {r.err[-500:]}")
        return out


class Bad(Exception):
    pass


def smaller(case):
    k, a, mode, ops = case
    if a:
        yield k, 0, mode, ops
    if mode:
        yield k, a, 0, ops

    def lists(ops):
        for i, (op, n, ar, b) in enumerate(ops):
            yield ops[:i] + ops[i + 1:]
            if b:
                yield ops[:i] + b + ops[i + 1:]
            if ar:
                yield ops[:i] + [[op, n, 0, b]] + ops[i + 1:]
            if op == "P" and n:
                yield ops[:i] + [[op, 0, ar, b]] + ops[i + 1:]
            for b2 in lists(b):
                yield ops[:i] + [[op, n, ar, b2]] + ops[i + 1:]
    for o in lists(ops):
        yield k, a, mode, o


def check(ctx):
    tc = progbuild.Toolchain(ctx)
    for p in ("debug", "release"):
        tc.lib(p)
    nprog, per = (60, 2500) if ctx.thorough else (14, 500)
    out = dict(evaluations=0, rule=RULE, samples=[], labels={}, known={}, violations=[], assumptions=[])
    lab = out["labels"]
    keys = set()

    def go(n):
        rnd = random.Random(f"e02-{ctx.seed}-{n}")
        fns = gen_fns(rnd)
        profile = "release" if n % 2 else "debug"
        d = os.path.join(ctx.work, f"w{n}")
        try:
            w = World(tc, fns, profile, d)
        except Bad as e:
            return fns, profile, None, e.args, []
        cases = []
        for c in range(per):
            k = c % len(fns)
            a = int(armable(fns[k]) and rnd.random() < 0.25)
            cases.append((k, a, rnd.choice([0, 0, 0, 1, 2]), gen_ops(rnd, fns, rnd.choice([1, 2, 3, 4]), None if rnd.random() < 0.7 else 1)))
        rs = w.run(cases)
        for c, r in zip(cases, rs):
            m = judge(fns, c, r)
            if m:
                return fns, profile, w, ("panic", m, c), cases
        shutil.rmtree(d, ignore_errors=True)
        return fns, profile, w, None, cases
    rs = progbuild.parallel(go, list(range(nprog)), until=lambda r: r[3] is not None and r[3][0] != "does-not-compile")
    if rs and all(r[3] and r[3][0] == "does-not-compile" for r in rs):
        raise CheckError("no generated program compiles: " + rs[0][3][1])
    for fns, profile, w, f, cases in rs:
        if f and not out["violations"]:
            rp = os.path.join(ctx.replays, f"{ctx.pid}-{ctx.seed}.json")
            msg, case = f[1], None
            if len(f) > 2:
                case, again = f[2], True
                while again:
                    again = False
                    cand = list(smaller(case))
                    for c, r in zip(cand, w.run(cand) if cand else []):
                        m = judge(fns, c, r)
                        if m:
                            case, msg, again = c, m, True
                            break
            with open(rp, "w") as fo:
                json.dump(dict(property=ctx.pid, message=msg, profile=profile, fns=fns, case=case, plan=case and text(case[3])), fo, indent=1)
            out["violations"].append(dict(sig=f[0], msg=f"[{profile} build] {msg}", replay=rp))
        out["evaluations"] += len(cases)
        for k, a, mode, ops in cases:
            want = expected(k, a, ops, fns)
            t = text(ops)
            if want is not None or "P" in t or "D" in t or "E" in t:
                keys.add((re.sub(r"[0-9]+", "", t), a, fns[k]["ret"], bool(fns[k]["async_"])))
            l = "returns" if want is None else ("aborts in the called function" if want == symbol(fns[k]) else "aborts in a nested export")
            lab[l] = lab.get(l, 0) + 1
            if fns[k]["async_"]:
                lab["async export"] = lab.get("async export", 0) + 1
            if want is None and ("P" in t or "D" in t):
                lab["a caught panic"] = lab.get("a caught panic", 0) + 1
            if want is not None and a:
                lab["armed argument"] = lab.get("armed argument", 0) + 1
        if cases and len(out["samples"]) < 12:
            c = max(cases, key=lambda c: len(text(c[3])) if len(text(c[3])) < 120 else 0)
            out["samples"].append(f"[{profile}] {symbol(fns[c[0]])}({', '.join(k for _, k in fns[c[0]]['args'])}): {text(c[3])} -> {'aborts naming ' + expected(c[0], c[1], c[3], fns) if expected(c[0], c[1], c[3], fns) else 'returns'}")
    out["distinct_nontrivial"] = len(keys)
    return out


def replay(ctx, path):
    j = json.load(open(path))
    tc = progbuild.Toolchain(ctx)
    tc.lib(j["profile"])
    try:
        w = World(tc, j["fns"], j["profile"], os.path.join(ctx.work, "r"))
    except Bad as e:
        print(e)
        return 1
    if not j["case"]:
        return 0
    c = tuple(j["case"])
    r = w.run([c])[0]
    m = judge(j["fns"], c, r)
    print(m or "holds")
    return 1 if m else 0
