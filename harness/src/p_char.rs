//! S01: C strings. Model of a string = `(text: String)`; of a rejected input = the input itself.
use crate::engine::*;
use crate::{check, check_eq};
use safer_ffi::c;
use safer_ffi::prelude::*;
use std::convert::TryFrom;
use std::ffi::{CStr, CString};
use std::os::raw::c_char;

extern "C" {
    fn strlen(s: *const c_char) -> usize;
    fn strcmp(a: *const c_char, b: *const c_char) -> i32;
    fn strdup(a: *const c_char) -> *mut c_char;
    fn free(p: *mut c_char);
}

/// Text without NULs.
fn text(g: &mut Gen) -> String {
    let n = match g.weighted(&[2, 6, 3, 1, 1]) {
        0 => 0,
        1 => g.range(1, 6),
        2 => g.range(7, 40),
        3 => g.range(41, 400),
        _ => *g.pick(&[15, 16, 17, 255, 256, 257, 4095, 4096, 9000]),
    };
    let kind = g.below(3);
    let seed = g.below(1 << 32);
    let mut r = Rng::new(seed, 77, n as u64);
    (0..n)
        .map(|i| match kind {
            0 => (b'a' + (i % 26) as u8) as char,
            1 => (1 + (r.next() % 127) as u8) as char,
            _ => *['a', '\u{1}', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '\u{ffff}', '😀', '\u{10ffff}', '\n', '"', '\\'].get((r.next() % 13) as usize).unwrap(),
        })
        .collect()
}

/// Text with 0-3 NULs, biased to the end.
fn nul_text(g: &mut Gen) -> String {
    let mut s = text(g);
    let k = g.weighted(&[3, 5, 2, 1]);
    for _ in 0..k {
        match g.below(4) {
            0 | 1 => s.push('\0'),
            2 => s.insert(0, '\0'),
            _ => {
                let n = s.chars().count();
                let i = g.us(n + 1);
                let at = s.char_indices().nth(i).map(|x| x.0).unwrap_or(s.len());
                s.insert(at, '\0');
            }
        }
    }
    s
}
fn with_cap(g: &mut Gen, s: &str) -> String {
    let extra = match g.below(4) {
        0 => 0,
        1 => 1,
        2 => g.range(2, 9),
        _ => g.range(10, 200),
    };
    let mut o = String::with_capacity(s.len() + extra);
    o.push_str(s);
    o
}

/// What `s` denotes as an owned C string: at most one terminating NUL, no other.
fn owned_text(s: &str) -> Option<&str> {
    let t = s.strip_suffix('\0').unwrap_or(s);
    (!t.contains('\0')).then_some(t)
}
/// ... and as a borrowed one: exactly one, terminating (or empty).
fn ref_text(s: &str) -> Option<&str> {
    if s.is_empty() {
        return Some("");
    }
    let t = s.strip_suffix('\0')?;
    (!t.contains('\0')).then_some(t)
}

unsafe fn raw_of(r: char_p::Ref<'_>) -> *const c_char {
    std::mem::transmute(r)
}

fn check_ref(r: char_p::Ref<'_>, t: &str, sig: &str) {
    unsafe {
        let p = raw_of(r);
        check_eq!(strlen(p), t.len(), sig);
        check_eq!(CStr::from_ptr(p).to_bytes(), t.as_bytes(), sig);
    }
    check_eq!(r.to_str(), t, sig);
    check_eq!(r.to_bytes(), t.as_bytes(), sig);
    check_eq!(r.to_bytes_with_null(), [t.as_bytes(), b"\0"].concat(), sig);
    check_eq!(r.to_str_with_null(), format!("{t}\0"), sig);
    check!(r.bytes().map(|b| b.get()).eq(t.bytes()), sig, "bytes() differ for {t:?}");
    {
        // still at the end after having ended
        let mut it = r.bytes();
        check_eq!(it.by_ref().count(), t.len(), sig);
        check!(it.next().is_none() && it.next().is_none(), sig, "bytes() of {t:?} goes on after its end");
    }
    check!(r.to_nonzero_bytes().iter().map(|b| b.get()).eq(t.bytes()), sig, "to_nonzero_bytes() differ for {t:?}");
    check_eq!(r.to_string(), t, sig);
    check_eq!(format!("{r:?}"), format!("{t:?}"), sig);
    check_eq!(format!("{r}"), format!("{t}"), sig);
    check_eq!(format!("{r:>12.3}|{r:<5}"), format!("{t:>12.3}|{t:<5}"), sig);
    let raw = char_p::Raw::from(r);
    unsafe {
        check_eq!(raw.as_ref().to_str(), t, sig);
        check_eq!(raw_of(raw.as_ref()), raw_of(r), sig);
    }
}
fn check_box(b: &char_p::Box, t: &str, sig: &str) {
    check_ref(b.as_ref(), t, sig);
    check_eq!(b.to_str(), t, sig);
    check_eq!(b.to_bytes(), t.as_bytes(), sig);
    check_eq!(b.to_bytes_with_null(), [t.as_bytes(), b"\0"].concat(), sig);
    check_eq!(b.to_str_with_null(), format!("{t}\0"), sig);
    check!(b.bytes().map(|b| b.get()).eq(t.bytes()), sig, "bytes() differ for {t:?}");
    {
        // still at the end after having ended
        let mut it = b.bytes();
        check_eq!(it.by_ref().count(), t.len(), sig);
        check!(it.next().is_none() && it.next().is_none(), sig, "bytes() of {t:?} goes on after its end");
    }
    check!(b.to_nonzero_bytes().iter().map(|b| b.get()).eq(t.bytes()), sig, "to_nonzero_bytes() differ for {t:?}");
    check_eq!(format!("{b:?}"), format!("{t:?}"), sig);
    check_eq!(format!("{b}"), format!("{t}"), sig);
}

/// A "C library" that borrows, and one that takes and returns ownership.
extern "C" fn c_len(s: char_p::Ref<'_>) -> usize {
    unsafe { strlen(raw_of(s)) }
}
extern "C" fn c_identity(s: Option<char_p::Box>) -> Option<char_p::Box> {
    s
}
extern "C" fn c_free(s: Option<char_p::Box>) {
    drop(s)
}

fn new_box(g: &mut Gen) -> Option<(char_p::Box, String)> {
    let s = nul_text(g);
    let want = owned_text(&s).map(|t| t.to_owned());
    let via = g.below(9);
    g.note(|| format!("new owned C string number-of-bytes={} {:?}, constructor {via}", s.len(), s.chars().take(40).collect::<String>()));
    let got: Option<char_p::Box> = match via {
        0 => {
            let owned = with_cap(g, &s);
            let (p, cap) = (owned.as_ptr(), owned.capacity());
            match char_p::Box::try_from(owned) {
                Ok(b) => Some(b),
                Err(e) => {
                    check_eq!(e.0, s, "rejected-string-changed");
                    check_eq!((e.0.as_ptr(), e.0.capacity()), (p, cap), "rejected-string-changed");
                    let _ = format!("{e} {e:?}");
                    None
                }
            }
        }
        1 => panics(|| char_p::new(&*s)).ok(),
        2 => {
            let owned = with_cap(g, &s);
            panics(|| char_p::new(owned)).ok()
        }
        3 => {
            let owned: repr_c::String = with_cap(g, &s).into();
            panics(|| char_p::new(owned)).ok()
        }
        4 => panics(|| char_p::new(str::Ref::from(&*s))).ok(),
        5 | 6 | 7 => {
            // CStr-ish sources: no NUL inside by construction
            let t = s.replace('\0', "");
            let mut bytes = t.clone().into_bytes();
            let bad = g.chance(1, 5);
            if bad {
                let at = g.us(bytes.len() + 1);
                bytes.insert(at, *g.pick(&[0xff, 0xc0, 0xf5]));
            }
            let valid = std::str::from_utf8(&bytes).is_ok();
            if g.bool() {
                bytes.reserve(g.range(1, 20));
            }
            let cs = CString::new(bytes).unwrap();
            let r = match via {
                5 => panics(|| char_p::new(&*cs)),
                6 => panics(|| char_p::new(cs)),
                _ => panics(|| char_p::Box::from(cs)),
            };
            check_eq!(r.is_ok(), valid, "cstr-utf8-check");
            return r.ok().map(|b| (b, t));
        }
        _ => {
            let r = match char_p::Ref::try_from(&*s) {
                Ok(r) => r,
                Err(_) => {
                    check!(ref_text(&s).is_none(), "ref-rejected-valid", "char_p::Ref::try_from rejected {s:?}");
                    return None;
                }
            };
            check!(ref_text(&s).is_some(), "ref-accepted-invalid", "char_p::Ref::try_from accepted {s:?}");
            Some(r.to_owned())
        }
    };
    check_eq!(got.is_some(), want.is_some(), "owned-acceptance");
    got.map(|b| (b, want.unwrap()))
}

fn owned(g: &mut Gen) {
    let mut pool: Vec<(char_p::Box, String)> = vec![];
    let mut made = 0;
    let steps = g.range(1, 14);
    for _ in 0..steps {
        let op = if pool.is_empty() { 0 } else { g.weighted(&[6, 3, 3, 2, 2, 2, 3, 2, 2, 2, 1]) };
        match op {
            0 => {
                if let Some((b, t)) = new_box(g) {
                    check_box(&b, &t, "new");
                    g.label(if t.is_empty() { "empty" } else { "nonempty" });
                    pool.push((b, t));
                    made += 1;
                } else {
                    g.label("rejected");
                }
            }
            1 => {
                let i = g.us(pool.len());
                g.note(|| format!("clone #{i}"));
                let c = if g.bool() { pool[i].0.clone() } else { pool[i].0.to_owned() };
                check_box(&c, &pool[i].1, "clone");
                let t = pool[i].1.clone();
                unsafe {
                    check!(t.is_empty() || raw_of(c.as_ref()) != raw_of(pool[i].0.as_ref()), "clone-aliases", "the clone shares the buffer");
                }
                pool.push((c, t));
            }
            2 => {
                let i = g.us(pool.len());
                g.note(|| format!("into_string #{i}"));
                let (b, t) = pool.swap_remove(i);
                if g.bool() {
                    let mut s = b.into_string();
                    check_eq!(s, t, "into_string");
                    s.push_str("more");
                    check_eq!(s, format!("{t}more"), "into_string");
                } else {
                    let mut v = b.into_vec();
                    check_eq!(v, t.as_bytes(), "into_vec");
                    v.push(0);
                    v.shrink_to_fit();
                }
            }
            3 => {
                let i = g.us(pool.len());
                g.note(|| format!("drop #{i}"));
                drop(pool.swap_remove(i));
            }
            4 => {
                let (i, j) = (g.us(pool.len()), g.us(pool.len()));
                let (a, b) = (&pool[i], &pool[j]);
                check_eq!(a.0 == b.0, a.1 == b.1, "eq");
                check_eq!(a.0.as_ref() == b.0.as_ref(), a.1 == b.1, "eq");
                check_eq!(a.0 != b.0, a.1 != b.1, "eq");
                unsafe {
                    check_eq!(strcmp(raw_of(a.0.as_ref()), raw_of(b.0.as_ref())) == 0, a.1 == b.1, "eq");
                }
            }
            5 => {
                // through C and back
                let i = g.us(pool.len());
                g.note(|| format!("#{i} through C and back"));
                let (b, t) = pool.swap_remove(i);
                let p: *mut c_char = unsafe { std::mem::transmute(b) };
                let f: extern "C" fn(*mut c_char) -> *mut c_char = unsafe { std::mem::transmute(c_identity as extern "C" fn(_) -> _) };
                let q = f(p);
                check_eq!(p, q, "through-c");
                if g.bool() {
                    let b: char_p::Box = unsafe { std::mem::transmute(q) };
                    check_box(&b, &t, "through-c");
                    pool.push((b, t));
                } else {
                    let f: extern "C" fn(*mut c_char) = unsafe { std::mem::transmute(c_free as extern "C" fn(_)) };
                    f(q);
                }
                check!(f(std::ptr::null_mut()).is_null(), "null-is-none", "a null char_p::Box does not come back as null");
            }
            6 => {
                let i = g.us(pool.len());
                check_box(&pool[i].0, &pool[i].1, "read");
                check_eq!(c_len(pool[i].0.as_ref()), pool[i].1.len(), "read");
            }
            7 => {
                // a string made by C, borrowed and then owned
                let i = g.us(pool.len());
                let t = pool[i].1.clone();
                let p = unsafe { strdup(raw_of(pool[i].0.as_ref())) };
                let r: char_p::Ref<'_> = unsafe { std::mem::transmute(p) };
                check_ref(r, &t, "from-c");
                let o = r.to_owned();
                let raw = char_p::Raw::from(r);
                let o2 = unsafe { raw.as_ref() }.to_owned();
                unsafe { free(p) };
                check_box(&o, &t, "from-c");
                check_box(&o2, &t, "from-c");
                pool.push((o, t));
            }
            8 => {
                // to another thread and back
                let i = g.us(pool.len());
                if g.chance(1, 8) {
                    let (b, t) = pool.swap_remove(i);
                    let b = crate::alloc::exempt(|| {
                        std::thread::scope(|s| s.spawn(move || b).join().unwrap())
                    });
                    check_box(&b, &t, "thread");
                    pool.push((b, t));
                }
            }
            9 => {
                // borrow -> CStr -> borrow
                let i = g.us(pool.len());
                let t = &pool[i].1;
                let cs: &CStr = unsafe { CStr::from_ptr(raw_of(pool[i].0.as_ref())) };
                let r: char_p::Ref<'_> = cs.into();
                check_ref(r, t, "from-cstr");
            }
            _ => {
                // option niche
                let i = g.us(pool.len());
                let (b, t) = pool.swap_remove(i);
                let o: Option<char_p::Box> = Some(b);
                check_eq!(std::mem::size_of_val(&o), std::mem::size_of::<usize>(), "niche");
                let b = o.unwrap();
                check_box(&b, &t, "niche");
                pool.push((b, t));
                let n: usize = unsafe { std::mem::transmute(None::<char_p::Box>) };
                check_eq!(n, 0, "null-is-none");
                let n: usize = unsafe { std::mem::transmute(None::<char_p::Ref<'_>>) };
                check_eq!(n, 0, "null-is-none");
            }
        }
        for (b, t) in &pool {
            check_eq!(b.to_str(), t, "other-string-changed");
        }
    }
    if made > 0 && steps > 1 {
        g.nontrivial();
    }
}

fn borrowed(g: &mut Gen) {
    let s = nul_text(g);
    g.note(|| format!("char_p::Ref::try_from({s:?})"));
    // Place the text inside a larger buffer so that a read beyond it is visible.
    let mut buf = String::from("<<");
    buf.push_str(&s);
    let end = buf.len();
    buf.push_str(">>\0");
    let view = &buf[2..end];
    let want = ref_text(&s);
    let got = char_p::Ref::try_from(view);
    check_eq!(got.is_ok(), want.is_some(), "ref-acceptance");
    g.label(if want.is_some() { "accepted" } else { "rejected" });
    match (got, want) {
        (Ok(r), Some(t)) => {
            check_ref(r, t, "ref");
            if !t.is_empty() {
                unsafe { check_eq!(raw_of(r) as *const u8, view.as_ptr(), "ref-copied") }
            }
            let o = r.to_owned();
            check_box(&o, t, "ref-to_owned");
            check_eq!(o.as_ref() == r, true, "ref-eq");
            drop(buf);
            check_box(&o, t, "ref-to_owned");
        }
        (Err(e), None) => {
            let _ = format!("{e} {e:?}");
        }
        _ => unreachable!(),
    }
    // CStr: valid UTF-8 or panic
    let mut bytes: Vec<u8> = text(g).into_bytes();
    if g.bool() {
        let at = g.us(bytes.len() + 1);
        bytes.insert(at, *g.pick(&[0x80, 0xff, 0xc3, 0xe2, 0xf0]));
    }
    let ok = std::str::from_utf8(&bytes).map(|s| s.to_owned());
    let cs = CString::new(bytes).unwrap();
    let r = panics(|| char_p::Ref::from(&*cs));
    check_eq!(r.is_ok(), ok.is_ok(), "cstr-utf8-check");
    if let (Ok(r), Ok(t)) = (r, ok) {
        check_ref(r, &t, "from-cstr");
    }
    if s.len() > 1 {
        g.nontrivial();
    }
}

fn literals(g: &mut Gen) {
    let lits: [(char_p::Ref<'static>, &str); 21] = [
        (c!(), ""),
        (c!(""), ""),
        (c!("\0"), ""),
        (c!("a"), "a"),
        (c!("a\0"), "a"),
        (c!("ab"), "ab"),
        (c!("ab\0"), "ab"),
        (c!("é"), "é"),
        (c!("é\0"), "é"),
        (c!("\u{1F600}\u{10ffff}"), "\u{1F600}\u{10ffff}"),
        (c!("\u{7f}\u{80}\u{7ff}\u{800}"), "\u{7f}\u{80}\u{7ff}\u{800}"),
        (c!("quote \" back \\ slash"), "quote \" back \\ slash"),
        (c!(r#"raw "\0" string"#), r#"raw "\0" string"#),
        (c!(r"raw \x00"), r"raw \x00"),
        (c!("tab\tnl\ncr\r\x01\x7f"), "tab\tnl\ncr\r\x01\x7f"),
        (c!("line \
            continuation"), "line continuation"),
        (c!("multi
line"), "multi\nline"),
        (c!("Hello, World!"), "Hello, World!"),
        (c!("0"), "0"),
        (c!("\\0"), "\\0"),
        (char_p::Ref::EMPTY, ""),
    ];
    let i = g.us(lits.len());
    let j = g.us(lits.len());
    let ((a, t), (b, u)) = (lits[i], lits[j]);
    g.note(|| format!("literals {t:?} {u:?}"));
    check_ref(a, t, "literal");
    check_eq!(a == b, t == u, "literal-eq");
    let cat: char_p::Box = format!("{a}{b}").try_into().unwrap();
    check_box(&cat, &format!("{t}{u}"), "literal-concat");
    let extra = text(g);
    let cat = char_p::new(format!("{cat}{extra}"));
    check_box(&cat, &format!("{t}{u}{extra}"), "literal-concat");
    g.nontrivial();
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "S01",
        rule: "owned: at least one C string built and at least 2 operations; borrowed: input longer than one byte; literals: all",
        subs: vec![
            Sub { name: "owned", f: owned, quick: 120_000, thorough: 4_000_000, leaks: true },
            Sub { name: "borrowed", f: borrowed, quick: 150_000, thorough: 4_000_000, leaks: true },
            Sub { name: "literals", f: literals, quick: 20_000, thorough: 100_000, leaks: true },
        ],
    }]
}
