//! Header generation with options and writers that a plan asks for (H04).
use safer_ffi::headers::{self, Definer, HashSetDefiner, Language};
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

#[derive(Default)]
struct Sink {
    bytes: Vec<u8>,
    calls: u64,
}
/// A writer with the behaviour of `kind`.
struct W {
    sink: Rc<RefCell<Sink>>,
    kind: String,
    a: u64,
    b: u64,
    seed: u64,
}
fn kinds(b: u64) -> io::ErrorKind {
    use io::ErrorKind::*;
    [Other, BrokenPipe, PermissionDenied, WouldBlock, TimedOut, UnexpectedEof, InvalidData, ConnectionReset][b as usize % 8]
}
impl W {
    fn rnd(&mut self) -> u64 {
        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.seed >> 33
    }
}
impl Write for W {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let r = self.rnd();
        let mut s = self.sink.borrow_mut();
        s.calls += 1;
        let left = (self.a as usize).saturating_sub(s.bytes.len());
        let n = match &self.kind[..] {
            "vec" => buf.len(),
            // at most `a` bytes at once
            "short" => buf.len().min(1 + (r % self.a.max(1)) as usize),
            "interrupted" => {
                if r % 3 == 0 {
                    return Err(io::ErrorKind::Interrupted.into());
                }
                buf.len().min(1 + (r % self.a.max(1)) as usize)
            }
            // the device is full after `a` bytes
            "fail" if left == 0 && !buf.is_empty() => return Err(io::Error::new(kinds(self.b), format!("device error {}", self.b))),
            "zero" if left == 0 => 0,
            "fail" | "zero" => buf.len().min(left),
            // refuses (once) the call number `a`, then works
            "once" => {
                if s.calls == self.a {
                    return Err(io::Error::new(kinds(self.b), format!("device error {}", self.b)));
                }
                buf.len()
            }
            k => panic!("harness: writer {k}"),
        };
        s.bytes.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// A definer of the user's own.
struct D<'a> {
    set: std::collections::BTreeSet<String>,
    out: &'a mut dyn Write,
}
impl Definer for D<'_> {
    fn insert(&mut self, name: &str) -> bool {
        self.set.insert(name.to_owned())
    }
    fn out(&mut self) -> &mut dyn Write {
        self.out
    }
}
fn unhex(s: &str) -> String {
    let b = (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
/// Lines `id language stable guard banner text writer a b`; writes `o<id>` and `results`.
pub fn run(dir: &str) -> i32 {
    let plan = std::fs::read_to_string(format!("{dir}/plan")).unwrap();
    let mut results = String::new();
    for l in plan.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let (id, lang, kind, a, b) = (w[0], w[1], w[6], w[7].parse::<u64>().unwrap(), w[8].parse::<u64>().unwrap());
        let opt = |k: usize| (w[k] != "-").then(|| unhex(w[k].trim_start_matches('x')));
        let (guard, banner, text) = (opt(3), opt(4), opt(5));
        let sink = Rc::new(RefCell::new(Sink::default()));
        let out = format!("{dir}/o{id}");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut x = headers::builder();
            // options in any order
            for k in 0..5 {
                match (k + b) % 5 {
                    0 if lang != "default" => {
                        x = x.with_language(match lang {
                            "c" => Language::C,
                            "cs" => Language::CSharp,
                            _ => Language::Python,
                        })
                    }
                    1 if w[2] != "-" => x = x.with_stable_header(w[2] == "1"),
                    2 => {
                        if let Some(s) = &guard {
                            x = x.with_guard(s)
                        }
                    }
                    3 => {
                        if let Some(s) = &banner {
                            x = x.with_banner(s)
                        }
                    }
                    4 => {
                        if let Some(s) = &text {
                            x = x.with_text_after_guard(s)
                        }
                    }
                    _ => {}
                }
            }
            let mk = |kind: &str| W { sink: sink.clone(), kind: kind.into(), a, b, seed: a ^ b << 20 ^ 77 };
            match kind {
                "file" => x.to_file(&out)?.generate(),
                "path" => x.to_file(format!("{dir}/missing/{id}"))?.generate(),
                "dir" => x.to_file(dir)?.generate(),
                "full" => x.to_file("/dev/full")?.generate(),
                "bufvec" => x.to_writer(io::BufWriter::with_capacity(b as usize * 64, mk("vec"))).generate(),
                "buffail" => x.to_writer(io::BufWriter::with_capacity(b as usize * 64, mk("fail"))).generate(),
                "linefail" => x.to_writer(io::LineWriter::new(mk("fail"))).generate(),
                "mutref" => x.to_writer(&mut mk("short")).generate(),
                "dyn" => x.to_writer(Box::new(mk("vec")) as Box<dyn Write>).generate(),
                "definer" => x.generate_with_definer(&mut D { set: Default::default(), out: &mut mk("short") }),
                "definerfail" => x.generate_with_definer(&mut D { set: Default::default(), out: &mut mk("fail") }),
                "hashdefiner" => x.generate_with_definer(&mut HashSetDefiner { defines_set: Default::default(), out: &mut mk("vec") }),
                // a name that is already taken, in the definer of the caller
                k if k.starts_with("taken:") => x.generate_with_definer(&mut D { set: [k[6..].to_owned()].into_iter().collect(), out: &mut mk("vec") }),
                k => x.to_writer(mk(k)).generate(),
            }
        }));
        if !["file", "path", "dir", "full"].contains(&kind) {
            std::fs::write(&out, &sink.borrow().bytes).unwrap();
        }
        results += &match r {
            Ok(Ok(())) => format!("{id} ok\n"),
            Ok(Err(e)) => format!("{id} err {:?} {}\n", e.kind(), e.to_string().replace('\n', " ")),
            Err(_) => format!("{id} panic\n"),
        };
    }
    std::fs::write(format!("{dir}/results"), results).unwrap();
    0
}
