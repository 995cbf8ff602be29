//! F01: futures through FFI executors. Scripts (trees of tasks that yield, wait for events, spawn
//! and await each other, block, return or panic) are run on a deterministic simulated executor whose
//! every decision is generated, and on tokio. Each node's outcome is compared with a model.

use crate::alloc::exempt;
use crate::engine::*;
use crate::vals::mix;
use crate::{check, check_eq};
use ::futures::FutureExt;
use safer_ffi::dyn_traits::futures::*;
use safer_ffi::dyn_traits::*;
use safer_ffi::prelude::*;
use std::collections::VecDeque;
use std::future::Future;
use std::mem;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

safer_ffi::ffi_export_future_helpers!();

type Exec = VirtualPtr<dyn 'static + Send + Sync + FfiFutureExecutor>;
type ExecLocal = VirtualPtr<dyn 'static + FfiFutureExecutor>;

// ------------------------------------------------------------ scripts

#[derive(Debug, Clone, Copy, PartialEq)]
enum Mode {
    Await,
    Detach,
    Later,
}
#[derive(Debug, Clone)]
enum Step {
    Yield(u8),
    /// wait for an event; `kind`: 0 plain waker, 1 a future implemented by foreign code keeping the
    /// waker it got from `rust_future_task_context_get_waker`, 2 foreign, waking itself through
    /// `rust_future_task_context_wake` until the event has fired
    Ext(usize, u8),
    Spawn { child: usize, mode: Mode, catch: bool, reactor: bool },
}
#[derive(Debug, Clone)]
struct Node {
    steps: Vec<Step>,
    ret: Option<u64>, // None: panic
    blocking: bool,
    /// blocking nodes: block on this node
    inner: Option<usize>,
    ballast: usize,
}

const CAUGHT: u64 = 777;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Outcome {
    Val(u64),
    Panicked,
    Dropped,
}

/// The payload of a scripted panic: the task that raised it.
struct Scripted(usize);
fn who(p: &(dyn std::any::Any + Send)) -> Option<usize> {
    p.downcast_ref::<Scripted>().map(|s| s.0)
}

struct Event {
    fired: AtomicBool,
    wakers: Mutex<Vec<W>>,
    stale: Mutex<Vec<W>>,
}
enum W {
    R(Waker),
    C(CWaker),
}
/// C's view of `ArcDynFn0<()>`
#[repr(C)]
struct CWaker {
    env: *mut (),
    call: unsafe extern "C" fn(*mut ()),
    release: unsafe extern "C" fn(*mut ()),
    retain: unsafe extern "C" fn(*mut ()),
}
unsafe impl Send for CWaker {}
unsafe impl Sync for CWaker {}
impl Drop for CWaker {
    fn drop(&mut self) {
        unsafe { (self.release)(self.env) }
    }
}
impl CWaker {
    fn dup(&self) -> CWaker {
        unsafe { (self.retain)(self.env) };
        CWaker { env: self.env, call: self.call, release: self.release, retain: self.retain }
    }
}

struct St {
    nodes: Vec<Node>,
    events: Vec<Event>,
    runs: Vec<AtomicUsize>,
    made: Vec<AtomicUsize>,
    gone: Vec<AtomicUsize>,
    outcome: Mutex<Vec<Option<Outcome>>>,
    /// for each task whose awaiter caught a failure: the task whose panic it was, if that is what it was
    caught: Mutex<Vec<Option<Option<usize>>>>,
    /// a task's panic reaches who awaits it as that same panic
    rethrow: bool,
    results: AtomicI64,
    fail: Mutex<Option<(&'static str, String)>>,
    want_reactor: bool,
}
impl St {
    fn bad(&self, sig: &'static str, msg: impl FnOnce() -> String) {
        exempt(|| {
            self.fail.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(|| (sig, msg()));
        })
    }
    fn fire(&self, e: usize, late: bool) {
        let ev = &self.events[e];
        ev.fired.store(true, SeqCst);
        let ws = mem::take(&mut *ev.wakers.lock().unwrap());
        for w in ws {
            match w {
                W::R(w) => {
                    if late {
                        w.wake_by_ref();
                        exempt(|| ev.stale.lock().unwrap().push(W::R(w)));
                    } else {
                        w.wake()
                    }
                }
                W::C(c) => unsafe {
                    let d = c.dup();
                    (d.call)(d.env);
                    drop(d);
                    if late {
                        exempt(|| ev.stale.lock().unwrap().push(W::C(c)));
                    }
                },
            }
        }
    }
    fn stale(&self) {
        for ev in &self.events {
            for w in ev.stale.lock().unwrap().iter() {
                match w {
                    W::R(w) => w.wake_by_ref(),
                    W::C(c) => unsafe { (c.call)(c.env) },
                }
            }
        }
    }
}

/// The value a task returns: one live instance each.
struct Out {
    v: u64,
    st: Arc<St>,
}
impl Out {
    fn new(v: u64, st: &Arc<St>) -> Out {
        st.results.fetch_add(1, SeqCst);
        Out { v, st: st.clone() }
    }
}
impl Drop for Out {
    fn drop(&mut self) {
        self.st.results.fetch_sub(1, SeqCst);
    }
}

/// State captured by a task.
struct NodeGuard {
    i: usize,
    st: Arc<St>,
    done: Option<Outcome>,
    ballast: Vec<u8>,
}
impl NodeGuard {
    fn new(i: usize, st: &Arc<St>) -> NodeGuard {
        st.made[i].fetch_add(1, SeqCst);
        NodeGuard { i, st: st.clone(), done: None, ballast: vec![0xA5; st.nodes[i].ballast] }
    }
    fn start(&self) {
        if self.st.runs[self.i].fetch_add(1, SeqCst) != 0 {
            self.st.bad("ran-twice", || format!("task {} ran twice", self.i));
        }
        if self.ballast.iter().any(|&b| b != 0xA5) {
            self.st.bad("corrupted", || format!("state captured by task {} corrupted", self.i));
        }
    }
}
impl Drop for NodeGuard {
    fn drop(&mut self) {
        let o = match self.done {
            Some(o) => o,
            None if std::thread::panicking() => Outcome::Panicked,
            None => Outcome::Dropped,
        };
        if self.st.gone[self.i].fetch_add(1, SeqCst) != 0 {
            self.st.bad("dropped-twice", || format!("state captured by task {} dropped twice", self.i));
        }
        let mut v = self.st.outcome.lock().unwrap_or_else(|e| e.into_inner());
        if self.ballast.iter().any(|&b| b != 0xA5) {
            drop(v);
            return self.st.bad("corrupted", || format!("state captured by task {} corrupted", self.i));
        }
        v[self.i] = Some(o);
    }
}

struct YieldNow(u8);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        if self.0 & 1 == 0 {
            cx.waker().wake_by_ref();
        } else {
            cx.waker().clone().wake();
        }
        Poll::Pending
    }
}
struct WaitExt(Arc<St>, usize);
impl Future for WaitExt {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let ev = &self.0.events[self.1];
        if ev.fired.load(SeqCst) {
            return Poll::Ready(());
        }
        let w = cx.waker().clone();
        exempt(|| ev.wakers.lock().unwrap().push(W::R(w)));
        if ev.fired.load(SeqCst) {
            return Poll::Ready(());
        }
        Poll::Pending
    }
}

/// A future implemented by foreign code.
#[repr(C)]
struct CFut {
    ptr: *mut Foreign,
    release: unsafe extern "C" fn(*mut Foreign),
    poll: unsafe extern "C" fn(*mut Foreign, *const ()) -> i8,
}
struct Foreign {
    st: Arc<St>,
    e: usize,
    kind: u8,
    polls: u32,
}
extern "C" {
    fn rust_future_task_context_wake(cx: *const ());
    fn rust_future_task_context_get_waker(cx: *const ()) -> CWaker;
}
unsafe extern "C" fn foreign_release(p: *mut Foreign) {
    drop(Box::from_raw(p));
}
unsafe extern "C" fn foreign_poll(p: *mut Foreign, cx: *const ()) -> i8 {
    let f = &mut *p;
    f.polls += 1;
    let ev = &f.st.events[f.e];
    if ev.fired.load(SeqCst) {
        return 0;
    }
    if f.kind == 2 {
        if f.polls < 3 {
            rust_future_task_context_wake(cx);
            return -1;
        }
    }
    let w = rust_future_task_context_get_waker(cx);
    exempt(|| ev.wakers.lock().unwrap().push(W::C(w)));
    if ev.fired.load(SeqCst) {
        return 0;
    }
    -1
}
fn foreign_future(st: &Arc<St>, e: usize, kind: u8) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
    let ptr = Box::into_raw(Box::new(Foreign { st: st.clone(), e, kind, polls: 0 }));
    unsafe { mem::transmute(CFut { ptr, release: foreign_release, poll: foreign_poll }) }
}

type Boxed = Pin<Box<dyn Future<Output = Out> + Send>>;
type Joined = Pin<Box<dyn Future<Output = Result<Out, ()>> + Send>>;

fn spawn_child(ex: &Exec, st: &Arc<St>, c: usize, reactor: bool) -> Joined {
    if st.nodes[c].blocking {
        let (e2, guard) = (ex.clone(), NodeGuard::new(c, st));
        let j = ex.spawn_blocking(move || run_blocking(e2, guard));
        Box::pin(j.map(|r| r.map_err(|_| ())))
    } else if reactor {
        let guard = NodeGuard::new(c, st);
        let (e2, r) = (ex.clone(), st.want_reactor);
        Box::pin(
            ex.spawn_within_tokio_reactor(async move {
                if r && ::tokio::runtime::Handle::try_current().is_err() {
                    guard.st.bad("no-reactor", || "no tokio reactor within spawn_within_tokio_reactor".into());
                }
                run_node(e2, guard).await
            })
            .map(Ok),
        )
    } else {
        let f = run_node(ex.clone(), NodeGuard::new(c, st));
        Box::pin(ex.spawn(f).map(Ok))
    }
}

fn run_blocking(ex: Exec, mut g: NodeGuard) -> Out {
    g.start();
    let st = g.st.clone();
    let n = &st.nodes[g.i];
    let mut acc = g.i as u64;
    if let Some(inner) = n.inner {
        let o = ex.block_on(run_node(ex.clone(), NodeGuard::new(inner, &st)));
        acc = mix(acc, o.v);
    }
    match n.ret {
        None => std::panic::panic_any(Scripted(g.i)),
        Some(r) => {
            acc = mix(acc, r);
            g.done = Some(Outcome::Val(acc));
            Out::new(acc, &st)
        }
    }
}

fn run_node(ex: Exec, mut g: NodeGuard) -> Boxed {
    Box::pin(async move {
        g.start();
        let st = g.st.clone();
        let i = g.i;
        let mut acc = i as u64;
        let mut later: VecDeque<(usize, Joined, bool)> = VecDeque::new();
        async fn join(st: &Arc<St>, c: usize, mut j: Joined, catch: bool, acc: &mut u64) {
            let (r, by) = if catch {
                match AssertUnwindSafe(&mut j).catch_unwind().await {
                    Ok(r) => (r, None),
                    Err(p) => (Err(()), who(&*p)),
                }
            } else {
                ((&mut j).await, None)
            };
            if catch && r.is_err() {
                st.caught.lock().unwrap_or_else(|e| e.into_inner())[c] = Some(by);
            }
            match r {
                Ok(o) => *acc = mix(*acc, o.v),
                Err(()) if catch => *acc = mix(*acc, CAUGHT),
                Err(()) => panic!("awaited task cancelled"),
            }
        }
        for s in &st.nodes[i].steps {
            match *s {
                Step::Yield(n) => YieldNow(n).await,
                Step::Ext(e, 0) => WaitExt(st.clone(), e).await,
                Step::Ext(e, k) => foreign_future(&st, e, k).into_future().await,
                Step::Spawn { child, mode, catch, reactor } => {
                    let j = spawn_child(&ex, &st, child, reactor);
                    match mode {
                        Mode::Await => join(&st, child, j, catch, &mut acc).await,
                        Mode::Detach => drop(j),
                        Mode::Later => later.push_back((child, j, catch)),
                    }
                }
            }
        }
        while let Some((c, j, catch)) = later.pop_front() {
            join(&st, c, j, catch, &mut acc).await;
        }
        match st.nodes[i].ret {
            None => std::panic::panic_any(Scripted(g.i)),
            Some(r) => {
                acc = mix(acc, r);
                g.done = Some(Outcome::Val(acc));
                Out::new(acc, &st)
            }
        }
    })
}

/// The outcome a node must have, given those that were dropped.
fn model(st: &St, i: usize, dropped: &[bool]) -> Outcome {
    if dropped[i] {
        return Outcome::Dropped;
    }
    let n = &st.nodes[i];
    let mut acc = i as u64;
    if n.blocking {
        if let Some(c) = n.inner {
            match model(st, c, dropped) {
                Outcome::Val(v) => acc = mix(acc, v),
                _ => return Outcome::Panicked,
            }
        }
    } else {
        let mut later = vec![];
        let join = |c: usize, catch: bool, acc: &mut u64| match model(st, c, dropped) {
            Outcome::Val(v) => {
                *acc = mix(*acc, v);
                true
            }
            _ if catch => {
                *acc = mix(*acc, CAUGHT);
                true
            }
            _ => false,
        };
        for s in &n.steps {
            match *s {
                Step::Spawn { child, mode: Mode::Await, catch, .. } => {
                    if !join(child, catch, &mut acc) {
                        return Outcome::Panicked;
                    }
                }
                Step::Spawn { child, mode: Mode::Later, catch, .. } => later.push((child, catch)),
                _ => {}
            }
        }
        for (c, catch) in later {
            if !join(c, catch, &mut acc) {
                return Outcome::Panicked;
            }
        }
    }
    match n.ret {
        None => Outcome::Panicked,
        Some(r) => Outcome::Val(mix(acc, r)),
    }
}

/// The task whose panic must end the (panicked) task `i`, where it has to be a particular one.
fn origin(st: &St, i: usize, dropped: &[bool]) -> Option<usize> {
    let fails = |c: usize| !matches!(model(st, c, dropped), Outcome::Val(_));
    if dropped[i] {
        return None;
    }
    let n = &st.nodes[i];
    if n.blocking {
        if let Some(c) = n.inner.filter(|&c| fails(c)) {
            return origin(st, c, dropped);
        }
    }
    let awaited = |m: Mode| n.steps.iter().filter_map(move |s| match *s {
        Step::Spawn { child, mode, catch: false, .. } if mode == m => Some(child),
        _ => None,
    });
    for c in awaited(Mode::Await).chain(awaited(Mode::Later)) {
        if fails(c) {
            return if st.rethrow { origin(st, c, dropped) } else { None };
        }
    }
    n.ret.is_none().then_some(i)
}

fn gen_tree(g: &mut Gen, tokio: bool) -> (Vec<Node>, usize) {
    let nev = g.range(0, 4);
    let mut nodes: Vec<Node> = vec![Node { steps: vec![], ret: Some(0), blocking: false, inner: None, ballast: 0 }];
    let max = g.range(1, 9);
    let mut i = 0;
    let panics = g.chance(1, 2);
    while i < nodes.len() {
        let ret = if panics && g.chance(1, 5) { None } else { Some(g.below(1000)) };
        let ballast = *g.pick(&[0, 0, 1, 40]);
        if nodes[i].blocking {
            let mut inner = None;
            if nodes.len() < max && g.bool() {
                inner = Some(nodes.len());
                nodes.push(Node { steps: vec![], ret: None, blocking: false, inner: None, ballast: 0 });
            }
            nodes[i] = Node { steps: vec![], ret, blocking: true, inner, ballast };
        } else {
            let k = g.us(5);
            let mut steps = vec![];
            for _ in 0..k {
                steps.push(match g.weighted(&[2, if nev > 0 { 3 } else { 0 }, 4]) {
                    0 => Step::Yield(g.range(0, 3) as u8),
                    1 => Step::Ext(g.us(nev), g.below(3) as u8),
                    _ => {
                        if nodes.len() >= max {
                            continue;
                        }
                        let child = nodes.len();
                        let blocking = g.chance(1, 3);
                        nodes.push(Node { steps: vec![], ret: None, blocking, inner: None, ballast: 0 });
                        let mode = *g.pick(&[Mode::Await, Mode::Later, Mode::Detach]);
                        let reactor = !tokio && g.chance(1, 16);
                        Step::Spawn { child, mode, catch: g.bool(), reactor }
                    }
                });
            }
            nodes[i] = Node { steps, ret, blocking: false, inner: None, ballast };
        }
        i += 1;
    }
    for (i, n) in nodes.iter().enumerate() {
        g.note(|| {
            format!(
                "task {i}{}: {:?}{} then {}",
                if n.blocking { " (blocking)" } else { "" },
                n.steps,
                n.inner.map(|c| format!(" block_on task {c}")).unwrap_or_default(),
                n.ret.map_or("panic".into(), |r| format!("return {r}"))
            )
        });
    }
    (nodes, nev)
}
fn mk_st(nodes: Vec<Node>, nev: usize, want_reactor: bool, rethrow: bool) -> Arc<St> {
    let n = nodes.len();
    let z = || (0..n).map(|_| AtomicUsize::new(0)).collect::<Vec<_>>();
    Arc::new(St {
        nodes,
        events: (0..nev).map(|_| Event { fired: AtomicBool::new(false), wakers: Default::default(), stale: Default::default() }).collect(),
        runs: z(),
        made: z(),
        gone: z(),
        outcome: Mutex::new(vec![None; n]),
        caught: Mutex::new(vec![None; n]),
        rethrow,
        results: AtomicI64::new(0),
        fail: Mutex::new(None),
        want_reactor,
    })
}

fn judge(g: &mut Gen, st: &Arc<St>, main: Result<Out, Option<usize>>, faulty_block: bool) {
    if let Some((sig, msg)) = st.fail.lock().unwrap().take() {
        fail_(sig, msg);
    }
    let out = st.outcome.lock().unwrap().clone();
    let dropped: Vec<bool> = out.iter().map(|o| *o == Some(Outcome::Dropped)).collect();
    for i in 0..st.nodes.len() {
        let (m, d) = (st.made[i].load(SeqCst), st.gone[i].load(SeqCst));
        check!(m == d && m <= 1, "captured-state", "task {i}: captured state made {m} times, dropped {d} times");
        if m == 0 {
            continue;
        }
        if dropped[i] {
            g.label("a task was dropped");
            continue;
        }
        let want = model(st, i, &dropped);
        check!(out[i] == Some(want), "task-outcome", "task {i}: {:?}, expected {want:?} (dropped tasks: {dropped:?})", out[i]);
        check!(st.runs[i].load(SeqCst) == 1, "run-count", "task {i} ran {} times", st.runs[i].load(SeqCst));
        if want == Outcome::Panicked {
            g.label("a task panicked");
        }
    }
    let caught = st.caught.lock().unwrap().clone();
    for (c, by) in caught.iter().enumerate() {
        // how a task that was dropped ends for its awaiter is the executor's business
        if let (Some(by), Some(w), true) = (by, origin(st, c, &dropped), st.rethrow) {
            check!(*by == Some(w), "panic-payload", "awaiting task {c}, ended by task {w}'s panic, failed with {}", match by {
                None => "something else".into(),
                Some(x) => format!("task {x}'s panic"),
            });
            g.label("a task's panic was handed on");
        }
    }
    match (&main, out[0]) {
        (Ok(o), Some(Outcome::Val(v))) => check!(o.v == v, "main-result", "block_on returned {}, the future's output is {v}", o.v),
        (Err(by), Some(Outcome::Panicked)) => {
            if let Some(w) = origin(st, 0, &dropped) {
                check!(*by == Some(w), "panic-payload", "block_on, ended by task {w}'s panic, panicked with {by:?}");
            }
        }
        (Err(_), Some(Outcome::Dropped)) if faulty_block => {}
        (m, o) => fail_("main-result", format!("block_on gave {:?}, the future ended with {o:?}", m.as_ref().map(|o| o.v))),
    }
    drop(main);
    check_eq!(st.results.load(SeqCst), 0, "results-dropped");
    if st.made.iter().filter(|m| m.load(SeqCst) == 1).count() > 1 {
        g.nontrivial();
    }
}

// ------------------------------------------------------------ simulated executor

struct Flag {
    set: AtomicBool,
    wakes: AtomicU64,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.set.store(true, SeqCst);
        self.wakes.fetch_add(1, SeqCst);
    }
}
fn flag() -> (Arc<Flag>, Waker) {
    let f = Arc::new(Flag { set: AtomicBool::new(true), wakes: AtomicU64::new(0) });
    (f.clone(), f.into())
}

enum Body {
    Fut(VirtualPtr<dyn 'static + Send + FfiFuture>),
    Act(repr_c::Box<dyn 'static + Send + FnMut()>),
}
struct Task {
    body: Body,
    flag: Arc<Flag>,
    waker: Waker,
    join: Arc<Join>,
}
#[derive(Default)]
struct Join {
    inner: Mutex<(Option<Result<(), Option<Box<dyn std::any::Any + Send>>>>, Vec<Waker>)>,
}
impl Join {
    fn finish(&self, r: Result<(), Option<Box<dyn std::any::Any + Send>>>) {
        let ws = {
            let mut i = self.inner.lock().unwrap();
            i.0 = Some(r);
            mem::take(&mut i.1)
        };
        ws.into_iter().for_each(|w| w.wake());
    }
}
struct JoinFut(Arc<Join>);
impl Future for JoinFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut i = self.0.inner.lock().unwrap();
        match i.0.take() {
            None => {
                i.1.push(cx.waker().clone());
                Poll::Pending
            }
            Some(Err(Some(p))) => {
                drop(i);
                resume_unwind(p)
            }
            Some(_) => Poll::Ready(()),
        }
    }
}
#[derive(Clone, Copy, Debug)]
struct Policy {
    eager: bool,
    rethrow: bool,
    droppy: bool,
    spurious: bool,
    call_twice: bool,
    faulty_block: bool,
    late_wakes: bool,
}
struct Sim {
    st: Arc<St>,
    pol: Policy,
    tasks: Mutex<VecDeque<Option<Task>>>,
    choices: Mutex<(Vec<u8>, usize)>,
    enters: Arc<AtomicI64>,
    blocks: AtomicUsize,
}
struct EnterGuard(Arc<AtomicI64>);
impl Drop for EnterGuard {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}
impl Sim {
    fn choose(&self, n: usize) -> usize {
        let mut c = self.choices.lock().unwrap();
        let v = c.0.get(c.1).copied().unwrap_or(0) as usize;
        c.1 += 1;
        v % n.max(1)
    }
    fn add(&self, body: Body) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        let (flag, waker) = flag();
        let join = Arc::new(Join::default());
        let eager = self.pol.eager && matches!(body, Body::Fut(_));
        let t = Task { body, flag, waker, join: join.clone() };
        let t = if eager { self.poll(t) } else { Some(t) };
        if let Some(t) = t {
            self.tasks.lock().unwrap().push_back(Some(t));
        }
        Box::pin(JoinFut(join)).into()
    }
    /// Polls or runs a task; gives it back if it is pending.
    fn poll(&self, mut t: Task) -> Option<Task> {
        t.flag.set.store(false, SeqCst);
        let r = match &mut t.body {
            Body::Fut(f) => {
                let r = catch_unwind(AssertUnwindSafe(|| Pin::new(f).dyn_poll(&mut Context::from_waker(&t.waker))));
                match r {
                    Ok(PollFuture::Pending) => return Some(t),
                    Ok(PollFuture::Completed) => Ok(()),
                    Err(p) => Err(p),
                }
            }
            Body::Act(f) => {
                let r = catch_unwind(AssertUnwindSafe(|| f.call()));
                if self.pol.call_twice {
                    if catch_unwind(AssertUnwindSafe(|| f.call())).is_ok() {
                        self.st.bad("second-call", || "the second call of a spawn_blocking closure did not panic".into());
                    }
                }
                r
            }
        };
        let Task { body, join, flag, waker } = t;
        drop(body);
        drop((flag, waker));
        join.finish(match r {
            Ok(()) => Ok(()),
            Err(p) if self.pol.rethrow => Err(Some(p)),
            Err(_) => Err(None),
        });
        None
    }
    /// One step of the executor; false when nothing can be done.
    fn step(&self, may_drop: bool) -> bool {
        let ready: Vec<usize> = {
            let ts = self.tasks.lock().unwrap();
            let spurious = self.pol.spurious && self.choose(4) == 3;
            (0..ts.len()).filter(|&i| ts[i].as_ref().map_or(false, |t| t.flag.set.load(SeqCst) || spurious && matches!(t.body, Body::Fut(_)))).collect()
        };
        let unfired: Vec<usize> = (0..self.st.events.len()).filter(|&e| !self.st.events[e].fired.load(SeqCst)).collect();
        let take = |i: usize| self.tasks.lock().unwrap()[i].take();
        if self.pol.droppy && may_drop && self.choose(12) == 11 {
            let all: Vec<usize> = {
                let ts = self.tasks.lock().unwrap();
                (0..ts.len()).filter(|&i| ts[i].is_some()).collect()
            };
            if !all.is_empty() {
                if let Some(t) = take(all[self.choose(all.len())]) {
                    let Task { body, join, .. } = t;
                    drop(body);
                    join.finish(Err(None));
                }
                return true;
            }
        }
        let k = self.choose(ready.len() + unfired.len().min(2));
        if let Some(&i) = ready.get(k) {
            if let Some(t) = take(i) {
                let t = self.poll(t);
                self.tasks.lock().unwrap()[i] = t;
            }
            true
        } else if !unfired.is_empty() {
            let e = unfired[self.choose(unfired.len())];
            self.st.fire(e, self.pol.late_wakes);
            true
        } else if self.pol.late_wakes && self.choose(6) == 5 {
            self.st.stale();
            false
        } else {
            false
        }
    }
}
impl FfiFutureExecutor for Sim {
    fn dyn_spawn(&self, future: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        self.add(Body::Fut(future))
    }
    fn dyn_spawn_blocking(&self, action: repr_c::Box<dyn 'static + Send + FnMut()>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        self.add(Body::Act(action))
    }
    fn dyn_block_on(&self, mut future: VirtualPtr<dyn '_ + FfiFuture>) {
        let n = self.blocks.fetch_add(1, SeqCst);
        if self.pol.faulty_block && n == 0 {
            for _ in 0..self.choose(4) {
                let (_f, w) = flag();
                if let PollFuture::Completed = Pin::new(&mut future).dyn_poll(&mut Context::from_waker(&w)) {
                    return;
                }
            }
            return;
        }
        let (flag, waker) = flag();
        let mut idle = 0;
        for _ in 0..100_000 {
            let spurious = self.pol.spurious && self.choose(4) == 3;
            if (flag.set.load(SeqCst) || spurious) && self.choose(3) != 2 {
                flag.set.store(false, SeqCst);
                if let PollFuture::Completed = Pin::new(&mut future).dyn_poll(&mut Context::from_waker(&waker)) {
                    return;
                }
                idle = 0;
            } else if !self.step(true) {
                idle += 1;
            } else {
                idle = 0;
            }
            if idle > 400 {
                self.st.bad("lost-wake-up", || "every event has fired and no task is awake, but a blocked-on future is pending".into());
                panic!("lost wake-up");
            }
        }
        self.st.bad("livelock", || "100000 steps".into());
        panic!("livelock");
    }
    fn dyn_enter(&self) -> VirtualPtr<dyn '_ + DropGlue> {
        self.enters.fetch_add(1, SeqCst);
        Box::new(ImplDropGlue(EnterGuard(self.enters.clone()))).into()
    }
}

fn scripts(g: &mut Gen) {
    let (nodes, nev) = gen_tree(g, false);
    let pol = Policy {
        eager: g.bool(),
        rethrow: g.bool(),
        droppy: g.chance(1, 3),
        spurious: g.chance(1, 3),
        call_twice: g.chance(1, 8),
        faulty_block: g.chance(1, 16),
        late_wakes: g.bool(),
    };
    g.note(|| format!("{pol:?}"));
    let st = mk_st(nodes, nev, true, pol.rethrow);
    let n = g.us(64);
    let choices = g.fill(n);
    let sim = Arc::new(Sim {
        st: st.clone(),
        pol,
        tasks: Default::default(),
        choices: Mutex::new((choices, 0)),
        enters: Default::default(),
        blocks: AtomicUsize::new(0),
    });
    let ex: Exec = sim.clone().into();
    let local: ExecLocal = g.bool().then(|| std::rc::Rc::new(SimRef(sim.clone())).into()).unwrap_or_else(|| Box::new(SimRef(sim.clone())).into());
    let entered = g.below(3);
    let (e0, e1) = match entered {
        0 => (None, None),
        1 => (Some(ex.enter()), None),
        _ => (Some(ex.enter()), Some(local.enter())),
    };
    check_eq!(sim.enters.load(SeqCst), entered as i64, "enter");
    let main_guard = NodeGuard::new(0, &st);
    let how = g.below(3);
    let react = how == 2 && g.chance(1, 4);
    let mut polled_in_reactor = None;
    let main = {
        let ex2 = ex.clone();
        let slot = &mut polled_in_reactor;
        // borrows the stack
        let fut = async move {
            let o = run_node(ex2, main_guard).await;
            *slot = Some(::tokio::runtime::Handle::try_current().is_ok());
            o
        };
        catch_unwind(AssertUnwindSafe(|| match how {
            0 => ex.block_on(fut),
            1 => local.block_on(fut),
            _ if react => ex.block_on_within_tokio_reactor(fut),
            _ => ex.clone().block_on(fut),
        }))
    };
    if main.is_ok() {
        check_eq!(polled_in_reactor, Some(react), "reactor-context");
    }
    // drain
    if pol.late_wakes {
        st.stale();
    }
    let mut idle = 0;
    while idle < 20 {
        idle = if sim.step(false) { 0 } else { idle + 1 };
    }
    for e in 0..nev {
        st.fire(e, false);
    }
    let left = sim.tasks.lock().unwrap().iter().filter(|t| t.is_some()).count();
    if st.fail.lock().unwrap().is_none() {
        check!(left == 0, "lost-wake-up", "{left} task(s) still pending although every event has fired and no task is awake");
    }
    // break cycles through the executor's queue
    let ts = mem::take(&mut *sim.tasks.lock().unwrap());
    drop(ts);
    drop((e0, e1));
    check_eq!(sim.enters.load(SeqCst), 0, "enter");
    drop((ex, local));
    exempt(|| st.events.iter().for_each(|e| drop((mem::take(&mut *e.wakers.lock().unwrap()), mem::take(&mut *e.stale.lock().unwrap())))));
    judge(g, &st, main.map_err(|p| who(&*p)), pol.faulty_block);
    check_eq!(Arc::strong_count(&sim), 1, "executor-handles");
    drop(sim);
    check_eq!(Arc::strong_count(&st), 1, "captured-state");
}
/// `FfiFutureExecutor` for a borrowed-like handle (owned, clonable).
#[derive(Clone)]
struct SimRef(Arc<Sim>);
impl FfiFutureExecutor for SimRef {
    fn dyn_spawn(&self, f: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        self.0.dyn_spawn(f)
    }
    fn dyn_spawn_blocking(&self, f: repr_c::Box<dyn 'static + Send + FnMut()>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        self.0.dyn_spawn_blocking(f)
    }
    fn dyn_block_on(&self, f: VirtualPtr<dyn '_ + FfiFuture>) {
        self.0.dyn_block_on(f)
    }
    fn dyn_enter(&self) -> VirtualPtr<dyn '_ + DropGlue> {
        self.0.dyn_enter()
    }
}

// ------------------------------------------------------------ tokio

fn on_tokio(g: &mut Gen) {
    let (nodes, nev) = gen_tree(g, true);
    let st = mk_st(nodes, nev, false, true);
    let workers = g.range(1, 3);
    let shutdown = g.chance(1, 4).then(|| g.us(nev + 1));
    let order = g.us(24);
    let spins: Vec<u64> = (0..nev + 1).map(|_| *g.pick(&[0, 0, 10, 300, 20_000])).collect();
    g.note(|| format!("tokio with {workers} worker(s), shut down before event {shutdown:?}"));
    let rt = ::tokio::runtime::Builder::new_multi_thread().worker_threads(workers).build().unwrap();
    let ex: Exec = if g.bool() { Box::new(rt.handle().clone()).into() } else { Arc::new(rt.handle().clone()).into() };
    let mut evs: Vec<usize> = (0..nev).collect();
    let mut o = order;
    for i in (1..nev).rev() {
        evs.swap(i, o % (i + 1));
        o /= i + 1;
    }
    check!(::tokio::runtime::Handle::try_current().is_err(), "enter", "a runtime is already entered");
    let entered = g.chance(1, 4);
    {
        let e = ex.enter();
        check!(::tokio::runtime::Handle::try_current().is_ok(), "enter", "no current runtime after enter()");
        let _inner = entered.then(|| ex.enter());
        drop(_inner);
        check!(::tokio::runtime::Handle::try_current().is_ok(), "enter", "leaving an inner context left the outer one");
        drop(e);
    }
    check!(::tokio::runtime::Handle::try_current().is_err(), "enter", "still in the runtime after the guard was dropped");
    let guard = NodeGuard::new(0, &st);
    let mut rt = Some(rt);
    let main = std::thread::scope(|s| {
        let st2 = st.clone();
        let rt = &mut rt;
        s.spawn(move || {
            for k in 0..=nev {
                for _ in 0..spins[k] {
                    std::hint::spin_loop();
                }
                if shutdown == Some(k) {
                    rt.take().unwrap().shutdown_background();
                }
                if k < nev {
                    st2.fire(evs[k], false);
                }
            }
        });
        let (ex2, ex3) = (ex.clone(), ex.clone());
        catch_unwind(AssertUnwindSafe(move || ex2.block_on(run_node(ex3, guard))))
    })
    .map_err(|p| who(&*p));
    // every task ends, whether awaited or not
    let t = Instant::now();
    let busy = || st.made.iter().zip(&st.gone).any(|(m, d)| m.load(SeqCst) != d.load(SeqCst));
    while busy() {
        check!(t.elapsed() < Duration::from_secs(20), "task-never-ended", "a task neither completed nor was dropped within 20 s");
        std::thread::sleep(Duration::from_micros(50));
    }
    drop(ex);
    drop(rt);
    let main = main;
    // results of detached tasks die with their tasks
    let t = Instant::now();
    while st.results.load(SeqCst) != main.is_ok() as i64 && t.elapsed() < Duration::from_secs(20) {
        std::thread::sleep(Duration::from_micros(50));
    }
    judge(g, &st, main, false);
}

// ------------------------------------------------------------ wakers

/// Every call to wake a waker got from the context of a poll reaches the waker that was polled with.
struct WakerScript {
    /// (operation, operand) lists, one per poll
    polls: VecDeque<Vec<(u64, u64)>>,
    slots: Arc<Mutex<Vec<(usize, Option<W>)>>>,
    flags: Arc<Mutex<Vec<Arc<Flag>>>>,
    bad: Arc<Mutex<Option<String>>>,
}
impl WakerScript {
    fn expect(flags: &[Arc<Flag>], bad: &Mutex<Option<String>>, poll: usize, what: &str, f: impl FnOnce()) {
        let before = flags[poll].wakes.load(SeqCst);
        f();
        if flags[poll].wakes.load(SeqCst) == before {
            exempt(|| {
                bad.lock().unwrap().get_or_insert_with(|| format!("{what}: the waker of poll {poll} was not woken"));
            });
        }
    }
    fn op(&self, cx: Option<&Context<'_>>, (op, k): (u64, u64)) {
        let mut slots = self.slots.lock().unwrap();
        let flags = self.flags.lock().unwrap();
        let cur = flags.len() - 1;
        if let Some(cx) = cx {
            let ptr = <*const Context<'_>>::cast::<()>(cx);
            match op {
                0 => return exempt(|| slots.push((cur, Some(W::R(cx.waker().clone()))))),
                1 => {
                    let c = unsafe { rust_future_task_context_get_waker(ptr) };
                    return exempt(|| slots.push((cur, Some(W::C(c)))));
                }
                2 => return Self::expect(&flags, &self.bad, cur, "wake through the context", || cx.waker().wake_by_ref()),
                3 => {
                    return Self::expect(&flags, &self.bad, cur, "rust_future_task_context_wake", || unsafe {
                        rust_future_task_context_wake(ptr)
                    })
                }
                _ => {}
            }
        }
        if slots.is_empty() {
            return;
        }
        let i = k as usize % slots.len();
        let (poll, slot) = &mut slots[i];
        let poll = *poll;
        match (op, slot.as_ref()) {
            (_, None) => {}
            (4..=6, Some(w)) => Self::expect(&flags, &self.bad, poll, "wake by reference", || match w {
                W::R(w) => w.wake_by_ref(),
                W::C(c) => unsafe { (c.call)(c.env) },
            }),
            (7, Some(w)) => {
                let d = match w {
                    W::R(w) => W::R(w.clone()),
                    W::C(c) => W::C(c.dup()),
                };
                exempt(|| slots.push((poll, Some(d))));
            }
            (8, _) => *slot = None,
            (9, _) => {
                let w = slot.take().unwrap();
                Self::expect(&flags, &self.bad, poll, "wake by value", || match w {
                    W::R(w) => w.wake(),
                    W::C(c) => unsafe { (c.call)(c.env) },
                });
            }
            (10, _) => {
                let w = slot.take().unwrap();
                let flags = &flags;
                Self::expect(flags, &self.bad, poll, "wake from another thread", || {
                    exempt(|| {
                        std::thread::scope(|s| {
                            s.spawn(move || match &w {
                                W::R(w) => w.wake_by_ref(),
                                W::C(c) => unsafe { (c.call)(c.env) },
                            });
                        })
                    })
                });
            }
            _ => {}
        }
    }
}
impl Future for WakerScript {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let Some(ops) = self.polls.pop_front() else { return Poll::Ready(()) };
        for o in ops {
            self.op(Some(cx), o);
        }
        Poll::Pending
    }
}
fn wakers(g: &mut Gen) {
    let npolls = g.range(1, 4);
    let gen_ops = |g: &mut Gen, lo: u64| -> Vec<(u64, u64)> {
        let n = g.us(6);
        (0..n)
            .map(|_| {
                let w = if g.chance(1, 24) { 10 } else { lo + g.below(10 - lo) };
                (w, g.below(8))
            })
            .collect()
    };
    let scripts: Vec<_> = (0..npolls).map(|_| (gen_ops(g, 0), gen_ops(g, 4))).collect();
    let levels = g.us(3);
    let stop = g.chance(1, 4);
    g.note(|| format!("{levels} extra levels, (in the poll, after it): {scripts:?}{}", if stop { ", dropped before completion" } else { "" }));
    let (slots, flags, bad) = <(Arc<Mutex<Vec<(usize, Option<W>)>>>, Arc<Mutex<Vec<Arc<Flag>>>>, Arc<Mutex<Option<String>>>)>::default();
    let mk = || WakerScript { polls: VecDeque::new(), slots: slots.clone(), flags: flags.clone(), bad: bad.clone() };
    let outside = mk();
    let mut inner = mk();
    inner.polls = scripts.iter().map(|s| s.0.clone()).collect();
    let mut fut: VirtualPtr<dyn 'static + Send + FfiFuture> = Box::pin(inner).into();
    for _ in 0..levels {
        fut = Box::pin(fut.into_future()).into();
    }
    let mut fut: VirtualPtr<dyn 'static + FfiFuture> = Box::pin(fut.into_future()).into();
    let mut done = false;
    for k in 0..=npolls {
        let (f, w) = flag();
        exempt(|| flags.lock().unwrap().push(f));
        let r = Pin::new(&mut fut).dyn_poll(&mut Context::from_waker(&w));
        drop(w);
        if k == npolls {
            check!(matches!(r, PollFuture::Completed), "poll-result", "pending although the future is ready");
            done = true;
        } else {
            check!(matches!(r, PollFuture::Pending), "poll-result", "completed although the future is pending");
            for o in &scripts[k].1 {
                outside.op(None, *o);
            }
            if stop && k + 1 == npolls {
                break;
            }
        }
        if let Some(m) = bad.lock().unwrap().take() {
            fail_("lost-wake", m);
        }
    }
    drop(fut);
    for o in &scripts[npolls - 1].1 {
        outside.op(None, *o);
    }
    if let Some(m) = bad.lock().unwrap().take() {
        fail_("lost-wake", m);
    }
    let nslots = slots.lock().unwrap().len();
    exempt(|| {
        slots.lock().unwrap().clear();
        *slots.lock().unwrap() = vec![];
    });
    for (k, f) in flags.lock().unwrap().iter().enumerate() {
        check!(Arc::strong_count(f) == 1, "waker-leaked", "{} references to the waker of poll {k} are left", Arc::strong_count(f) - 1);
    }
    exempt(|| *flags.lock().unwrap() = vec![]);
    g.label(if done { "completed" } else { "dropped early" });
    if nslots > 0 {
        g.nontrivial();
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "F01",
        rule: "at least two tasks were created (wakers: at least one waker was kept)",
        subs: vec![
            Sub { name: "scripts", f: scripts, quick: 600_000, thorough: 8_000_000, leaks: true },
            Sub { name: "wakers", f: wakers, quick: 200_000, thorough: 4_000_000, leaks: true },
            Sub { name: "tokio", f: on_tokio, quick: 20_000, thorough: 400_000, leaks: false },
        ],
    }]
}
