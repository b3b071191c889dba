//! Shared machinery: seeded random numbers, trace recording, virtual clock,
//! controlled scheduling of async operations and of threads.
#![allow(dead_code)]
use serde_json::{json, Value};
use std::cell::Cell;
use std::future::Future;
use std::io::Write;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

// ---------------------------------------------------------------- random
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

// ---------------------------------------------------------------- options, output
pub struct Opts {
    pub comp: String,
    pub fam: String,
    pub seed: u64,
    pub n: usize,
    pub scripts: Vec<Vec<Value>>,
    pub out: Out,
}

/// One line per trace: a JSON array of events, the first one being the configuration.
pub struct Out {
    f: std::io::BufWriter<std::fs::File>,
    pub traces: usize,
    pub events: usize,
}
impl Out {
    pub fn create(path: &str) -> Out {
        Out { f: std::io::BufWriter::new(std::fs::File::create(path).expect("create out")), traces: 0, events: 0 }
    }
    pub fn put(&mut self, tr: Vec<Value>) {
        self.traces += 1;
        self.events += tr.len();
        serde_json::to_writer(&mut self.f, &Value::Array(tr)).unwrap();
        self.f.write_all(b"\n").unwrap();
        self.f.flush().unwrap();
    }
}

/// The event that records op with its result.
pub fn ev(op: &Value, r: Value) -> Value {
    let mut o = op.clone();
    o.as_object_mut().unwrap().insert("r".into(), r);
    o
}
pub fn kind(k: &str) -> Value {
    json!({ "k": k })
}
pub fn s<'a>(v: &'a Value, f: &str) -> &'a str {
    v[f].as_str().unwrap_or_else(|| panic!("field {f} of {v}"))
}
pub fn i(v: &Value, f: &str) -> i64 {
    v[f].as_i64().unwrap_or_else(|| panic!("field {f} of {v}"))
}
pub fn b(v: &Value, f: &str) -> bool {
    v[f].as_bool().unwrap_or_else(|| panic!("field {f} of {v}"))
}

// ---------------------------------------------------------------- virtual clock
static VIRT: AtomicBool = AtomicBool::new(false);
static VOFF_NS: AtomicI64 = AtomicI64::new(0);
const REAL_BASE: i64 = 1_800_000_000;
const MONO_BASE: i64 = 1_000_000;

/// Replaces libc's clock_gettime in this binary: when virtual time is on, std and chrono
/// clocks stand still except for `vadvance_ms`.  Every read is also a scheduling point.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if VIRT.load(SeqCst) && (clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_MONOTONIC) {
        hook();
        let base = if clk == libc::CLOCK_REALTIME { REAL_BASE } else { MONO_BASE };
        let off = VOFF_NS.load(SeqCst);
        (*ts).tv_sec = base + off.div_euclid(1_000_000_000);
        (*ts).tv_nsec = off.rem_euclid(1_000_000_000);
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}
pub fn virtual_clock(on: bool) {
    VOFF_NS.store(0, SeqCst);
    VIRT.store(on, SeqCst);
}
pub fn vadvance_ms(ms: i64) {
    VOFF_NS.fetch_add(ms * 1_000_000, SeqCst);
}
pub fn vnow_ms() -> i64 {
    VOFF_NS.load(SeqCst) / 1_000_000
}
/// Milliseconds since the virtual epoch of a chrono time.
pub fn rel_ms(t: chrono::DateTime<chrono::Utc>) -> i64 {
    t.timestamp_millis() - REAL_BASE * 1000
}

// ---------------------------------------------------------------- async: settle and time
pub async fn settle_n(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}
pub async fn settle() {
    settle_n(40).await
}
/// Advance tokio's paused clock and the virtual clock together, in steps of `step` ms.
pub async fn advance(ms: i64, step: i64) {
    let mut left = ms;
    while left > 0 {
        let d = left.min(step);
        vadvance_ms(d);
        tokio::time::advance(std::time::Duration::from_millis(d as u64)).await;
        settle_n(20).await;
        left -= d;
    }
    settle().await;
}
pub fn paused_rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}
pub fn plain_rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

// ---------------------------------------------------------------- async: controlled scheduler
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
struct NoWake;
impl Wake for NoWake {
    fn wake(self: Arc<Self>) {}
}

thread_local! { static BUDGET: Cell<usize> = const { Cell::new(0) }; }

fn consume_one() -> bool {
    let w: Waker = Arc::new(NoWake).into();
    let mut cx = Context::from_waker(&w);
    let f = tokio::task::consume_budget();
    let mut f = std::pin::pin!(f);
    f.as_mut().poll(&mut cx).is_ready()
}
/// How many tokio operations a fresh poll may perform before tokio forces it to yield.
async fn measure_budget() -> usize {
    let b = BUDGET.with(|b| b.get());
    if b > 0 {
        return b;
    }
    tokio::task::yield_now().await;
    let mut n = 0;
    while n < 100_000 && consume_one() {
        n += 1;
    }
    tokio::task::yield_now().await;
    BUDGET.with(|b| b.set(n));
    n
}

pub type Fut = Pin<Box<dyn Future<Output = Value>>>;

/// Runs operations concurrently, each poll being allowed exactly one tokio operation
/// (lock, channel, timer), so that every await is a preemption point; `choose` picks the
/// next runnable one.  Calls and returns are recorded in `tr` in their real order.
/// Returns false if the operations got stuck.
pub struct Conc<'a> {
    pub tr: &'a mut Vec<Value>,
    pub choose: &'a mut dyn FnMut(&[usize]) -> usize,
}
impl Conc<'_> {
    pub async fn run(&mut self, ops: Vec<(Vec<Value>, Box<dyn FnMut(&Value) -> Fut>)>) -> bool {
        let budget = measure_budget().await;
        struct P {
            ops: Vec<Value>,
            next: usize,
            mk: Box<dyn FnMut(&Value) -> Fut>,
            cur: Option<Fut>,
            flag: Arc<Flag>,
        }
        let mut ps: Vec<P> = ops
            .into_iter()
            .map(|(ops, mk)| P { ops, next: 0, mk, cur: None, flag: Arc::new(Flag(AtomicBool::new(true))) })
            .collect();
        let mut stuck = 0;
        loop {
            let live: Vec<usize> = (0..ps.len()).filter(|&k| ps[k].cur.is_some() || ps[k].next < ps[k].ops.len()).collect();
            if live.is_empty() {
                return true;
            }
            let runnable: Vec<usize> =
                live.iter().copied().filter(|&k| ps[k].cur.is_none() || ps[k].flag.0.load(SeqCst)).collect();
            if runnable.is_empty() {
                settle().await;
                stuck += 1;
                if stuck > 3 {
                    for k in live {
                        self.tr.push(json!({"e":"ret","p":k,"r":kind("hang")}));
                    }
                    return false;
                }
                continue;
            }
            stuck = 0;
            let k = (self.choose)(&runnable);
            let p = &mut ps[k];
            // tokio takes a free lock before it looks at the budget: the first poll gets none, so
            // that an operation can also be stopped while it holds its first lock and others queue
            // for it (or share it) before it goes on.
            let first = p.cur.is_none();
            if first {
                let op = p.ops[p.next].clone();
                p.next += 1;
                self.tr.push(json!({"e":"call","p":k,"op":op.clone()}));
                p.cur = Some((p.mk)(&op));
                p.flag.0.store(true, SeqCst);
            }
            p.flag.0.store(false, SeqCst);
            tokio::task::yield_now().await; // fresh budget
            for _ in 0..budget.saturating_sub(usize::from(!first)) {
                consume_one();
            }
            let w: Waker = p.flag.clone().into();
            let mut cx = Context::from_waker(&w);
            let r = p.cur.as_mut().unwrap().as_mut().poll(&mut cx);
            if let Poll::Ready(v) = r {
                p.cur = None;
                p.flag.0.store(true, SeqCst);
                self.tr.push(json!({"e":"ret","p":k,"r":v}));
            }
            tokio::task::yield_now().await; // deferred wake-ups
        }
    }
}

// ---------------------------------------------------------------- threads: controlled preemption
// A controlled thread counts the scheduling points it passes (clock reads, callbacks) and stops
// at a chosen one until it is released.
thread_local! {
    static CTL: Cell<Option<&'static Ctl>> = const { Cell::new(None) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
}
pub struct Ctl {
    stop_at: u32,
    stopped: AtomicU32,
    release: AtomicU32,
    done: AtomicU32,
}
fn nap() {
    unsafe {
        let ts = libc::timespec { tv_sec: 0, tv_nsec: 20_000 };
        libc::nanosleep(&ts, std::ptr::null_mut());
    }
}
/// A scheduling point.
pub fn hook() {
    let c = match CTL.try_with(|c| c.get()) {
        Ok(Some(c)) => c,
        _ => return,
    };
    let n = COUNT.with(|x| {
        x.set(x.get() + 1);
        x.get()
    });
    if n == c.stop_at {
        c.stopped.store(1, SeqCst);
        while c.release.load(SeqCst) == 0 {
            nap();
        }
    }
}
/// Runs `a` in a thread up to its `k`-th scheduling point, then `b` in another one (to its end,
/// or until it blocks behind `a`), then lets `a` finish.  Records call/return events.
/// Returns true if `a` has a k-th scheduling point.
pub fn preempt(
    tr: &mut Vec<Value>,
    k: u32,
    a: (Value, Box<dyn FnOnce(&Value) -> Value + Send>),
    b: (Value, Box<dyn FnOnce(&Value) -> Value + Send>),
) -> bool {
    let ctl: &'static Ctl = Box::leak(Box::new(Ctl {
        stop_at: k,
        stopped: AtomicU32::new(0),
        release: AtomicU32::new(0),
        done: AtomicU32::new(0),
    }));
    let log = Arc::new(std::sync::Mutex::new(Vec::<Value>::new()));
    let bdone = Arc::new(AtomicBool::new(false));
    let (opa, fa) = a;
    let (opb, fb) = b;
    log.lock().unwrap().push(json!({"e":"call","p":0,"op":opa}));
    let la = log.clone();
    let ta = std::thread::spawn(move || {
        CTL.with(|c| c.set(Some(ctl)));
        let r = guard(|| fa(&opa));
        CTL.with(|c| c.set(None));
        la.lock().unwrap().push(json!({"e":"ret","p":0,"r":r}));
        ctl.done.store(1, SeqCst);
    });
    while ctl.stopped.load(SeqCst) == 0 && ctl.done.load(SeqCst) == 0 {
        nap();
    }
    let hit = ctl.stopped.load(SeqCst) == 1;
    log.lock().unwrap().push(json!({"e":"call","p":1,"op":opb}));
    let lb = log.clone();
    let bd = bdone.clone();
    let tb = std::thread::spawn(move || {
        let r = guard(|| fb(&opb));
        lb.lock().unwrap().push(json!({"e":"ret","p":1,"r":r}));
        bd.store(true, SeqCst);
    });
    let mut waits = 0;
    while !bdone.load(SeqCst) && waits < 300 {
        nap();
        waits += 1;
    }
    ctl.release.store(1, SeqCst);
    ta.join().unwrap();
    tb.join().unwrap();
    tr.append(&mut log.lock().unwrap());
    hit
}

/// A panic in the code under test is an observation.
pub fn guard(f: impl FnOnce() -> Value) -> Value {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => kind("panic"),
    }
}
pub async fn guard_async(f: impl Future<Output = Value>) -> Value {
    use futures::FutureExt;
    match std::panic::AssertUnwindSafe(f).catch_unwind().await {
        Ok(v) => v,
        Err(_) => kind("panic"),
    }
}
/// Polls a future for at most `n` scheduler rounds.
pub async fn bounded<T>(n: usize, f: impl Future<Output = T>) -> Option<T> {
    tokio::select! { biased; v = f => Some(v), _ = settle_n(n) => None }
}

// ---------------------------------------------------------------- schedule enumeration
/// Depth-first enumeration of the choices of a deterministic run.
#[derive(Default)]
pub struct Dfs {
    path: Vec<(usize, usize)>,
    pos: usize,
}
impl Dfs {
    pub fn start(&mut self) {
        self.pos = 0;
    }
    pub fn choose(&mut self, runnable: &[usize]) -> usize {
        if self.pos == self.path.len() {
            self.path.push((0, runnable.len()));
        }
        let (c, _) = self.path[self.pos];
        self.pos += 1;
        runnable[c.min(runnable.len() - 1)]
    }
    /// Moves to the next unexplored schedule; false when all have been run.
    pub fn next(&mut self) -> bool {
        self.path.truncate(self.pos);
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n {
                self.path.push((c + 1, n));
                return true;
            }
        }
        false
    }
}

/// Runs `body` for up to `cap` schedules: all of them if there are no more than that,
/// otherwise a mix of the first ones in depth-first order and seeded random ones.
pub fn schedules(cap: usize, seed: u64, mut body: impl FnMut(&mut dyn FnMut(&[usize]) -> usize)) {
    let mut d = Dfs::default();
    let half = cap.div_ceil(2);
    for n in 0..cap {
        d.start();
        body(&mut |r| d.choose(r));
        if !d.next() {
            return;
        }
        if n + 1 >= half {
            break;
        }
    }
    for n in half..cap {
        let mut rng = Rng::new(seed ^ (n as u64) << 20);
        // bursts: keep running the same operation for a while
        let mut last = usize::MAX;
        body(&mut |r| {
            if r.contains(&last) && rng.chance(1, 2) {
                return last;
            }
            last = *rng.pick(r);
            last
        });
    }
}

// ---------------------------------------------------------------- driving a system under test
pub type Exec = std::rc::Rc<dyn Fn(Value) -> Fut>;
/// Wraps a system under test (`exec(self: Rc<Self>, op) -> result`) as an Exec.
#[macro_export]
macro_rules! mk_exec {
    ($x:expr) => {{
        let x = $x;
        let f: $crate::core::Exec = std::rc::Rc::new(move |op: serde_json::Value| -> $crate::core::Fut { Box::pin($crate::core::guard_async(x.clone().exec(op))) });
        f
    }};
}
/// Runs a sequence of operations on a fresh system under test and records the trace.
pub async fn play_seq(o: &mut Opts, ex: Exec, c: Value, ops: Vec<Value>, looks: bool) {
    play_seq_n(o, 2000, ex, c, ops, looks).await
}
/// `rounds`: how many scheduler rounds an operation may take.
pub async fn play_seq_n(o: &mut Opts, rounds: usize, ex: Exec, c: Value, ops: Vec<Value>, looks: bool) {
    let mut tr = vec![c];
    for op in ops {
        match bounded(rounds, ex(op.clone())).await {
            Some(r) => {
                let stop = r["k"] == "panic";
                tr.push(ev(&op, r));
                if stop {
                    break;
                }
            }
            None => {
                tr.push(ev(&op, kind("hang")));
                break;
            }
        }
        if looks && op["e"] != "look" {
            let l = json!({"e":"look"});
            let r = ex(l.clone()).await;
            tr.push(ev(&l, r));
        }
    }
    o.out.put(tr);
}
/// Concurrent sets of operations between a prefix and a suffix, over many schedules.
pub fn play_conc(o: &mut Opts, mk: &dyn Fn(&Value) -> Exec, cfg: &Value, pre: &[Value], sets: &[Vec<Vec<Value>>], post: &[Value]) {
    let (cap, seed) = (o.n, o.seed);
    for (si, set) in sets.iter().enumerate() {
        schedules(cap, seed + si as u64, |choose| {
            paused_rt().block_on(async {
                let ex = mk(cfg);
                let mut tr = vec![cfg.clone()];
                for op in pre {
                    tr.push(ev(op, ex(op.clone()).await));
                }
                let procs = set
                    .iter()
                    .map(|ops| {
                        let ex = ex.clone();
                        let mk: Box<dyn FnMut(&Value) -> Fut> = Box::new(move |op| ex(op.clone()));
                        (ops.clone(), mk)
                    })
                    .collect();
                if (Conc { tr: &mut tr, choose }).run(procs).await {
                    for op in post {
                        tr.push(ev(op, ex(op.clone()).await));
                    }
                }
                o.out.put(tr);
            });
        });
    }
}
