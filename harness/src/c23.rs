//! The pool of connections, with things instead of connections: random histories of taking, returning, giving up and failing on a
//! simulated executor, with other callers let in wherever the pool calls foreign code (cloning and waking wakers, making an item),
//! and threads at full speed.
use {
    crate::rt::*,
    mysql_connector::pool::{AsyncPool, AsyncPoolContent, AsyncPoolContentError, AsyncPoolTrait, PoolItem},
    std::{
        cell::{Cell, RefCell},
        collections::VecDeque,
        fmt,
        future::Future,
        pin::Pin,
        rc::Rc,
        sync::{
            atomic::{AtomicBool, AtomicUsize, Ordering},
            mpsc, Arc, Barrier,
        },
        task::{Context, Poll, RawWaker, RawWakerVTable, Wake, Waker},
        time::Duration,
    },
};

// ------------------------------------------------------------------ the simulated world
#[derive(Default)]
struct World {
    live: Cell<usize>,
    making: Cell<usize>,
    most: Cell<usize>,
    failed: Cell<usize>,
    /// for the items to come: how often they are not ready yet, and whether they succeed
    script: RefCell<VecDeque<(usize, bool)>>,
    makers: RefCell<Vec<Waker>>,
}

impl fmt::Debug for World {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("World")
    }
}

impl World {
    fn count(&self) {
        self.most.set(self.most.get().max(self.live.get() + self.making.get()));
    }
}

struct Thing(Rc<World>);

impl Drop for Thing {
    fn drop(&mut self) {
        self.0.live.set(self.0.live.get() - 1);
    }
}

struct Make {
    w: Rc<World>,
    polls: usize,
    ok: bool,
    done: bool,
}

impl Drop for Make {
    fn drop(&mut self) {
        if !self.done {
            self.w.making.set(self.w.making.get() - 1);
        }
    }
}

impl Future for Make {
    type Output = Result<Thing, &'static str>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.polls > 0 {
            self.polls -= 1;
            let waker = cx.waker().clone();
            self.w.makers.borrow_mut().push(waker);
            return Poll::Pending;
        }
        let w = Rc::clone(&self.w);
        if self.ok {
            self.done = true;
            w.making.set(w.making.get() - 1);
            w.live.set(w.live.get() + 1);
            Poll::Ready(Ok(Thing(w)))
        } else {
            w.failed.set(w.failed.get() + 1);
            Poll::Ready(Err("no luck"))
        }
    }
}

impl AsyncPoolContentError for Thing {
    type Error = &'static str;
}

impl AsyncPoolContent<()> for Thing {
    type Ctx = Rc<World>;
    fn new<'a>(ctx: &'a Self::Ctx) -> Pin<Box<dyn Future<Output = Result<Self, Self::Error>> + 'a>> {
        let (polls, ok) = ctx.script.borrow_mut().pop_front().unwrap_or((0, true));
        ctx.making.set(ctx.making.get() + 1);
        ctx.count();
        hook("make");
        Box::pin(Make { w: Rc::clone(ctx), polls, ok, done: false })
    }
}

// ------------------------------------------------------------------ the simulated executor
type Take = Pin<Box<dyn Future<Output = Result<PoolItem<'static, Thing>, &'static str>>>>;

struct Task {
    fut: Option<Take>,
    flag: Rc<Cell<bool>>,
}

#[derive(Clone, Copy, Debug)]
enum Act {
    /// return an item
    Return(usize),
    /// the user of an item panics
    Unwind(usize),
    /// poll a caller that is awake
    Poll(usize),
    /// a caller gives up
    GiveUp(usize),
    /// the items being made go on
    Progress,
}

#[derive(Default)]
struct Sim {
    tasks: Vec<Task>,
    held: Vec<PoolItem<'static, Thing>>,
    inject: VecDeque<Act>,
    errors: usize,
    trace: String,
}

/// What is left of a history that failed is not taken apart.
fn forget() {
    SIM.with(|s| std::mem::forget(s.take()));
}

thread_local! {
    static SIM: RefCell<Sim> = RefCell::new(Sim::default());
    static WORLD: RefCell<Rc<World>> = RefCell::new(Rc::new(World::default()));
}

fn sim<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    SIM.with(|s| f(&mut s.borrow_mut()))
}

/// Foreign code: another caller acts here.
fn hook(at: &str) {
    let a = SIM.with(|s| s.try_borrow_mut().ok().and_then(|mut s| s.inject.pop_front()));
    if let Some(a) = a {
        sim(|s| s.trace += &format!(" <{at}:"));
        act(a);
        sim(|s| s.trace += ">");
    }
}

const TABLE: RawWakerVTable = RawWakerVTable::new(
    |p| {
        hook("clone");
        unsafe { Rc::increment_strong_count(p as *const Cell<bool>) };
        RawWaker::new(p, &TABLE)
    },
    |p| {
        let c = unsafe { Rc::from_raw(p as *const Cell<bool>) };
        c.set(true);
        hook("wake");
    },
    |p| {
        unsafe { (*(p as *const Cell<bool>)).set(true) };
        hook("wake");
    },
    |p| drop(unsafe { Rc::from_raw(p as *const Cell<bool>) }),
);

fn waker(flag: &Rc<Cell<bool>>) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(Rc::into_raw(Rc::clone(flag)) as *const (), &TABLE)) }
}

fn poll(i: usize) {
    let t = sim(|s| {
        let t = &mut s.tasks[i];
        // a task that is being polled further up keeps its wake-up for later
        let fut = t.fut.take()?;
        t.flag.set(false);
        let f = Rc::clone(&t.flag);
        s.trace += &format!(" poll{i}");
        Some((fut, f))
    });
    let Some((mut fut, flag)) = t else { return };
    let w = waker(&flag);
    let r = fut.as_mut().poll(&mut Context::from_waker(&w));
    match r {
        Poll::Pending => sim(|s| {
            s.trace += "=wait";
            s.tasks[i].fut = Some(fut);
        }),
        Poll::Ready(Ok(x)) => {
            drop(fut);
            sim(|s| {
                s.trace += "=item";
                s.held.push(x);
            })
        }
        Poll::Ready(Err(_)) => {
            drop(fut);
            sim(|s| {
                s.trace += "=failed";
                s.errors += 1;
            })
        }
    }
}

fn act(a: Act) {
    match a {
        Act::Return(k) => {
            let x = sim(|s| if s.held.is_empty() { None } else { let n = s.held.len(); s.trace += " return"; Some(s.held.swap_remove(k % n)) });
            drop(x);
        }
        Act::Unwind(k) => {
            let x = sim(|s| if s.held.is_empty() { None } else { let n = s.held.len(); s.trace += " return-by-panic"; Some(s.held.swap_remove(k % n)) });
            if let Some(x) = x {
                let _ = quiet(move || {
                    let _x = x;
                    panic!("user");
                });
            }
        }
        Act::Poll(k) => {
            let i = sim(|s| {
                let n = s.tasks.len();
                (0..n).map(|d| (k + d) % n).find(|i| s.tasks[*i].fut.is_some() && s.tasks[*i].flag.get())
            });
            if let Some(i) = i {
                poll(i);
            }
        }
        Act::GiveUp(k) => {
            let f = sim(|s| {
                let n = s.tasks.len();
                let i = (0..n).map(|d| (k + d) % n).find(|i| s.tasks[*i].fut.is_some())?;
                s.trace += &format!(" giveup{i}");
                s.tasks[i].fut.take()
            });
            drop(f);
        }
        Act::Progress => {
            let w = WORLD.with(|w| Rc::clone(&w.borrow()));
            let ws = std::mem::take(&mut *w.makers.borrow_mut());
            sim(|s| s.trace += " progress");
            for w in ws {
                w.wake();
            }
        }
    }
}

/// Everybody who is awake is polled, and items being made are finished, until nothing happens any more.
fn settle() -> bool {
    let w = WORLD.with(|w| Rc::clone(&w.borrow()));
    for _ in 0..5000 {
        let next = sim(|s| s.tasks.iter().position(|t| t.fut.is_some() && t.flag.get()));
        match next {
            Some(i) => poll(i),
            None if !w.makers.borrow().is_empty() => act(Act::Progress),
            None => return true,
        }
    }
    false
}

fn history<const N: usize>(cx: &mut Ctx) -> bool {
    let w = Rc::new(World::default());
    WORLD.with(|x| *x.borrow_mut() = Rc::clone(&w));
    forget();
    let pool: &'static AsyncPool<Thing, (), N> = Box::leak(Box::new(AsyncPool::new(Rc::clone(&w))));
    let fails = *cx.rng.pick(&[0u64, 0, 3, 8]);
    let slow = cx.rng.bool();
    for _ in 0..40 {
        let p = if slow { cx.rng.usize(3) } else { 0 };
        let ok = fails == 0 || !cx.rng.chance(fails);
        w.script.borrow_mut().push_back((p, ok));
    }
    let some_act = |r: &mut Rng| match r.below(8) {
        0..=3 => Act::Return(r.usize(8)),
        4..=5 => Act::Poll(r.usize(16)),
        6 => Act::GiveUp(r.usize(16)),
        _ => Act::Progress,
    };
    sim(|s| s.trace = format!("pool of {N}:"));
    let steps = 4 + cx.rng.usize(24);
    let injecting = cx.rng.bool();
    for _ in 0..=steps {
        if injecting && cx.rng.chance(3) {
            let a = some_act(&mut cx.rng);
            sim(|s| s.inject.push_back(a));
        }
        match cx.rng.below(9) {
            0..=2 => {
                let fut: Take = pool.get();
                let i = sim(|s| {
                    s.tasks.push(Task { fut: Some(fut), flag: Rc::new(Cell::new(true)) });
                    s.tasks.len() - 1
                });
                if !cx.rng.chance(4) {
                    poll(i);
                }
            }
            3..=4 => { let k = cx.rng.usize(8); act(if cx.rng.chance(6) { Act::Unwind(k) } else { Act::Return(k) }) }
            5 => act(Act::Poll(cx.rng.usize(16))),
            6 => if cx.rng.bool() { act(Act::GiveUp(cx.rng.usize(16))) },
            7 => act(Act::Progress),
            _ => {
                sim(|s| s.inject.clear());
                settle();
                if !calm::<N>(cx, &w) {
                    return false;
                }
            }
        }
        let most = w.most.get();
        if !cx.check(most <= N, "c23-capacity", || format!("{}: {most} items and items in the making at once", sim(|s| s.trace.clone()))) {
            return false;
        }
    }
    // everybody gets one in the end
    sim(|s| s.inject.clear());
    for _ in 0..200 {
        settle();
        if !calm::<N>(cx, &w) {
            return false;
        }
        if sim(|s| s.held.is_empty()) {
            break;
        }
        act(Act::Return(0));
    }
    let t = sim(|s| std::mem::take(&mut s.trace));
    let (waiting, errors) = sim(|s| (s.tasks.iter().filter(|t| t.fut.is_some()).count(), s.errors));
    cx.check(waiting == 0, "c23-stranded", || format!("{t}: {waiting} callers still wait with every item returned"))
        && cx.check(errors == w.failed.get(), "c23-error", || format!("{t}: {} items failed, {errors} callers were told", w.failed.get()))
        && cx.check(w.most.get() <= N, "c23-capacity", || format!("{t}: {} items and items in the making at once", w.most.get()))
        && { cx.case(&t, true); true }
}

fn calm<const N: usize>(cx: &mut Ctx, w: &World) -> bool {
    let (waiting, held) = sim(|s| (s.tasks.iter().filter(|t| t.fut.is_some()).count(), s.held.len()));
    let making = w.making.get();
    cx.check(waiting == 0 || held + making >= N, "c23-stranded", || {
        format!("{}: nothing moves any more, {waiting} callers wait, {held} items are in use and {making} are being made", sim(|s| s.trace.clone()))
    })
}

// ------------------------------------------------------------------ threads
#[derive(Debug, Default)]
struct Shared {
    live: AtomicUsize,
    most: AtomicUsize,
    n: AtomicUsize,
}

struct Part(Arc<Shared>);

impl Drop for Part {
    fn drop(&mut self) {
        self.0.live.fetch_sub(1, Ordering::SeqCst);
    }
}

impl AsyncPoolContentError for Part {
    type Error = ();
}

impl AsyncPoolContent<()> for Part {
    type Ctx = Arc<Shared>;
    fn new<'a>(ctx: &'a Self::Ctx) -> Pin<Box<dyn Future<Output = Result<Self, ()>> + 'a>> {
        let l = ctx.live.fetch_add(1, Ordering::SeqCst) + 1;
        ctx.most.fetch_max(l, Ordering::SeqCst);
        let p = Part(Arc::clone(ctx));
        let n = ctx.n.fetch_add(1, Ordering::SeqCst);
        let mut waited = n % 3 != 1;
        let mut p = Some(p);
        Box::pin(std::future::poll_fn(move |cx| {
            if !waited {
                waited = true;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            if n % 5 == 4 { p = None; Poll::Ready(Err(())) } else { Poll::Ready(Ok(p.take().unwrap())) }
        }))
    }
}

struct Parker(std::thread::Thread, AtomicBool);

impl Wake for Parker {
    fn wake(self: Arc<Self>) {
        self.1.store(true, Ordering::SeqCst);
        self.0.unpark();
    }
}

fn block_on<T>(mut f: Pin<Box<dyn Future<Output = T> + '_>>, patience: usize) -> Option<T> {
    let p = Arc::new(Parker(std::thread::current(), AtomicBool::new(false)));
    let w = Waker::from(Arc::clone(&p));
    let mut polls = 0;
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return Some(x);
        }
        polls += 1;
        if polls == patience {
            return None;
        }
        while !p.1.swap(false, Ordering::SeqCst) {
            std::thread::park();
        }
    }
}

fn threads<const N: usize>(cx: &mut Ctx, threads: usize, rounds: usize) {
    // a new pool for every round, everybody at once
    let shared: Vec<Arc<Shared>> = (0..rounds).map(|_| Arc::new(Shared::default())).collect();
    let pools: Arc<Vec<AsyncPool<Part, (), N>>> = Arc::new(shared.iter().map(|s| AsyncPool::new(Arc::clone(s))).collect());
    let gate = Arc::new(Barrier::new(threads));
    let (tx, rx) = mpsc::channel();
    for t in 0..threads {
        let (pools, gate, tx) = (Arc::clone(&pools), Arc::clone(&gate), tx.clone());
        std::thread::spawn(move || {
            let mut rng = Rng::new(t as u64 + 77);
            for p in pools.iter() {
                gate.wait();
                for _ in 0..2 {
                    // some give up early
                    let patience = if rng.chance(4) { 1 } else { usize::MAX };
                    let r = block_on(p.get(), patience);
                    if rng.bool() {
                        std::hint::spin_loop();
                    }
                    drop(r);
                }
                let _ = tx.send(());
            }
        });
    }
    let mut done = 0;
    while done < threads * rounds {
        match rx.recv_timeout(Duration::from_secs(30)) {
            Ok(()) => done += 1,
            Err(_) => {
                let k = done / threads;
                cx.check(false, "c23-stranded", || format!("{threads} threads, each taking from and returning to a pool of {N} twice, round {k}: no progress for 30 seconds"));
                return;
            }
        }
    }
    for (k, s) in shared.iter().enumerate() {
        let m = s.most.load(Ordering::SeqCst);
        if !cx.check(m <= N, "c23-capacity", || format!("{threads} threads taking from a pool of {N} at once, round {k}: {m} items and items in the making at once")) {
            return;
        }
    }
    cx.case(&format!("{threads} threads, pool of {N}, {rounds} rounds"), true);
}

pub fn main(cx: &mut Ctx) {
    cx.rule("a history of a pool of 1 to 4 items: takes, polls of callers that are awake, returns, callers giving up, items in the making that go on or fail, with further acts let in wherever the pool calls foreign code; after each step at most N items and items in the making, and whenever nothing moves nobody waits while fewer than N are in use; a failed item is reported to exactly one caller");
    let n = cx.n(6000, 60000);
    for i in 0..n {
        if !cx.time_left() {
            break;
        }
        let ok = match i % 4 {
            0 | 1 => history::<1>(cx),
            2 => history::<2>(cx),
            _ => history::<4>(cx),
        };
        if !ok {
            break;
        }
    }
    forget();
    let r = cx.n(1500, 15000);
    threads::<1>(cx, 4, r);
    threads::<2>(cx, 6, r);
}
