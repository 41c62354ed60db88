//! Buffers from the pool.
use {
    crate::{mock::*, rt::*},
    mysql_connector::{
        pool::{PoolItem, SyncPool, SyncPoolContent, VecPoolCtx},
        types::Value,
        Connection,
    },
    std::sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
};

/// One history of taking, filling and returning over a pool of `N` buffers.
fn history<T: Clone + Default + PartialEq + std::fmt::Debug, const N: usize>(cx: &mut Ctx, make: impl Fn(&mut Rng) -> T) {
    let size_cap = *cx.rng.pick(&[0usize, 1, 16, 100, 4096]);
    let init_size = *cx.rng.pick(&[0usize, 1, 16, 64, 5000]);
    let pool: SyncPool<Vec<T>, N> = SyncPool::new(VecPoolCtx { size_cap, init_size });
    let mut held: Vec<PoolItem<'_, Vec<T>>> = vec![];
    let mut trace = format!("pool of {N}, size_cap {size_cap}, init_size {init_size}:");
    let steps = 5 + cx.rng.usize(40);
    for _ in 0..steps {
        match cx.rng.below(4) {
            0 | 1 => {
                let mut b = pool.get();
                trace += " get";
                if !cx.check(b.is_empty(), "c20-dirty", || format!("{trace}: the buffer holds {} elements: {}", b.len(), short(&format!("{:?}", *b)))) { return; }
                let cap = b.capacity();
                if !cx.check(cap <= size_cap.max(init_size), "c20-capacity", || format!("{trace}: the buffer has room for {cap} elements")) { return; }
                let n = *cx.rng.pick(&[0usize, 1, 3, 16, 17, 90, 101, 5000]);
                for _ in 0..n { let x = make(&mut cx.rng); b.push(x); }
                trace += &format!("+{n}");
                if cx.rng.chance(5) { let k = cx.rng.usize(n + 1); b.truncate(k); trace += &format!("-{k}"); }
                if cx.rng.chance(8) { b.reserve(9000); trace += "+room"; }
                held.push(b);
            }
            2 => if !held.is_empty() {
                let k = cx.rng.usize(held.len());
                drop(held.swap_remove(k));
                trace += " put";
            },
            _ => {
                // returned while unwinding
                if cx.rng.chance(3) {
                    let fill: Vec<T> = (0..20).map(|_| make(&mut cx.rng)).collect();
                    let _ = quiet(|| {
                        let mut b = pool.get();
                        b.extend(fill);
                        panic!("user");
                    });
                    trace += " put-by-panic";
                } else {
                    while held.len() > 1 { held.pop(); }
                    trace += " put-most";
                }
            }
        }
    }
    cx.case(&trace, true);
}

/// The same item type a user may write: reset must run once for every return.
struct Own { n: Arc<AtomicUsize>, dirty: Option<u32> }
impl SyncPoolContent for Own {
    type Ctx = Arc<AtomicUsize>;
    fn new(ctx: &Self::Ctx) -> Self { Own { n: ctx.clone(), dirty: None } }
    fn reset(&mut self, ctx: &Self::Ctx) { assert!(Arc::ptr_eq(ctx, &self.n)); self.dirty = None; ctx.fetch_add(1, Ordering::SeqCst); }
}

fn custom(cx: &mut Ctx) {
    let count = Arc::new(AtomicUsize::new(0));
    let pool: SyncPool<Own, 3> = SyncPool::new(count.clone());
    let rounds = 1 + cx.rng.usize(6);
    let mut returned = 0;
    for r in 0..rounds {
        let k = 1 + cx.rng.usize(6);
        let mut items: Vec<_> = (0..k).map(|_| pool.get()).collect();
        let desc = format!("own content, round {r}, {k} items");
        cx.case(&desc, true);
        for i in items.iter_mut() {
            cx.check(i.dirty.is_none(), "c20-dirty", || format!("{desc}: an item carries {:?}", i.dirty));
            i.dirty = Some(r as u32);
        }
        drop(items);
        returned += k;
        let c = count.load(Ordering::SeqCst);
        cx.check(c <= returned, "c20-reset", || format!("{desc}: reset ran {c} times for {returned} items"));
    }
}

fn threads(cx: &mut Ctx) {
    let pool: Arc<SyncPool<Vec<u8>, 4>> = Arc::new(SyncPool::new(VecPoolCtx { size_cap: 64, init_size: 8 }));
    let bad = Arc::new(Mutex::new(None));
    let seed = cx.rng.next();
    let n = cx.n(300, 20_000);
    cx.case(&format!("8 threads, {n} buffers each, seed {seed}"), true);
    std::thread::scope(|s| {
        for t in 0..8u64 {
            let (pool, bad) = (pool.clone(), bad.clone());
            s.spawn(move || {
                let mut rng = Rng::new(seed ^ t);
                let mut held = vec![];
                for _ in 0..n {
                    let mut b = pool.get();
                    if !b.is_empty() || b.capacity() > 64 { *bad.lock().unwrap() = Some(format!("a buffer with {} bytes ({}) and room for {}", b.len(), hexs(&b), b.capacity())); return; }
                    let k = rng.usize(200);
                    b.resize(k, t as u8 + 1);
                    held.push(b);
                    if held.len() > 3 { held.remove(rng.usize(4)); }
                    if let Some(b) = held.first() { if b.iter().any(|x| *x != t as u8 + 1) { *bad.lock().unwrap() = Some("a buffer changed while it was held".into()); return; } }
                }
            });
        }
    });
    let b = bad.lock().unwrap().clone();
    cx.check(b.is_none(), "c20-dirty", || format!("threads: {}", b.unwrap_or_default()));
}

/// Connections share one pool: what one sends or reads must not appear with another.
fn connections(cx: &mut Ctx) {
    let k = 3;
    let steps = 6 + cx.rng.usize(20);
    let hs: Vec<Handle> = (0..k).map(|_| handle()).collect();
    let seed = cx.rng.next();
    let desc = format!("{k} connections, {steps} commands, seed {seed}");
    cx.case(&desc, true);
    let hs2 = hs.clone();
    let r = quiet(move || run(async move {
        let mut rng = Rng::new(seed);
        let mut cs: Vec<Option<Connection>> = vec![];
        let replies: Vec<Arc<Mutex<Vec<u8>>>> = (0..k).map(|_| Default::default()).collect();
        for (h, rep) in hs2.iter().zip(&replies) {
            let rep = rep.clone();
            cs.push(Some(connected(h, move |w, p| {
                let text = rep.lock().unwrap().clone();
                if p[1..].starts_with(b"cut") {
                    // a reply that breaks off
                    w.raw(&[200, 0, 0, 1]);
                    w.raw(&text[..text.len().min(150)]);
                    *w.eof = true;
                } else if p[1..].starts_with(b"row") {
                    send_columns(w, &[Col::new("c", 253, 0)]);
                    w.send(&lenenc_str(&text));
                    w.send(&eof_packet(2, 0));
                } else { w.send(&ok_packet(1, 0, 2, 0)); }
            }).await));
        }
        for step in 0..steps {
            let i = rng.usize(k);
            let Some(c) = cs[i].as_mut() else { continue };
            let n = *rng.pick(&[0usize, 1, 5, 200, 1500, 70_000]);
            let body: String = (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect();
            *replies[i].lock().unwrap() = body.bytes().rev().collect();
            let sql = match rng.below(5) { 0 => format!("row{body}"), 1 => format!("cut{body}"), _ => format!("run{body}") };
            hs2[i].lock().unwrap().payloads.clear();
            if sql.starts_with("row") {
                let rows = async { c.query::<Vec<Value>>(&sql).await?.collect().await }.await;
                let want: Vec<u8> = body.bytes().rev().collect();
                let ok = matches!(&rows, Ok(r) if r.len() == 1 && r[0].len() == 1 && matches!(&r[0][0], Value::Bytes(b) if *b == want));
                if !ok { return Err(format!("step {step}: connection {i} read {} for a value of {n} bytes", short(&format!("{rows:?}")))); }
            } else {
                let r = c.execute_query(&sql).await;
                if sql.starts_with("cut") {
                    if r.is_ok() { return Err(format!("step {step}: a reply that broke off was read as {r:?}")); }
                    cs[i] = None;
                } else if let Err(e) = r { return Err(format!("step {step}: {e:?}")); }
            }
            let s = hs2[i].lock().unwrap();
            let want: Vec<u8> = std::iter::once(3).chain(sql.bytes()).collect();
            if s.payloads.len() != 1 || s.payloads[0].1 != want {
                return Err(format!("step {step}: connection {i} sent {} packets, the first {}, instead of {}", s.payloads.len(), s.payloads.first().map(|p| hexs(&p.1)).unwrap_or_default(), hexs(&want)));
            }
        }
        Ok(())
    }));
    match r {
        Err(m) => cx.fail("c20-panic", format!("{desc}: {m}")),
        Ok(r) => { cx.check(r.is_ok(), "c20-mixed", || format!("{desc}: {}", r.unwrap_err())); }
    }
}

pub fn main(cx: &mut Ctx) {
    cx.rule("random histories of taking, filling, dropping (also while unwinding) and taking again over pools of several sizes and capacities: every buffer taken is empty and no larger than configured");
    for _ in 0..cx.n(400, 20_000) {
        history::<u8, 1>(cx, |r| r.u8());
        history::<u8, 4>(cx, |r| r.u8());
        history::<u64, 3>(cx, |r| r.next());
    }
    cx.rule("content with its own reset; eight threads over one pool");
    for _ in 0..cx.n(50, 500) { custom(cx); }
    for _ in 0..cx.n(2, 10) { threads(cx); }
    cx.rule("three connections over the shared pool with replies that break off: every command and every value arrives whole and alone");
    for _ in 0..cx.n(80, 2000) { connections(cx); }
}
