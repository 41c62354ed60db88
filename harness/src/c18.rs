//! The migrator: order, selection, records.
use {
    crate::{mock::*, rt::*},
    mysql_connector::{
        error::Error,
        pool::{AsyncPool, AsyncPoolTrait, PoolItem},
        Connection, Migration, MigrationList, Migrator, Version,
    },
    std::{
        cmp::Ordering,
        collections::{BTreeSet, HashMap},
        future::Future,
        pin::Pin,
        sync::{Arc, Mutex},
        task::Poll,
    },
};

type V = (u16, u16, u16);
type Key = (V, String);

#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
    Up(Key, bool),
    Down(Key, bool),
    Insert(Key, bool),
    Delete(Key, bool),
}

/// The database, and everything that happened to it.
#[derive(Default)]
struct Db {
    has_table: bool,
    table: BTreeSet<Key>,
    log: Vec<Ev>,
    /// the step that fails (migrations, hand-outs of connections and records are counted)
    fail_at: Option<usize>,
    step: usize,
    /// hand-outs fail only while the migrator itself asks
    inside: bool,
    odd: Vec<String>,
}
type Shared = Arc<Mutex<Db>>;

fn fails(db: &mut Db) -> bool {
    let n = db.step;
    db.step += 1;
    db.fail_at == Some(n)
}

/// `(a, b, c, "name")` or the where clause of the same columns, whatever the spacing.
fn read_insert(s: &str) -> Option<Key> {
    let open = s.find('(')?;
    let close = s[open..].find(')')? + open;
    let cols: Vec<String> = s[open + 1..close].split(',').map(|x| x.trim().trim_matches('`').to_owned()).collect();
    let rest = &s[close + 1..];
    let rest = &rest[rest.find('(')? + 1..rest.rfind(')')?];
    let vals: Vec<&str> = rest.splitn(cols.len(), ',').map(|x| x.trim()).collect();
    key_of(cols.iter().map(|x| x.as_str()).zip(vals))
}
fn read_delete(s: &str) -> Option<Key> {
    let w = &s[s.find("where")? + 5..];
    key_of(w.split(" and ").filter_map(|x| x.split_once('=')).map(|(a, b)| (a.trim().trim_matches('`'), b.trim())))
}
fn key_of<'a>(it: impl Iterator<Item = (&'a str, &'a str)>) -> Option<Key> {
    let (mut v, mut n): ([Option<u16>; 3], Option<String>) = ([None; 3], None);
    for (c, x) in it {
        match c {
            "version_0" => v[0] = Some(x.parse().ok()?),
            "version_1" => v[1] = Some(x.parse().ok()?),
            "version_2" => v[2] = Some(x.parse().ok()?),
            "name" => n = Some(x.strip_prefix(['"', '\''])?.strip_suffix(['"', '\''])?.to_owned()),
            _ => return None,
        }
    }
    Some(((v[0]?, v[1]?, v[2]?), n?))
}

fn serve(db: &Shared, w: &mut Wire, p: &[u8]) {
    let mut db = db.lock().unwrap();
    if p.first() != Some(&3) {
        w.send(&ok_packet(0, 0, 2, 0));
        return;
    }
    let q = String::from_utf8_lossy(&p[1..]).into_owned();
    let low = q.trim_start().to_lowercase();
    let ok = ok_packet(1, 0, 2, 0);
    let refused = err_packet(1146, b"42S02", "refused");
    let rows = |w: &mut Wire, cols: &[Col], rows: Vec<Vec<Vec<u8>>>| {
        send_columns(w, cols);
        for r in rows {
            w.send(&r.iter().flat_map(|x| lenenc_str(x)).collect::<Vec<u8>>());
        }
        w.send(&eof_packet(2, 0));
    };
    if low.starts_with("select 1") {
        let n = db.has_table as usize;
        rows(w, &[Col::new("1", 8, 1)], vec![vec![b"1".to_vec()]; n]);
    } else if low.starts_with("create table") {
        db.has_table = true;
        w.send(&ok);
    } else if low.starts_with("select") {
        if !db.has_table {
            w.send(&refused);
            return;
        }
        // the columns in the order asked for
        let list = &low[6..low.find("from").unwrap_or(6)];
        let names: Vec<String> = list.split(',').map(|x| x.trim().trim_matches('`').to_owned()).collect();
        let cols: Vec<Col> = names.iter().map(|n| if n == "name" { Col::new(n, 253, 0) } else { Col::new(n, 2, 0x20) }).collect();
        let data = db
            .table
            .iter()
            .map(|((a, b, c), n)| {
                names
                    .iter()
                    .map(|x| match x.as_str() {
                        "version_0" => a.to_string().into_bytes(),
                        "version_1" => b.to_string().into_bytes(),
                        "version_2" => c.to_string().into_bytes(),
                        _ => n.clone().into_bytes(),
                    })
                    .collect()
            })
            .collect();
        rows(w, &cols, data);
    } else if low.starts_with("insert") {
        match read_insert(&q) {
            Some(k) => {
                let bad = fails(&mut db) || db.table.contains(&k) || !db.has_table;
                db.log.push(Ev::Insert(k.clone(), !bad));
                if bad { w.send(&refused) } else { db.table.insert(k); w.send(&ok) }
            }
            None => { db.odd.push(q); w.send(&refused) }
        }
    } else if low.starts_with("delete") {
        match read_delete(&q) {
            Some(k) => {
                let bad = fails(&mut db);
                db.log.push(Ev::Delete(k.clone(), !bad));
                if bad { w.send(&refused) } else { db.table.remove(&k); w.send(&ok) }
            }
            None => { db.odd.push(q); w.send(&refused) }
        }
    } else {
        w.send(&ok);
    }
}

/// Several connections; asking for one may fail.
struct Pool {
    pools: Vec<AsyncPool<Connection, Mock<false>, 1>>,
    db: Shared,
}
type Got<'a> = Pin<Box<dyn Future<Output = Result<PoolItem<'a, Connection>, Error>> + 'a>>;
impl AsyncPoolTrait<Connection> for Pool {
    fn get(&self) -> Got<'_> {
        Box::pin(async move {
            {
                let mut db = self.db.lock().unwrap();
                if db.inside && fails(&mut db) {
                    return Err(Error::Protocol(mysql_connector::error::ProtocolError::OutOfSync));
                }
            }
            let mut asked: Vec<Got> = self.pools.iter().map(|p| p.get()).collect();
            std::future::poll_fn(move |cx| {
                for a in &mut asked {
                    if let Poll::Ready(x) = a.as_mut().poll(cx) { return Poll::Ready(x); }
                }
                Poll::Pending
            })
            .await
        })
    }
}
async fn pool(db: &Shared) -> Pool {
    let mut pools = vec![];
    for _ in 0..3 {
        let h = handle();
        greet(&h, &Greeting::default());
        let d = db.clone();
        accept(&h, move |w, p| serve(&d, w, p));
        let p = AsyncPool::<Connection, Mock<false>, 1>::new(Arc::new(options::<false>(&h)));
        drop(p.get().await.expect("connect to the mock server"));
        pools.push(p);
    }
    Pool { pools, db: db.clone() }
}

struct M {
    key: Key,
    db: Mutex<Option<Shared>>,
}
impl M {
    fn go<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>, up: bool) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        Box::pin(async move {
            let db = self.db.lock().unwrap().clone().unwrap();
            {
                let mut d = db.lock().unwrap();
                let bad = fails(&mut d);
                d.log.push(if up { Ev::Up(self.key.clone(), !bad) } else { Ev::Down(self.key.clone(), !bad) });
                if bad { return Err(Error::Protocol(mysql_connector::error::ProtocolError::OutOfSync)); }
                d.inside = false;
            }
            let r = pool.get().await?.execute_query("alter table `x` add `y` int").await.map(|_| {});
            db.lock().unwrap().inside = true;
            r
        })
    }
}
impl Migration for M {
    fn name(&self) -> &'static str { Box::leak(self.key.1.clone().into_boxed_str()) }
    fn up<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> { self.go(pool, true) }
    fn down<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> { self.go(pool, false) }
}

fn lists(shape: &[(V, Vec<String>)], db: &Shared) -> Vec<MigrationList> {
    shape
        .iter()
        .map(|(v, names)| {
            let ms: Vec<&'static dyn Migration> = names
                .iter()
                .map(|n| &*Box::leak(Box::new(M { key: (*v, n.clone()), db: Mutex::new(Some(db.clone())) })) as &'static dyn Migration)
                .collect();
            MigrationList { version: Version(v.0, v.1, v.2), migrations: Box::leak(ms.into_boxed_slice()) }
        })
        .collect()
}

#[derive(Clone, Debug)]
enum Op {
    Up,
    UpTo(V),
    DownTo(V),
    To(V),
    One,
    Restart,
}

/// What must happen: the events, the answer, what is noted and what is in the table afterwards.
fn expect(shape: &[(V, Vec<String>)], noted: &mut BTreeSet<Key>, table: &mut BTreeSet<Key>, op: &Op, fail: &mut Option<usize>) -> (Vec<Ev>, Result<Option<bool>, ()>) {
    let mut ev = vec![];
    let all: Vec<Key> = shape.iter().flat_map(|(v, ns)| ns.iter().map(move |n| (*v, n.clone()))).collect();
    let mut step = |fail: &mut Option<usize>| match fail {
        Some(0) => { *fail = None; true }
        Some(n) => { *n -= 1; false }
        None => false,
    };
    let mut run = |up: bool, todo: Vec<Key>, noted: &mut BTreeSet<Key>, table: &mut BTreeSet<Key>, fail: &mut Option<usize>, ev: &mut Vec<Ev>| -> Result<usize, ()> {
        let mut n = 0;
        for k in todo {
            if noted.contains(&k) == up { continue; }
            let bad = step(fail);
            ev.push(if up { Ev::Up(k.clone(), !bad) } else { Ev::Down(k.clone(), !bad) });
            if bad { return Err(()); }
            if up { noted.insert(k.clone()); } else { noted.remove(&k); }
            if step(fail) { return Err(()); }
            let bad = step(fail) || up && table.contains(&k);
            ev.push(if up { Ev::Insert(k.clone(), !bad) } else { Ev::Delete(k.clone(), !bad) });
            if bad { return Err(()); }
            if up { table.insert(k); } else { table.remove(&k); }
            n += 1;
        }
        Ok(n)
    };
    let below = |t: V| -> Vec<Key> { all.iter().filter(|k| k.0 <= t).cloned().collect() };
    let above = |t: V| -> Vec<Key> { all.iter().rev().filter(|k| k.0 > t).cloned().collect() };
    let r = match op {
        Op::Up => run(true, all.clone(), noted, table, fail, &mut ev).map(|_| None),
        Op::UpTo(t) => run(true, below(*t), noted, table, fail, &mut ev).map(|_| None),
        Op::DownTo(t) => run(false, above(*t), noted, table, fail, &mut ev).map(|_| None),
        Op::To(t) => run(true, below(*t), noted, table, fail, &mut ev).and_then(|_| run(false, above(*t), noted, table, fail, &mut ev)).map(|_| None),
        Op::One => {
            let first: Vec<Key> = all.iter().rev().filter(|k| noted.contains(k)).take(1).cloned().collect();
            let some = !first.is_empty();
            run(false, first, noted, table, fail, &mut ev).map(|_| Some(some))
        }
        Op::Restart => { *noted = table.clone(); Ok(None) }
    };
    (ev, r)
}

fn version(rng: &mut Rng) -> V {
    let mut c = || match rng.below(6) { 0 => 0, 1 => *rng.pick(&[1, 2, 9, 10, 255, 256, 65534, 65535]), _ => rng.below(3) as u16 };
    (c(), c(), c())
}

fn run_case(cx: &mut Ctx, desc: &str, shape: Vec<(V, Vec<String>)>, applied: BTreeSet<Key>, has_table: bool, ops: Vec<(Op, Option<usize>)>) {
    cx.case(desc, true);
    let db: Shared = Arc::new(Mutex::new(Db { has_table, table: applied.clone(), inside: false, ..Default::default() }));
    let ls: &'static [MigrationList] = Box::leak(lists(&shape, &db).into_boxed_slice());
    let mut noted = applied.clone();
    let mut table = applied;
    let (db2, shape2) = (db.clone(), shape.clone());
    let out = quiet(move || {
        run(async move {
            let p = pool(&db2).await;
            let mut bad: Vec<(String, String)> = vec![];
            let mut m = match Migrator::new(&p, ls).await { Ok(m) => m, Err(e) => return vec![("c18-start".to_owned(), format!("Migrator::new failed: {e:?}"))] };
            for (i, (op, fail)) in ops.into_iter().enumerate() {
                {
                    let mut d = db2.lock().unwrap();
                    d.log.clear();
                    d.step = 0;
                    d.fail_at = fail;
                    d.inside = !matches!(op, Op::Restart);
                }
                let mut f = fail;
                let (want_ev, want) = expect(&shape2, &mut noted, &mut table, &op, &mut f);
                let got: Result<Option<bool>, ()> = match &op {
                    Op::Up => m.up().await.map(|_| None).map_err(|_| ()),
                    Op::UpTo(t) => m.up_to_version(Some(Version(t.0, t.1, t.2))).await.map(|_| None).map_err(|_| ()),
                    Op::DownTo(t) => m.down_to_version(Version(t.0, t.1, t.2)).await.map(|_| None).map_err(|_| ()),
                    Op::To(t) => m.to_version(Version(t.0, t.1, t.2)).await.map(|_| None).map_err(|_| ()),
                    Op::One => m.one_down().await.map(Some).map_err(|_| ()),
                    Op::Restart => match Migrator::new(&p, ls).await { Ok(x) => { m = x; Ok(None) } Err(_) => Err(()) },
                };
                let d = db2.lock().unwrap();
                let what = format!("operation {i} {op:?} failing step {fail:?}");
                if d.log != want_ev { bad.push(("c18-events".into(), format!("{what}: {:?}, expected {want_ev:?}", d.log))); }
                if got != want { bad.push(("c18-answer".into(), format!("{what}: {got:?}, expected {want:?}"))); }
                if d.table != table { bad.push(("c18-table".into(), format!("{what}: recorded {:?}, expected {table:?}", d.table))); }
                if !d.odd.is_empty() { bad.push(("c18-record".into(), format!("{what}: {:?}", d.odd))); }
                if !bad.is_empty() { return bad; }
            }
            bad
        })
    });
    match out {
        Ok(bad) => for (k, x) in bad { cx.fail(&k, format!("{desc}: {x}")); },
        Err(e) => cx.fail("c18-panic", format!("{desc}: panicked: {e}")),
    }
}

fn random(cx: &mut Ctx) {
    let mut vs: BTreeSet<V> = BTreeSet::new();
    for _ in 0..cx.rng.below(6) { vs.insert(version(&mut cx.rng)); }
    let mut shape: Vec<(V, Vec<String>)> = vec![];
    for v in vs {
        let n = cx.rng.below(4);
        let mut ns: BTreeSet<String> = BTreeSet::new();
        for i in 0..n { ns.insert(format!("{}{i}", cx.rng.pick(&["init", "add", "users", "a"]))); }
        let mut ns: Vec<String> = ns.into_iter().collect();
        if cx.rng.bool() { ns.reverse(); }
        shape.push((v, ns));
    }
    let all: Vec<Key> = shape.iter().flat_map(|(v, ns)| ns.iter().map(move |n| (*v, n.clone()))).collect();
    let density = cx.rng.below(4);
    let applied: BTreeSet<Key> = all.iter().filter(|_| cx.rng.below(4) < density).cloned().collect();
    let has_table = !applied.is_empty() || cx.rng.bool();
    let target = |cx: &mut Ctx| if !all.is_empty() && cx.rng.below(4) > 0 { cx.rng.pick(&all).0 } else { version(&mut cx.rng) };
    let mut ops = vec![];
    for _ in 0..1 + cx.rng.below(5) {
        let t = target(cx);
        let op = match cx.rng.below(7) { 0 => Op::Up, 1 | 2 => Op::UpTo(t), 3 => Op::DownTo(t), 4 => Op::To(t), 5 => Op::One, _ => Op::Restart };
        let fail = if !matches!(op, Op::Restart) && cx.rng.bool() { Some(cx.rng.below(14) as usize) } else { None };
        ops.push((op, fail));
    }
    let desc = format!("{shape:?}, applied {applied:?}, {ops:?}");
    run_case(cx, &desc, shape, applied, has_table, ops);
}

/// Comparing versions is comparing triples.
fn order(cx: &mut Ctx) {
    let xs: [u16; 5] = [0, 1, 2, 256, 65535];
    let mut all: Vec<V> = vec![];
    for a in xs { for b in xs { for c in xs { all.push((a, b, c)); } } }
    let v = |x: &V| Version(x.0, x.1, x.2);
    for a in &all {
        cx.case(&format!("version {a:?} against {} others", all.len()), true);
        for b in &all {
            let want = a.cmp(b);
            let (x, y) = (v(a), v(b));
            let ok = x.cmp(&y) == want
                && x.partial_cmp(&y) == Some(want)
                && (x < y) == (want == Ordering::Less)
                && (x <= y) == (want != Ordering::Greater)
                && (x > y) == (want == Ordering::Greater)
                && (x >= y) == (want != Ordering::Less)
                && (x == y) == (want == Ordering::Equal)
                && x.max(y) == v(a.max(b))
                && x.min(y) == v(a.min(b));
            cx.check(ok, "c18-order", || format!("{a:?} against {b:?}: cmp {:?}, partial_cmp {:?}, expected {want:?}", x.cmp(&y), x.partial_cmp(&y)));
            let l: Vec<MigrationList> = [a, b].iter().map(|x| MigrationList { version: v(x), migrations: &[] }).collect();
            cx.check(MigrationList::ordered(&l) == (want == Ordering::Less), "c18-ordered", || format!("ordered({a:?}, {b:?})"));
        }
    }
    for _ in 0..cx.n(1000, 10000) {
        let n = cx.rng.usize(6);
        let mut l: Vec<V> = (0..n).map(|_| version(&mut cx.rng)).collect();
        if cx.rng.bool() { l.sort(); }
        if cx.rng.bool() { l.dedup(); }
        let want = l.windows(2).all(|w| w[0] < w[1]);
        let ms: Vec<MigrationList> = l.iter().map(|x| MigrationList { version: v(x), migrations: &[] }).collect();
        cx.case(&format!("ordered {l:?}"), n > 1);
        cx.check(MigrationList::ordered(&ms) == want, "c18-ordered", || format!("ordered({l:?}) is {}", !want));
        let mut s: Vec<Version> = l.iter().map(v).collect();
        s.sort();
        l.sort();
        cx.check(s == l.iter().map(v).collect::<Vec<_>>(), "c18-order", || format!("sorting gives {s:?}, expected {l:?}"));
    }
}

fn applied(cx: &mut Ctx) {
    for _ in 0..cx.n(1000, 10000) {
        let mut map: HashMap<Version, Vec<String>> = HashMap::new();
        let mut want: BTreeSet<Key> = BTreeSet::new();
        for _ in 0..cx.rng.below(8) {
            let k = (version(&mut cx.rng), cx.rng.pick(&["a", "b", "ab"]).to_string());
            if want.insert(k.clone()) { map.entry(Version(k.0 .0, k.0 .1, k.0 .2)).or_default().push(k.1); }
        }
        let probe = if !want.is_empty() && cx.rng.bool() { want.iter().nth(cx.rng.usize(want.len())).unwrap().clone() } else { (version(&mut cx.rng), cx.rng.pick(&["a", "b", "ab", ""]).to_string()) };
        cx.case(&format!("applied {want:?}, probe {probe:?}"), true);
        let v = Version(probe.0 .0, probe.0 .1, probe.0 .2);
        let got = Migrator::get_applied(&mut map, &v, &probe.1).map(|(l, i)| l.get(i).cloned());
        let exp = if want.contains(&probe) { Some(Some(probe.1.clone())) } else { None };
        cx.check(got == exp, "c18-lookup", || format!("applied {want:?}, probe {probe:?}: {got:?}"));
    }
}

pub fn main(cx: &mut Ctx) {
    cx.rule("versions compare like triples, and lists are ordered only if strictly ascending");
    cx.rule("migrating runs exactly the migrations selected, in order; each run is followed by its record; a failure ends the run; what ran is not run again");
    order(cx);
    applied(cx);
    // every failing step of one fixed history
    let s = |x: &str| x.to_owned();
    let shape = vec![((1, 0, 0), vec![s("b"), s("a")]), ((1, 2, 0), vec![s("c")]), ((1, 10, 0), vec![s("d"), s("b")]), ((2, 0, 0), vec![s("e")])];
    for first in 0..5usize {
        for fail in 0..20usize {
            let op = [Op::Up, Op::UpTo((1, 10, 0)), Op::To((1, 2, 0)), Op::DownTo((1, 1, 0)), Op::One][first].clone();
            let pre: BTreeSet<Key> = if first < 2 { [((1, 2, 0), s("c"))].into() } else { [((1, 0, 0), s("a")), ((1, 10, 0), s("d")), ((1, 10, 0), s("b")), ((2, 0, 0), s("e"))].into() };
            let ops = vec![(op.clone(), Some(fail)), (op.clone(), None), (Op::One, None), (op, None)];
            run_case(cx, &format!("fixed lists, {ops:?}"), shape.clone(), pre, true, ops);
        }
    }
    let n = cx.n(2500, 30000);
    for _ in 0..n {
        if !cx.time_left() { break; }
        random(cx);
    }
    // a record of a migration that is in no list: refuse
    let db: Shared = Arc::new(Mutex::new(Db { has_table: true, table: [((1, 0, 0), s("gone"))].into(), ..Default::default() }));
    let ls: &'static [MigrationList] = Box::leak(lists(&[((1, 0, 0), vec![s("a")]), ((2, 0, 0), vec![s("gone")])], &db).into_boxed_slice());
    cx.case("a recorded migration that is in no list of its version", true);
    let d2 = db.clone();
    let r = quiet(move || run(async move { let p = pool(&d2).await; let r = Migrator::new(&p, ls).await.is_ok(); r }));
    cx.check(r != Ok(true), "c18-unknown", || "a recorded migration that is in no list was accepted".into());
}
