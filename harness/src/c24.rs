//! Derived model code: rows into fields, fields into statements.
#[path = "c24_models.rs"]
mod models;

use {
    crate::{mock::*, rt::*, vals::*},
    chrono::{Datelike, Duration, NaiveDate, NaiveDateTime, Timelike},
    mysql_connector::{
        error::Error,
        model::*,
        types::{Hex, Value},
    },
};

/// (alias of the table, column, value)
pub type Cells = Vec<(String, String, Value)>;
/// (alias, column, alias joined, table joined, key)
pub type Join = (String, String, String, String, String);

pub fn at(alias: &str, field: &str) -> String { format!("{alias}.{field}") }

/// What is inserted: the table, its columns, the primary key if set.
#[derive(Debug, Clone)]
pub struct Tree { table: &'static str, cols: Vec<(String, Cell)>, pub primary: Option<Value> }
#[derive(Debug, Clone)]
pub enum Cell { V(Value), Ins(Tree) }
impl Tree {
    pub fn new(table: &'static str) -> Self { Tree { table, cols: Vec::new(), primary: None } }
    pub fn push(&mut self, c: &str, v: Value) { self.cols.push((c.into(), Cell::V(v))); }
    pub fn insert(&mut self, c: &str, t: Tree) { self.cols.push((c.into(), Cell::Ins(t))); }
    pub fn extend(&mut self, v: Cells) { for (_, c, v) in v { self.push(&c, v); } }
    fn size(&self) -> usize { 1 + self.cols.iter().map(|c| match &c.1 { Cell::Ins(t) => t.size(), _ => 0 }).sum::<usize>() }
}

/// What a model must do.
pub trait Sample: Model + FromQueryResult + IntoQuery {
    const NAME: &'static str;
    const TABLED: &'static str;
    const KEY: &'static str;
    const AUTO: bool;
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self;
    fn joins(alias: &str, out: &mut Vec<Join>);
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree;
    fn whole(&self) -> Tree;
    fn key(&self) -> Value;
}

/// A value of a field and what the database holds for it.
pub trait Kind: Sized {
    fn any(rng: &mut Rng) -> Self;
    fn value(&self) -> Value;
    fn gen(rng: &mut Rng) -> (Self, Value) { let x = Self::any(rng); let v = x.value(); (x, v) }
}
macro_rules! kinds {
    ($($t:ty, $r:ident => $any:expr, $x:ident => $v:expr;)*) => { $(impl Kind for $t {
        fn any($r: &mut Rng) -> Self { $any }
        fn value(&self) -> Value { let $x = self; $v }
    })* };
}
kinds! {
    i8, r => r.edgy_u64() as i8, x => Value::Tiny(*x);
    i16, r => r.edgy_u64() as i16, x => Value::Short(*x);
    i32, r => r.edgy_u64() as i32, x => Value::Int(*x);
    i64, r => r.edgy_u64() as i64, x => Value::Long(*x);
    u8, r => r.edgy_u64() as u8, x => Value::UTiny(*x);
    u16, r => r.edgy_u64() as u16, x => Value::UShort(*x);
    u32, r => r.edgy_u64() as u32, x => Value::UInt(*x);
    u64, r => r.edgy_u64(), x => Value::ULong(*x);
    f32, r => f32::from_bits(r.next() as u32 & 0xff7f_ffff), x => Value::Float(*x);
    f64, r => f64::from_bits(r.next() & 0xffef_ffff_ffff_ffff), x => Value::Double(*x);
    bool, r => r.bool(), x => Value::Tiny(*x as i8);
    String, r => r.string(12), x => Value::Bytes(x.clone().into_bytes());
    Vec<u8>, r => { let n = r.usize(9); r.bytes(n) }, x => Value::Bytes(x.clone());
    Hex, r => { let n = r.usize(9); Hex::new(r.bytes(n)) }, x => Value::Bytes(unhex(&x.to_string()));
    NaiveDate, r => NaiveDate::from_ymd_opt(1 + r.below(9999) as i32, 1 + r.below(12) as u32, 1 + r.below(28) as u32).unwrap(), x => Value::Date(x.year() as u16, x.month() as u8, x.day() as u8);
    NaiveDateTime, r => <NaiveDate as Kind>::any(r).and_hms_micro_opt(r.below(24) as u32, r.below(60) as u32, r.below(60) as u32, r.below(1_000_000) as u32 * r.below(2) as u32).unwrap(),
        x => Value::Datetime(x.year() as u16, x.month() as u8, x.day() as u8, x.hour() as u8, x.minute() as u8, x.second() as u8, x.nanosecond() / 1000);
    Duration, r => Duration::microseconds(r.below(5_000_000_000_000) as i64 - 2_500_000_000_000), x => {
        let m = x.num_microseconds().unwrap().unsigned_abs();
        let s = m / 1_000_000;
        Value::Time(*x < Duration::zero(), (s / 86400) as u32, (s / 3600 % 24) as u8, (s / 60 % 60) as u8, (s % 60) as u8, (m % 1_000_000) as u32)
    };
}
impl<T: Kind> Kind for Option<T> {
    fn any(rng: &mut Rng) -> Self { if rng.chance(3) { None } else { Some(T::any(rng)) } }
    fn value(&self) -> Value { match self { None => Value::Null, Some(x) => x.value() } }
}

fn unhex(s: &str) -> Vec<u8> { (1..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

pub fn leaf<T: Kind>(rng: &mut Rng, alias: &str, column: &str, out: &mut Cells) -> T {
    let (x, v) = T::gen(rng);
    out.push((alias.into(), column.into(), v));
    x
}

/// The column type a value is sent as, and its flags.
fn typed(v: &Value) -> (u8, u16) {
    match v {
        Value::Null => (253, 0),
        Value::Tiny(_) => (1, 0), Value::UTiny(_) => (1, 32), Value::Short(_) => (2, 0), Value::UShort(_) => (2, 32),
        Value::Int(_) => (3, 0), Value::UInt(_) => (3, 32), Value::Long(_) => (8, 0), Value::ULong(_) => (8, 32),
        Value::Float(_) => (4, 0), Value::Double(_) => (5, 0), Value::Bytes(_) => (253, 0),
        Value::Date(..) => (10, 0), Value::Time(..) => (11, 0), Value::Datetime(..) => (12, 0),
    }
}

fn tokens(s: &str) -> Vec<String> {
    let mut r: Vec<String> = Vec::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c.is_whitespace() { continue; }
        let mut t = c.to_string();
        if c == '`' {
            for d in it.by_ref() { t.push(d); if d == '`' { break; } }
        } else if c.is_alphanumeric() {
            while let Some(d) = it.peek().copied().filter(|d| d.is_alphanumeric()) { t.push(d); it.next(); }
            t = t.to_lowercase();
        }
        r.push(t);
    }
    r
}
fn unq(t: &str) -> Option<String> { Some(t.strip_prefix('`')?.strip_suffix('`')?.to_string()) }

/// The columns a select asks for, the joins it makes and the table it is about.
fn parse_select(s: &str) -> Option<(Vec<(String, String)>, Vec<Join>, String)> {
    let t = tokens(s);
    let mut i = 0;
    let mut word = |w: &str, i: &mut usize| if t.get(*i).map(|x| x == w) == Some(true) { *i += 1; true } else { false };
    if !word("select", &mut i) { return None; }
    let mut cols = Vec::new();
    loop {
        let (a, c) = (unq(t.get(i)?)?, unq(t.get(i + 2)?)?);
        if t[i + 1] != "." { return None; }
        cols.push((a, c));
        i += 3;
        if !word(",", &mut i) { break; }
    }
    if !word("from", &mut i) { return None; }
    let table = unq(t.get(i)?)?;
    i += 1;
    let mut joins = Vec::new();
    while i < t.len() {
        let g = |k: usize| t.get(i + k).cloned().unwrap_or_default();
        let shape = g(0) == "join" && g(2) == "as" && g(4) == "on" && g(5) == "(" && g(7) == "." && g(9) == "=" && g(11) == "." && g(13) == ")";
        if !shape || g(10) != g(3) { return None; }
        joins.push((unq(&g(6))?, unq(&g(8))?, unq(&g(3))?, unq(&g(1))?, unq(&g(12))?));
        i += 14;
    }
    Some((cols, joins, table))
}

/// Sends rows of `cols` and reads them as `M`.
fn fetch<M: Sample>(cols: Vec<Col>, rows: Vec<Vec<Value>>, text: &str) -> Result<Vec<String>, String> {
    let h = handle();
    quiet(|| run(async {
        let mut c = connected(&h, move |w, p| match p[0] {
            0x16 => prepare_ok(w, 1, 0, 0),
            0x17 => {
                send_columns(w, &cols);
                for r in &rows {
                    let mut map = vec![0u8; (r.len() + 9) / 8];
                    for (i, v) in r.iter().enumerate() { if *v == Value::Null { map[(i + 2) / 8] |= 1 << ((i + 2) % 8); } }
                    let mut b = vec![0];
                    b.extend(map);
                    for v in r { b.extend(server_writes(v)); }
                    w.send(&b);
                }
                w.send(&eof_packet(2, 0));
            }
            _ => {}
        }).await;
        let mut s = c.prepare_statement(text).await.map_err(|e| format!("{e:?}"))?;
        let mut q = s.query::<Value, M>(&[]).await.map_err(|e| format!("{e:?}"))?;
        let mut r = Vec::new();
        loop {
            match q.next().await {
                Ok(Some(m)) => r.push(format!("{m:?}")),
                Ok(None) => return Ok(r),
                Err(Error::Protocol(e)) if format!("{e:?}").contains("MissingField") => return Err("missing".into()),
                Err(e) => return Err(format!("{e:?}")),
            }
        }
    })).unwrap_or_else(|m| Err(format!("panic {m}")))
}

fn columns(order: &[(String, String)], cells: &[Cells], tables: &[(String, String)]) -> Vec<Col> {
    order.iter().map(|(a, c)| {
        let v = cells.iter().map(|r| find(r, a, c)).find(|v| *v != Value::Null).unwrap_or(Value::Null);
        let (t, f) = typed(&v);
        let mut col = Col::new(c, t, f);
        col.table = a.clone();
        col.org_table = tables.iter().find(|t| t.0 == *a).map(|t| t.1.clone()).unwrap_or("other".into());
        col
    }).collect()
}
fn find(r: &Cells, a: &str, c: &str) -> Value {
    r.iter().find(|x| x.0 == a && x.1 == c).map(|x| x.2.clone()).unwrap_or(Value::UInt(0xdead))
}

fn reads<M: Sample>(cx: &mut Ctx) {
    let text = match quiet(M::build_query) { Ok(t) => t, Err(m) => { cx.fail("c24-query", format!("{}: panic {m}", M::NAME)); return; } };
    let mut cells = Cells::new();
    M::make(&mut cx.rng, M::TABLED, &mut cells);
    let mut joins = Vec::new();
    M::joins(M::TABLED, &mut joins);
    cx.case(&format!("the query of {}", M::NAME), true);
    let Some((order, mut got_joins, from)) = parse_select(&text) else { cx.fail("c24-query", format!("{}: {text} is no select of columns", M::NAME)); return; };
    let mut want: Vec<(String, String)> = cells.iter().map(|c| (c.0.clone(), c.1.clone())).collect();
    let mut got = order.clone();
    want.sort();
    got.sort();
    let at = |v: &[Join], a: &str| v.iter().position(|j| j.2 == a);
    let grown = got_joins.iter().enumerate().all(|(i, j)| j.0 == from || at(&got_joins[..i], &j.0).is_some());
    got_joins.sort();
    joins.sort();
    if !cx.check(got == want && from == M::TABLED && got_joins == joins && grown, "c24-query", || format!("{}: {text} asks for {got:?} joining {got_joins:?}, not {want:?} joining {joins:?}", M::NAME)) { return; }
    let mut tables = vec![(M::TABLED.to_string(), M::TABLED.to_string())];
    tables.extend(joins.iter().map(|j| (j.2.clone(), j.3.clone())));
    for round in 0..cx.n(25, 600) {
        let n = [1, 3, 0, 2][round % 4];
        let (mut models, mut data) = (Vec::new(), Vec::new());
        for _ in 0..n {
            let mut c = Cells::new();
            let m = M::make(&mut cx.rng, M::TABLED, &mut c);
            models.push(format!("{m:?}"));
            data.push(c);
        }
        // in the order of the query first, then in any order, among columns nobody asked for
        let mut order = order.clone();
        let mut extra = 0;
        if round >= 4 {
            for i in (1..order.len()).rev() { let j = cx.rng.usize(i + 1); order.swap(i, j); }
            extra = cx.rng.usize(3);
            for k in 0..extra {
                let a = tables[cx.rng.usize(tables.len())].0.clone();
                let i = cx.rng.usize(order.len() + 1);
                order.insert(i, (a, format!("other{k}")));
            }
        }
        let desc = format!("{} from {order:?} {}", M::NAME, short(&format!("{data:?}")));
        cx.case(&desc, n > 0);
        let cols = columns(&order, &data, &tables);
        let rows: Vec<Vec<Value>> = data.iter().map(|c| order.iter().map(|(a, n)| find(c, a, n)).collect()).collect();
        match fetch::<M>(cols.clone(), rows.clone(), &text) {
            Ok(r) => { cx.check(r == models, "c24-fields", || format!("{desc}: read {r:?}, not {models:?}")); }
            Err(e) => cx.fail("c24-refused", format!("{desc}: {e}")),
        }
        if n == 0 || extra > 0 { continue; }
        // without one column
        let k = cx.rng.usize(order.len());
        let mut c = cols.clone();
        c.remove(k);
        let r: Vec<Vec<Value>> = rows.iter().map(|r| { let mut r = r.clone(); r.remove(k); r }).collect();
        match fetch::<M>(c, r, &text) {
            Ok(r) => cx.fail("c24-missing", format!("{desc} without {:?}: read {r:?}", order[k])),
            Err(e) => { cx.check(e == "missing", "c24-missing", || format!("{desc} without {:?}: {e}", order[k])); }
        }
        // NULL where the field takes none
        let k = cx.rng.usize(order.len());
        let mut r = rows.clone();
        let hit = cx.rng.usize(n);
        if r[hit][k] != Value::Null {
            let was = r[hit][k].clone();
            r[hit][k] = Value::Null;
            let got = fetch::<M>(cols, r, &text);
            let shown = match &got { Ok(g) if g.len() == n => g[hit] != models[hit] && g[hit].contains("None") && g.iter().enumerate().all(|(i, g)| i == hit || *g == models[i]), Ok(_) => false, Err(e) => e.contains("WrongValue") };
            cx.check(shown, "c24-null", || format!("{desc} with NULL for {:?} ({was:?}): {got:?}, not {models:?}", order[k]));
        }
    }
}

/// The statements executed, in order: table and columns with their values.
type Done = Vec<(String, Vec<(String, Value)>)>;

fn parse_insert(text: &str) -> Option<(String, Vec<String>)> {
    let t = tokens(text);
    if t.len() < 8 || t[0] != "insert" || t[1] != "into" || t[3] != "(" { return None; }
    let table = unq(&t[2])?;
    let mut cols = Vec::new();
    let mut i = 4;
    while t.get(i)? != ")" {
        if t[i] == "," { i += 1; }
        cols.push(unq(t.get(i)?)?);
        i += 1;
    }
    let rest: Vec<&str> = t[i + 1..].iter().map(|x| x.as_str()).collect();
    let mut want = vec!["values", "("];
    for k in 0..cols.len() { if k > 0 { want.push(","); } want.push("?"); }
    want.push(")");
    if rest == want { Some((table, cols)) } else { None }
}
fn id_of(n: usize) -> u64 { 7_000_000_000 + n as u64 * 3 }

/// Statement `i` and some before it insert `t`; those used are struck out.
fn inserted(done: &Done, used: &mut Vec<bool>, i: usize, t: &Tree) -> bool {
    if used[i] || done[i].0 != t.table || done[i].1.len() != t.cols.len() { return false; }
    used[i] = true;
    t.cols.iter().all(|(name, cell)| {
        let Some((_, v)) = done[i].1.iter().find(|c| c.0 == *name) else { return false };
        match cell {
            Cell::V(w) => same(v, &canonical(w)),
            Cell::Ins(sub) => {
                (0..i).any(|k| {
                    let key = sub.primary.clone().map(|p| canonical(&p)).unwrap_or(Value::ULong(id_of(k)));
                    if !same(v, &key) { return false; }
                    let mut u = used.clone();
                    if inserted(done, &mut u, k, sub) { *used = u; true } else { false }
                })
            }
        }
    })
}

fn writes<M: Sample>(cx: &mut Ctx) {
    for round in 0..cx.n(12, 300) {
        let mut a = M::active_model();
        let mut rng = Rng::new(cx.rng.next());
        let tree = if round % 4 == 3 {
            let m = M::make(&mut rng, "", &mut Vec::new());
            let t = m.whole();
            cx.check(m.primary().into() == m.key(), "c24-key", || format!("{}: the primary key of {m:?}", M::NAME));
            a = m.into_active_model();
            t
        } else {
            M::fill(&mut a, &mut rng)
        };
        let desc = format!("insert {} as {}", short(&format!("{a:?}", a = Dbg(&tree))), M::NAME);
        cx.case(&desc, !tree.cols.is_empty());
        if let Some(p) = quiet(|| a.primary()).map_err(|m| cx.fail("c24-panic", format!("{desc}: panic {m}"))).ok() {
            cx.check(p == tree.primary, "c24-key", || format!("{desc}: primary key {p:?}, not {:?}", tree.primary));
        }
        let h = handle();
        let (mut prepared, mut executed) = (0u32, 0usize);
        let r = quiet(|| run(async {
            let mut c = connected(&h, move |w, p| match p[0] {
                0x16 => { prepared += 1; prepare_ok(w, prepared, 0, p.iter().filter(|b| **b == b'?').count()); }
                0x17 => { executed += 1; w.send(&ok_packet(1, id_of(executed - 1), 2, 0)); }
                _ => {}
            }).await;
            a.insert(&mut c).await
        }));
        let s = h.lock().unwrap();
        let mut done = Done::new();
        let mut texts: Vec<String> = Vec::new();
        let mut bad = None;
        for (_, p) in &s.payloads {
            match p.first() {
                Some(0x16) => texts.push(String::from_utf8_lossy(&p[1..]).into_owned()),
                Some(0x17) => {
                    let text = texts.last().cloned().unwrap_or_default();
                    match parse_insert(&text) {
                        None => bad = Some(text),
                        Some((table, cols)) => match read_execute(p, cols.len(), &vec![None; cols.len()]) {
                            Err(e) => bad = Some(format!("{e} in {}", hexs(p))),
                            Ok(x) => done.push((table, cols.into_iter().zip(x.values).collect())),
                        },
                    }
                }
                _ => {}
            }
        }
        let id = match r {
            Err(m) => { cx.fail("c24-panic", format!("{desc}: panic {m}")); continue; }
            Ok(Err(e)) => { cx.fail("c24-insert", format!("{desc}: {e:?}")); continue; }
            Ok(Ok(id)) => id,
        };
        let n = done.len();
        let mut used = vec![false; n];
        let ok = bad.is_none() && n == tree.size() && n > 0 && inserted(&done, &mut used, n - 1, &tree) && used.iter().all(|u| *u) && id == id_of(n - 1);
        cx.check(ok, "c24-insert", || format!("{desc}: {bad:?} executed {}", short(&format!("{done:?}"))));
    }
}

struct Dbg<'a>(&'a Tree);
impl std::fmt::Debug for Dbg<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0.cols) } }

pub fn model<M: Sample>(cx: &mut Ctx) {
    cx.check(M::TABLE == M::TABLED && M::TABLE_WITH_POINT == format!("{}.", M::TABLED), "c24-names", || format!("{}: table {} and {}", M::NAME, M::TABLE, M::TABLE_WITH_POINT));
    cx.check(M::PRIMARY == M::KEY && M::AUTO_INCREMENT == M::AUTO, "c24-names", || format!("{}: primary key {} ({})", M::NAME, M::PRIMARY, M::AUTO_INCREMENT));
    reads::<M>(cx);
    writes::<M>(cx);
}

pub fn main(cx: &mut Ctx) {
    cx.rule("For each of the sample models (every field type, structs of columns, references three deep, references whose names are prefixes of each other or the name of the model's own table, raw identifiers): its query is parsed and compared with the columns and joins its definition asks for; rows are sent in the order of the query, then in any order among columns nobody asked for, and what is read is compared field by field; without any one column reading must be a MissingField error. Active models with random columns set are inserted and the statements compared with what was set. Non-trivial: at least one row or column.");
    models::each(cx);
}
