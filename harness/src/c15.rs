//! Generated statements and the values bound to them.
use {
    crate::{mock::*, rt::*, vals::*},
    mysql_connector::{
        error::{Error, RuntimeError, SerializeError},
        model::*,
        types::Value,
        Connection,
    },
};

/// The words, quoted names and signs of a statement; words in lower case.
fn tokens(s: &str) -> Vec<String> {
    let mut r: Vec<String> = Vec::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c.is_whitespace() { continue; }
        let mut t = c.to_string();
        if c == '`' {
            for d in it.by_ref() { t.push(d); if d == '`' { break; } }
        } else if c.is_alphanumeric() || c == '_' {
            while let Some(d) = it.peek().copied().filter(|d| d.is_alphanumeric() || *d == '_') { t.push(d); it.next(); }
            t = t.to_lowercase();
        }
        r.push(t);
    }
    r
}

fn q(s: &str) -> String { format!("`{s}`") }

fn listed(items: Vec<String>) -> String { items.join(" , ") }

fn expected_select(table: &str, cols: &[QueryColumn]) -> String {
    fn walk(ns: &str, cols: &[QueryColumn], out: &mut Vec<String>, joins: &mut String) {
        for c in cols {
            match c {
                QueryColumn::Column(n) => out.push(format!("{}.{}", q(ns), q(n))),
                QueryColumn::Reference(r) => {
                    let to = format!("{ns}.{}", r.column);
                    joins.push_str(&format!(" join {} as {} on ({}.{} = {}.{})", q(r.table), q(&to), q(ns), q(r.column), q(&to), q(r.key)));
                    walk(&to, r.columns, out, joins);
                }
            }
        }
    }
    let (mut out, mut joins) = (Vec::new(), String::new());
    walk(table, cols, &mut out, &mut joins);
    format!("select {} from {}{joins}", listed(out), q(table))
}

fn expected_insert(table: &str, cols: &[&str]) -> String {
    format!("insert into {} ({}) values ({})", q(table), listed(cols.iter().map(|c| q(c)).collect()), listed(cols.iter().map(|_| "?".into()).collect()))
}

fn expected_update(table: &str, key: &str, cols: &[&str]) -> String {
    format!("update {} set {} where {} = ?", q(table), listed(cols.iter().map(|c| format!("{} = ?", q(c))).collect()), q(key))
}

pub struct Pk(Value);
impl From<Pk> for Value { fn from(p: Pk) -> Value { p.0 } }

/// One column of an active model.
pub enum Col {
    Val(&'static str, Option<Value>),
    Set(&'static str, Value),
    Insert(&'static str, Act),
    Unset(&'static str),
}

/// Columns, the primary key, and whether asking for the values fails.
#[derive(Default)]
pub struct Act(Vec<Col>, Option<Value>, bool);

struct Maybe(Value);
impl TryInto<Value> for Maybe {
    type Error = SerializeError;
    fn try_into(self) -> Result<Value, SerializeError> { Ok(self.0) }
}

impl<M: ModelData> ActiveModel<M> for Act {
    async fn into_values(self, conn: &mut Connection) -> Result<Vec<NamedValue>, Error> {
        let mut v = Vec::new();
        if self.2 { return Err(Error::io_invalid_data(std::fmt::Error)); }
        for c in self.0 {
            match c {
                Col::Val(n, Some(x)) => ActiveValue::Set(Maybe(x)).insert_named_value(&mut v, n)?,
                Col::Val(n, None) => ActiveValue::<Maybe>::Unset.insert_named_value(&mut v, n)?,
                Col::Set(n, x) => Box::pin(ActiveReference::<M1>::Set(Pk(x)).insert_named_value(&mut v, n, conn)).await?,
                Col::Insert(n, m) => Box::pin(ActiveReference::<M2>::Insert(m).insert_named_value(&mut v, n, conn)).await?,
                Col::Unset(n) => Box::pin(ActiveReference::<M1>::Unset.insert_named_value(&mut v, n, conn)).await?,
            }
        }
        Ok(v)
    }
    fn primary(&self) -> Option<Value> { self.1.clone() }
}

/// What the server must see: (text, values) of every statement.
type Want = Vec<(String, Vec<Value>)>;

fn want_values(a: &Act, ids: &mut u64, want: &mut Want) -> Vec<(&'static str, Value)> {
    let mut v = Vec::new();
    for c in &a.0 {
        match c {
            Col::Val(n, Some(x)) => v.push((*n, x.clone())),
            Col::Set(n, x) => v.push((*n, x.clone())),
            Col::Insert(n, m) => {
                let id = want_insert(M2::TABLE, m, ids, want);
                v.push((*n, m.1.clone().unwrap_or(Value::ULong(id))));
            }
            Col::Val(_, None) | Col::Unset(_) => {}
        }
    }
    v
}

fn want_insert(table: &str, a: &Act, ids: &mut u64, want: &mut Want) -> u64 {
    let v = want_values(a, ids, want);
    want.push((expected_insert(table, &v.iter().map(|x| x.0).collect::<Vec<_>>()), v.into_iter().map(|x| x.1).collect()));
    *ids += 1;
    id_of(*ids)
}

fn id_of(n: u64) -> u64 { n.wrapping_mul(0x0101_0101_0101) }

fn describe(a: &Act) -> String {
    format!("[{}]{:?}{}", a.0.iter().map(|c| match c {
        Col::Val(n, v) => format!("{n}={v:?}"),
        Col::Set(n, v) => format!("{n}->{v:?}"),
        Col::Insert(n, m) => format!("{n}->{}", describe(m)),
        Col::Unset(n) => format!("{n} unset"),
    }).collect::<Vec<_>>().join(", "), a.1, if a.2 { " failing" } else { "" })
}

const COLS: &[&str] = &["id", "name", "a", "b", "c d", "Größe", "q?", "x.y", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "0", "select", "_"];

fn act(rng: &mut Rng, depth: u32) -> Act {
    let n = match rng.below(8) { 0 => 0, 1 => 1, 2 => 2, 3 => rng.usize(60), _ => rng.usize(7) };
    let cols = (0..n).map(|_| {
        let name = *rng.pick(COLS);
        match rng.below(8) {
            0 => Col::Unset(name),
            1 => Col::Set(name, value(rng, false)),
            2 if depth > 0 => Col::Insert(name, act(rng, depth - 1)),
            3 => Col::Val(name, None),
            _ => Col::Val(name, Some(value(rng, false))),
        }
    }).collect();
    Act(cols, if rng.chance(4) { Some(value(rng, false)) } else { None }, false)
}

fn server(h: &Handle, refuse: Option<usize>) -> impl FnMut(&mut Wire, &[u8]) + Send {
    let _ = h;
    let (mut prepared, mut executed, mut seen) = (0u32, 0u64, 0usize);
    move |w, p| {
        seen += 1;
        if refuse == Some(seen) { w.send(&err_packet(1064, b"42000", "no")); return; }
        match p[0] {
            0x16 => {
                let text = String::from_utf8_lossy(&p[1..]).into_owned();
                prepared += 1;
                prepare_ok(w, prepared, 0, tokens(&text).iter().filter(|t| *t == "?").count());
            }
            0x17 => { executed += 1; w.send(&ok_packet(1, id_of(executed), 2, 0)); }
            _ => {}
        }
    }
}

fn judge(cx: &mut Ctx, desc: &str, h: &Handle, want: &Want, upto: Option<usize>) {
    let s = h.lock().unwrap();
    cx.check(s.bad.is_empty() && s.complete(), "c15-framing", || format!("{desc}: {:?}", s.bad));
    let sent: Vec<&Vec<u8>> = s.payloads.iter().map(|p| &p.1).filter(|p| p.first() != Some(&0x19)).collect();
    let all = upto.unwrap_or(want.len() * 2);
    if sent.len() != all { cx.fail("c15-count", format!("{desc}: {} requests, not {all}", sent.len())); return; }
    for (i, p) in sent.iter().enumerate() {
        let (text, vals) = &want[i / 2];
        if i % 2 == 0 {
            let got = String::from_utf8_lossy(&p[1..]).into_owned();
            cx.check(p[0] == 0x16 && tokens(&got) == tokens(text), "c15-text", || format!("{desc}: sent {got}, not {text}"));
        } else {
            match read_execute(p, vals.len(), &vec![None; vals.len()]) {
                Err(e) => cx.fail("c15-values", format!("{desc}: {e} in {}", hexs(p))),
                Ok(x) => {
                    cx.check(x.id == i as u32 / 2 + 1, "c15-values", || format!("{desc}: executes {}", x.id));
                    let c: Vec<Value> = vals.iter().map(canonical).collect();
                    cx.check(all_same(&x.values, &c), "c15-values", || format!("{desc}: {text} given {:?}, not {c:?}", x.values));
                }
            }
        }
    }
}

fn insert<M: Model<ActiveModel = Act, Primary = Pk>>(cx: &mut Ctx, a: Act, refuse: Option<usize>) {
    let desc = format!("insert {} into {}, refusal {refuse:?}", describe(&a), M::TABLE);
    cx.case(&desc, !a.0.is_empty());
    let (mut want, mut ids) = (Vec::new(), 0);
    let id = want_insert(M::TABLE, &a, &mut ids, &mut want);
    let fails = a.2;
    let refuse = refuse.filter(|r| *r <= want.len() * 2);
    let h = handle();
    let f = server(&h, refuse);
    let r = quiet(|| run(async { let mut c = connected(&h, f).await; ActiveModel::<M>::insert(a, &mut c).await }));
    match r {
        Err(m) => cx.fail("c15-panic", format!("{desc}: panic {m}")),
        Ok(r) => {
            if fails {
                cx.check(r.is_err(), "c15-result", || format!("{desc}: {r:?}"));
                judge(cx, &desc, &h, &want, Some(0));
            } else {
                cx.check(match (&r, refuse) { (Ok(x), None) => *x == id, (Err(Error::Server(_)), Some(_)) => true, _ => false }, "c15-result", || format!("{desc}: {r:?}, not {id}"));
                judge(cx, &desc, &h, &want, refuse);
            }
        }
    }
}

fn update<M: Model<ActiveModel = Act, Primary = Pk>>(cx: &mut Ctx, a: Act, key: Value, refuse: Option<usize>) {
    let desc = format!("update {} of {} where {}={key:?}, refusal {refuse:?}", describe(&a), M::TABLE, M::PRIMARY);
    cx.case(&desc, !a.0.is_empty());
    let (mut want, mut ids) = (Vec::new(), 0);
    let v = want_values(&a, &mut ids, &mut want);
    if !v.is_empty() {
        let text = expected_update(M::TABLE, M::PRIMARY, &v.iter().map(|x| x.0).collect::<Vec<_>>());
        want.push((text, v.into_iter().map(|x| x.1).chain([key.clone()]).collect()));
    }
    let refuse = refuse.filter(|r| *r <= want.len() * 2);
    let h = handle();
    let f = server(&h, refuse);
    let mut u = UpdateModel::<M>::new(Pk(key));
    *u = a;
    let r = quiet(|| run(async { let mut c = connected(&h, f).await; u.update(&mut c).await }));
    match r {
        Err(m) => cx.fail("c15-panic", format!("{desc}: panic {m}")),
        Ok(r) => {
            cx.check(match (&r, refuse) { (Ok(()), None) => true, (Err(Error::Server(_)), Some(_)) => true, _ => false }, "c15-result", || format!("{desc}: {r:?}"));
            judge(cx, &desc, &h, &want, refuse);
        }
    }
}

fn select<M: IntoQuery>(cx: &mut Ctx) {
    let want = expected_select(M::TABLE, M::COLUMNS);
    cx.case(&want, !M::COLUMNS.is_empty());
    if let Some(got) = cx.guard("c15-panic", &want, M::build_query) {
        cx.check(tokens(&got) == tokens(&want), "c15-select", || format!("{got} is not {want}"));
    }
}

fn one<M: Model<ActiveModel = Act, Primary = Pk> + IntoQuery>(cx: &mut Ctx) {
    select::<M>(cx);
    for n in 0..12usize {
        let cols = |rng: &mut Rng| Act((0..n).map(|i| Col::Val(COLS[i], Some(value(rng, false)))).collect(), None, false);
        let a = cols(&mut cx.rng);
        insert::<M>(cx, a, None);
        let a = cols(&mut cx.rng);
        let k = value(&mut cx.rng, false);
        update::<M>(cx, a, k, None);
    }
    insert::<M>(cx, Act(vec![Col::Val("a", Some(Value::Int(1)))], None, true), None);
    for _ in 0..cx.n(8, 200) {
        let refuse = if cx.rng.chance(4) { Some(1 + cx.rng.usize(6)) } else { None };
        let a = act(&mut cx.rng, 3);
        insert::<M>(cx, a, refuse);
        let a = act(&mut cx.rng, 2);
        let k = value(&mut cx.rng, false);
        update::<M>(cx, a, k, refuse);
    }
}

/// A server that announces another number of placeholders is not sent the values.
fn miscounted(cx: &mut Ctx) {
    for (n, said) in [(1usize, 0usize), (1, 2), (3, 2), (8, 9), (0, 1)] {
        let desc = format!("insert of {n} columns, {said} placeholders announced");
        cx.case(&desc, true);
        let h = handle();
        let a = Act((0..n).map(|i| Col::Val(COLS[i], Some(Value::Int(i as i32)))).collect(), None, false);
        let r = run(async {
            let mut c = connected(&h, move |w, p| match p[0] { 0x16 => prepare_ok(w, 1, 0, said), 0x17 => w.send(&ok_packet(1, 1, 2, 0)), _ => {} }).await;
            ActiveModel::<M0>::insert(a, &mut c).await
        });
        cx.check(matches!(r, Err(Error::Runtime(RuntimeError::ParameterCountMismatch))), "c15-miscounted", || format!("{desc}: {r:?}"));
    }
}

macro_rules! models {
    ($($m:ident, $table:literal, $key:literal, [$($c:expr),*];)*) => {
        $(
            #[derive(Debug)]
            pub struct $m;
            impl ModelData for $m {
                const TABLE: &'static str = $table;
                const TABLE_WITH_POINT: &'static str = concat!($table, ".");
            }
            impl HasActiveModel for $m {
                type ActiveModel = Act;
                fn into_active_model(self) -> Act { Act::default() }
            }
            impl Model for $m {
                const PRIMARY: &'static str = $key;
                const AUTO_INCREMENT: bool = true;
                type Primary = Pk;
                fn primary(&self) -> Pk { Pk(Value::Null) }
            }
            impl IntoQuery for $m {
                const COLUMNS: &'static [QueryColumn] = &[$($c),*];
            }
        )*
        pub fn main(cx: &mut Ctx) {
            cx.rule("For 60 models with random tables, keys and reference trees (up to 7 deep, up to 30 columns), the select is compared, token by token, with one an independent writer lists; inserts and updates of random column lists, with set, unset and inserted references, nested, are sent to a scripted server, which compares the text and, in order, the bound values, refusing any one request. Non-trivial: at least one column.");
            miscounted(cx);
            $( one::<$m>(cx); )*
        }
    };
}
include!("c15_models.rs");
