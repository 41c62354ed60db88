%# The migrator: which migrations run, in which order, and what is recorded.
%use packets conv
%path cmp::Ordering => core::cmp::Ordering
%ty HashMap<Version,Vec<String>> => VxMap<Version, Vec<String>>
%path cmp::Ord => Ord
%path HashMap::new => VxMap::new
%ty &'adynAsyncPoolTrait<Connection> => VxPool
%ty &'static[&'staticdynMigration] => &'static [VxMigration]
%raw
/// std's HashMap.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> VxMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            r is None <==> !old(self)@.dom().contains(*k),
            r is None ==> *final(self) == *old(self),
            r is Some ==> *r->Some_0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->Some_0)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures
            r is None <==> !self@.dom().contains(*k),
            r is Some ==> *r->Some_0 == self@[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v)
    { unimplemented!() }
}
/// A text under construction (`format!`).
#[verifier::external_body]
pub struct VxText { x: String }
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
pub uninterp spec fn dec(n: nat) -> Seq<char>;
impl VxShow for u16 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl<'a> VxShow for &'a str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxText {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.text() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(&mut self, s: &str) ensures final(self).text() == old(self).text() + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn show<T: VxShow>(&mut self, x: &T) ensures final(self).text() == old(self).text() + x.shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
/// One migration of one version: migrations of a version are told apart by their names.
pub struct Mig { pub v: Version, pub n: Seq<char> }
/// What happens on the server side.
pub enum Event {
    Up(VxMigration, bool),
    Down(VxMigration, bool),
    Sql(Seq<char>, bool),
}
/// `&dyn AsyncPoolTrait<Connection>`, and the connections it hands out: `log` is everything that was asked of the server so far
/// and whether it succeeded.
#[verifier::external_body]
pub struct VxPool { x: () }
pub struct VxOutcome { x: () }
impl VxPool {
    pub uninterp spec fn log(&self) -> Seq<Event>;
    #[verifier::external_body]
    pub fn get(&mut self) -> (r: Result<&mut VxPool, Error>)
        ensures
            r is Ok ==> *r->Ok_0 == *old(self) && *final(self) == *final(r->Ok_0),
            r is Err ==> *final(self) == *old(self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn execute_query(&mut self, q: &str) -> (r: Result<VxOutcome, Error>)
        ensures final(self).log() == old(self).log().push(Event::Sql(q@, r is Ok))
    { unimplemented!() }
}
/// `&dyn Migration`.
#[verifier::external_body]
pub struct VxMigration { x: () }
impl VxMigration {
    pub uninterp spec fn named(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'static str) ensures r@ == self.named() { unimplemented!() }
    #[verifier::external_body]
    pub fn up(&self, pool: &mut VxPool) -> (r: Result<(), Error>)
        ensures final(pool).log() == old(pool).log().push(Event::Up(*self, r is Ok))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn down(&self, pool: &mut VxPool) -> (r: Result<(), Error>)
        ensures final(pool).log() == old(pool).log().push(Event::Down(*self, r is Ok))
    { unimplemented!() }
}
%type Version derive=Clone,Copy
%type MigrationList
%type Migrator
%raw
use core::cmp::Ordering;
/// The order of versions: by the first component, then the second, then the third.
pub open spec fn vless(a: Version, b: Version) -> bool {
    a.0 < b.0 || a.0 == b.0 && (a.1 < b.1 || a.1 == b.1 && a.2 < b.2)
}
pub open spec fn vcmp(a: Version, b: Version) -> Ordering {
    if vless(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
/// It is a strict total order.
pub proof fn lemma_total(a: Version, b: Version, c: Version)
    ensures
        !vless(a, a),
        vless(a, b) && vless(b, c) ==> vless(a, c),
        vless(a, b) || a == b || vless(b, a),
        !(vless(a, b) && vless(b, a)),
        vcmp(a, b) is Greater <==> vless(b, a),
{}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Version {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Version) -> bool { *self == *other }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Version {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Version) -> Option<Ordering> { Some(vcmp(*self, *other)) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for Version {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Version) -> Ordering { vcmp(*self, *other) }
}
impl Eq for Version {}
%impl <Version as PartialEq>
%fn <Version as PartialEq>::eq
%impl <Version as Ord>
%fn <Version as Ord>::cmp
%impl <Version as PartialOrd>
%fn <Version as PartialOrd>::partial_cmp
%raw
pub open spec fn ascending(l: Seq<MigrationList>) -> bool {
    forall|i: int, j: int| 0 <= i < j < l.len() ==> vless(#[trigger] l[i].version, #[trigger] l[j].version)
}
%fn MigrationList::ordered
    ensures r == ascending(list@)
%loop 0
    invariant
        forall|i: int, j: int| 0 <= i < j < it0.index@ + 1 && j < list@.len() ==> vless(#[trigger] list@[i].version, #[trigger] list@[j].version),
%raw
/// The names noted for a version.
pub open spec fn noted(a: Map<Version, Vec<String>>, v: Version) -> Seq<String> {
    if a.dom().contains(v) { a[v]@ } else { Seq::empty() }
}
/// Is it noted as applied?
pub open spec fn is_noted(a: Map<Version, Vec<String>>, m: Mig) -> bool {
    exists|i: int| 0 <= i < noted(a, m.v).len() && (#[trigger] noted(a, m.v)[i])@ == m.n
}
/// No migration is noted twice.
pub open spec fn clear_notes(a: Map<Version, Vec<String>>) -> bool {
    forall|v: Version, i: int, j: int| 0 <= i < j < noted(a, v).len() ==> (#[trigger] noted(a, v)[i])@ != (#[trigger] noted(a, v)[j])@
}
/// `b` notes what `a` notes, and `m`.
pub open spec fn notes_with(a: Map<Version, Vec<String>>, b: Map<Version, Vec<String>>, m: Mig) -> bool {
    forall|x: Mig| #[trigger] is_noted(b, x) <==> is_noted(a, x) || x == m
}
pub open spec fn notes_without(a: Map<Version, Vec<String>>, b: Map<Version, Vec<String>>, m: Mig) -> bool {
    forall|x: Mig| #[trigger] is_noted(b, x) <==> is_noted(a, x) && x != m
}
/// What a map with other names for one version notes.
pub open spec fn renoted(a: Map<Version, Vec<String>>, b: Map<Version, Vec<String>>, v: Version) -> bool {
    forall|w: Version| w != v ==> #[trigger] noted(b, w) == noted(a, w)
}
pub proof fn lemma_pushed(a: Map<Version, Vec<String>>, b: Map<Version, Vec<String>>, v: Version, n: String)
    requires renoted(a, b, v), noted(b, v) == noted(a, v).push(n)
    ensures
        notes_with(a, b, Mig { v, n: n@ }),
        clear_notes(a) && !is_noted(a, Mig { v, n: n@ }) ==> clear_notes(b),
{
    let x = noted(a, v);
    let y = noted(b, v);
    assert forall|m: Mig| #[trigger] is_noted(b, m) <==> is_noted(a, m) || m == (Mig { v, n: n@ }) by {
        if m.v != v {
            assert(noted(b, m.v) == noted(a, m.v));
        } else {
            if is_noted(a, m) { let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i])@ == m.n; assert(y[i]@ == m.n); }
            if m.n == n@ { assert(y[x.len() as int]@ == m.n); }
            if is_noted(b, m) { let i = choose|i: int| 0 <= i < y.len() && (#[trigger] y[i])@ == m.n; if i < x.len() { assert(x[i]@ == m.n); } }
        }
    }
    if clear_notes(a) && !is_noted(a, Mig { v, n: n@ }) {
        assert forall|w: Version, i: int, j: int| 0 <= i < j < noted(b, w).len() implies (#[trigger] noted(b, w)[i])@ != (#[trigger] noted(b, w)[j])@ by {
            if w != v { assert(noted(b, w) == noted(a, w)); }
            else {
                assert(x[i] == y[i]);
                if j < x.len() { assert(x[j] == y[j]); } else { let m = Mig { v, n: n@ }; assert(noted(a, m.v)[i]@ != m.n); }
            }
        }
    }
}
/// Dropping the one note of a name, the last note taking its place.
pub proof fn lemma_dropped(a: Map<Version, Vec<String>>, b: Map<Version, Vec<String>>, v: Version, i: int)
    requires renoted(a, b, v), clear_notes(a), 0 <= i < noted(a, v).len(), noted(b, v) == noted(a, v).update(i, noted(a, v).last()).drop_last()
    ensures notes_without(a, b, Mig { v, n: noted(a, v)[i]@ }), clear_notes(b)
{
    let x = noted(a, v);
    let y = noted(b, v);
    let n = x[i]@;
    assert forall|m: Mig| #[trigger] is_noted(b, m) <==> is_noted(a, m) && m != (Mig { v, n }) by {
        if m.v != v {
            assert(noted(b, m.v) == noted(a, m.v));
        } else {
            if is_noted(b, m) {
                let k = choose|k: int| 0 <= k < y.len() && (#[trigger] y[k])@ == m.n;
                if k == i { assert(x[x.len() - 1]@ == m.n); assert(x[i]@ != x[x.len() - 1]@); }
                else { assert(x[k]@ == m.n); if k < i { assert(x[k]@ != x[i]@); } else { assert(x[i]@ != x[k]@); } }
            }
            if is_noted(a, m) && m.n != n {
                let k = choose|k: int| 0 <= k < x.len() && (#[trigger] x[k])@ == m.n;
                if k == x.len() - 1 { assert(y[i]@ == m.n); } else { assert(y[k]@ == m.n); }
            }
        }
    }
    assert forall|w: Version, j: int, k: int| 0 <= j < k < noted(b, w).len() implies (#[trigger] noted(b, w)[j])@ != (#[trigger] noted(b, w)[k])@ by {
        if w != v { assert(noted(b, w) == noted(a, w)); }
        else {
            let l = x.len() - 1;
            if j == i { assert(x[k]@ != x[l]@); } else if k == i { assert(x[j]@ != x[l]@); } else { assert(x[j]@ != x[k]@); }
        }
    }
}
%fn Migrator::insert_applied
    ensures
        notes_with(old(applied)@, final(applied)@, Mig { v: version, n: name@ }),
        clear_notes(old(applied)@) && !is_noted(old(applied)@, Mig { v: version, n: name@ }) ==> clear_notes(final(applied)@),
%at tail
    proof { lemma_pushed(old(applied)@, applied@, version, name); }
%fn Migrator::get_applied
    ensures
        r is None ==> final(applied)@ == old(applied)@ && !is_noted(old(applied)@, Mig { v: *version, n: name@ }),
        r is Some ==> old(applied)@.dom().contains(*version) && *r->Some_0.0 == old(applied)@[*version]
            && r->Some_0.1 < noted(old(applied)@, *version).len() && noted(old(applied)@, *version)[r->Some_0.1 as int]@ == name@
            && final(applied)@ == old(applied)@.insert(*version, *final(r->Some_0.0)),
%opt map=option
%rw x == name => x.as_str() == name
%at loop 0 before
    let ghost old_names = migrations@;
%loop 0
    invariant_except_break
        vx_r is None,
        forall|i: int| 0 <= i < it0.index@ ==> (#[trigger] vx_s@[i])@ != name@,
    invariant
        vx_s@ == old_names,
    ensures
        vx_r is None ==> forall|i: int| 0 <= i < old_names.len() ==> (#[trigger] old_names[i])@ != name@,
        vx_r is Some ==> vx_r->Some_0 < old_names.len() && old_names[vx_r->Some_0 as int]@ == name@,
%raw
pub open spec fn notes(a: Map<Version, Vec<String>>) -> ISet<Mig> { ISet::new(|m: Mig| is_noted(a, m)) }
/// A migration of a list.
pub struct Item { pub v: Version, pub m: VxMigration }
pub open spec fn key(x: Item) -> Mig { Mig { v: x.v, n: x.m.named() } }
pub open spec fn among(s: Seq<Item>, k: Mig) -> bool { exists|i: int| 0 <= i < s.len() && key(#[trigger] s[i]) == k }
pub open spec fn keys(s: Seq<Item>) -> ISet<Mig> { ISet::new(|k: Mig| among(s, k)) }
pub open spec fn item(l: Seq<MigrationList>, i: int, j: int) -> Item { Item { v: l[i].version, m: l[i].migrations@[j] } }
/// The migrations to run on the way up to `t`: those of the first `i` lists and the first `j` of the next one that are not
/// applied yet and whose version does not exceed `t`, in their order.
pub open spec fn todo_up(l: Seq<MigrationList>, i: nat, j: nat, t: Option<Version>, a: ISet<Mig>) -> Seq<Item>
    decreases i, j
{
    if j > 0 {
        let s = todo_up(l, i, (j - 1) as nat, t, a);
        let x = item(l, i as int, j - 1);
        if wanted(t, x.v) && !a.contains(key(x)) && !among(s, key(x)) { s.push(x) } else { s }
    } else if i > 0 {
        todo_up(l, (i - 1) as nat, l[i - 1].migrations@.len(), t, a)
    } else {
        Seq::empty()
    }
}
/// The statement that records `x`.
pub open spec fn ins(x: Mig) -> Seq<char> {
    Seq::<char>::empty() + "insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ("@ + dec(x.v.0 as nat) + ", "@ + dec(x.v.1 as nat) + ", "@ + dec(x.v.2 as nat) + ", \""@ + x.n + "\")"@
}
pub open spec fn up_events(s: Seq<Item>) -> Seq<Event>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { up_events(s.drop_last()) + seq![Event::Up(s.last().m, true), Event::Sql(ins(key(s.last())), true)] }
}
/// Everything to be done was done and recorded.
pub open spec fn up_done(todo: Seq<Item>, log0: Seq<Event>, log1: Seq<Event>, a0: ISet<Mig>, a1: ISet<Mig>) -> bool {
    log1 == log0 + up_events(todo) && a1 == a0.union(keys(todo))
}
/// The run broke off at `todo[k]`: either the migration failed, and it is not noted; or it succeeded, and is noted, but the record
/// could not be written.
pub open spec fn up_broken(todo: Seq<Item>, k: int, log0: Seq<Event>, log1: Seq<Event>, a0: ISet<Mig>, a1: ISet<Mig>) -> bool {
    let before = log0 + up_events(todo.take(k));
    let x = todo[k];
    0 <= k < todo.len() && (
        log1 == before.push(Event::Up(x.m, false)) && a1 == a0.union(keys(todo.take(k)))
        || log1 == before.push(Event::Up(x.m, true)) && a1 == a0.union(keys(todo.take(k + 1)))
        || log1 == before.push(Event::Up(x.m, true)).push(Event::Sql(ins(key(x)), false)) && a1 == a0.union(keys(todo.take(k + 1)))
    )
}
pub open spec fn up_ran(todo: Seq<Item>, log0: Seq<Event>, log1: Seq<Event>, a0: ISet<Mig>, a1: ISet<Mig>, ok: bool) -> bool {
    if ok { up_done(todo, log0, log1, a0, a1) } else { exists|k: int| #[trigger] here(k) && up_broken(todo, k, log0, log1, a0, a1) }
}
pub open spec fn here(k: int) -> bool { true }
pub proof fn lemma_keys_push(s: Seq<Item>, x: Item)
    ensures keys(s.push(x)) =~= keys(s).insert(key(x)), up_events(s.push(x)) =~= up_events(s) + seq![Event::Up(x.m, true), Event::Sql(ins(key(x)), true)]
{
    assert(s.push(x).drop_last() =~= s);
    assert forall|k: Mig| #[trigger] keys(s.push(x)).contains(k) <==> keys(s).insert(key(x)).contains(k) by {
        if among(s, k) { let i = choose|i: int| 0 <= i < s.len() && key(#[trigger] s[i]) == k; assert(key(s.push(x)[i]) == k); }
        if k == key(x) { assert(key(s.push(x)[s.len() as int]) == k); }
        if among(s.push(x), k) { let i = choose|i: int| 0 <= i < s.len() + 1 && key(#[trigger] s.push(x)[i]) == k; if i < s.len() { assert(key(s[i]) == k); } }
    }
}
/// The next thing to be done.
pub proof fn lemma_up_next(l: Seq<MigrationList>, i: nat, j: nat, t: Option<Version>, a: ISet<Mig>)
    requires i < l.len(), j < l[i as int].migrations@.len(), wanted(t, l[i as int].version), !a.contains(key(item(l, i as int, j as int))), !among(todo_up(l, i, j, t, a), key(item(l, i as int, j as int)))
    ensures ({
        let s = todo_up(l, i, j, t, a);
        let x = item(l, i as int, j as int);
        let all = all_up(l, t, a);
        &&& todo_up(l, i, j + 1, t, a) == s.push(x)
        &&& s.len() < all.len() && all.take(s.len() as int) == s && all.take(s.len() as int + 1) == s.push(x) && all[s.len() as int] == x
        &&& keys(s.push(x)) == keys(s).insert(key(x))
        &&& up_events(s.push(x)) == up_events(s) + seq![Event::Up(x.m, true), Event::Sql(ins(key(x)), true)]
        &&& here(s.len() as int)
    })
{
    let s = todo_up(l, i, j, t, a);
    let x = item(l, i as int, j as int);
    lemma_up_prefix(l, i, j, l.len(), 0, t, a);
    lemma_up_prefix(l, i, j + 1, l.len(), 0, t, a);
    lemma_keys_push(s, x);
    assert(all_up(l, t, a).take(s.len() as int + 1)[s.len() as int] == x);
}
pub open spec fn all_up(l: Seq<MigrationList>, t: Option<Version>, a: ISet<Mig>) -> Seq<Item> { todo_up(l, l.len(), 0, t, a) }
/// Later points of the lists only add to what is to be done.
pub proof fn lemma_up_prefix(l: Seq<MigrationList>, i: nat, j: nat, i2: nat, j2: nat, t: Option<Version>, a: ISet<Mig>)
    requires i < i2 || i == i2 && j <= j2, i < i2 ==> j <= l[i as int].migrations@.len()
    ensures todo_up(l, i, j, t, a).len() <= todo_up(l, i2, j2, t, a).len(), todo_up(l, i2, j2, t, a).take(todo_up(l, i, j, t, a).len() as int) == todo_up(l, i, j, t, a)
    decreases i2, j2
{
    let s = todo_up(l, i, j, t, a);
    let r = todo_up(l, i2, j2, t, a);
    if i == i2 && j == j2 { assert(r.take(s.len() as int) =~= s); }
    else if j2 > 0 {
        lemma_up_prefix(l, i, j, i2, (j2 - 1) as nat, t, a);
        let q = todo_up(l, i2, (j2 - 1) as nat, t, a);
        assert(r.take(s.len() as int) =~= q.take(s.len() as int));
    } else {
        lemma_up_prefix(l, i, j, (i2 - 1) as nat, l[i2 - 1].migrations@.len(), t, a);
    }
}
/// A list beyond the target adds nothing.
pub proof fn lemma_up_skip(l: Seq<MigrationList>, i: nat, j: nat, t: Version, a: ISet<Mig>)
    requires vless(t, l[i as int].version)
    ensures todo_up(l, i, j, Some(t), a) == todo_up(l, i, 0, Some(t), a)
    decreases j
{
    if j > 0 { lemma_up_skip(l, i, (j - 1) as nat, t, a); }
}
/// `p` is one of the first `i` lists or of the first `j` of the next one.
pub open spec fn listed(l: Seq<MigrationList>, i: nat, j: nat, p: Item) -> bool {
    exists|c: int, d: int| (0 <= c < i && 0 <= d < l[c].migrations@.len() || c == i && 0 <= d < j) && p == #[trigger] item(l, c, d)
}
pub open spec fn in_order(s: Seq<Item>) -> bool {
    forall|x: int, y: int| 0 <= x < y < s.len() ==> !vless((#[trigger] s[y]).v, (#[trigger] s[x]).v) && key(s[x]) != key(s[y])
}
pub open spec fn wanted(t: Option<Version>, v: Version) -> bool { !(t is Some && vless(t->Some_0, v)) }
/// What is to be done, in a list of migrations in ascending order of versions: in ascending order, nothing twice, nothing beyond the
/// target, nothing already applied; and nothing else is missing.
pub proof fn lemma_up(l: Seq<MigrationList>, i: nat, j: nat, t: Option<Version>, a: ISet<Mig>)
    requires ascending(l), i <= l.len(), j > 0 ==> i < l.len() && j <= l[i as int].migrations@.len()
    ensures
        in_order(todo_up(l, i, j, t, a)),
        forall|x: int| 0 <= x < todo_up(l, i, j, t, a).len() ==> {
            let p = #[trigger] todo_up(l, i, j, t, a)[x];
            !a.contains(key(p)) && wanted(t, p.v) && listed(l, i, j, p)
        },
        forall|p: Item| listed(l, i, j, p) && wanted(t, p.v) && !a.contains(key(p)) ==> #[trigger] among(todo_up(l, i, j, t, a), key(p)),
    decreases i, j
{
    let r = todo_up(l, i, j, t, a);
    if j > 0 {
        let j1 = (j - 1) as nat;
        lemma_up(l, i, j1, t, a);
        let q = todo_up(l, i, j1, t, a);
        let x = item(l, i as int, j - 1);
        assert(listed(l, i, j, x));
        assert forall|p: Item| listed(l, i, j1, p) implies listed(l, i, j, p) && !vless(x.v, p.v) by {
            let (c, d) = choose|c: int, d: int| (0 <= c < i && 0 <= d < l[c].migrations@.len() || c == i && 0 <= d < j1) && p == #[trigger] item(l, c, d);
            assert(p == item(l, c, d));
            if c < i { assert(vless(l[c].version, l[i as int].version)); }
        }
        assert forall|k: Mig| among(q, k) implies #[trigger] among(r, k) by {
            let n = choose|n: int| 0 <= n < q.len() && key(#[trigger] q[n]) == k;
            assert(key(r[n]) == k);
        }
        if r.len() > q.len() {
            assert(key(r[q.len() as int]) == key(x));
            assert(r == q.push(x));
            assert forall|y: int| 0 <= y < q.len() implies !vless(x.v, (#[trigger] q[y]).v) && key(q[y]) != key(x) by {}
            assert forall|c: int, d: int| 0 <= c < d < r.len() implies !vless((#[trigger] r[d]).v, (#[trigger] r[c]).v) && key(r[c]) != key(r[d]) by {
                assert(r[c] == q[c]);
                if d < q.len() { assert(r[d] == q[d]); } else { assert(r[d] == x); }
            }
            assert forall|c: int| 0 <= c < r.len() implies { let p = #[trigger] r[c]; !a.contains(key(p)) && wanted(t, p.v) && listed(l, i, j, p) } by {
                if c < q.len() { assert(r[c] == q[c]); } else { assert(r[c] == x); }
            }
        }
        assert forall|p: Item| listed(l, i, j, p) && wanted(t, p.v) && !a.contains(key(p)) implies #[trigger] among(r, key(p)) by {
            let (c, d) = choose|c: int, d: int| (0 <= c < i && 0 <= d < l[c].migrations@.len() || c == i && 0 <= d < j) && p == #[trigger] item(l, c, d);
            if c < i || d < j1 { assert(item(l, c, d) == p); assert(listed(l, i, j1, p)); assert(among(q, key(p))); }
        }
    } else if i > 0 {
        let (i1, j1) = ((i - 1) as nat, l[i - 1].migrations@.len());
        lemma_up(l, i1, j1, t, a);
        assert forall|p: Item| listed(l, i, j, p) <==> listed(l, i1, j1, p) by {
            if listed(l, i, j, p) {
                let (c, d) = choose|c: int, d: int| (0 <= c < i && 0 <= d < l[c].migrations@.len() || c == i && 0 <= d < j) && p == #[trigger] item(l, c, d);
                assert(item(l, c, d) == p);
            }
            if listed(l, i1, j1, p) {
                let (c, d) = choose|c: int, d: int| (0 <= c < i1 && 0 <= d < l[c].migrations@.len() || c == i1 && 0 <= d < j1) && p == #[trigger] item(l, c, d);
                assert(item(l, c, d) == p);
            }
        }
    }
}
%fn Migrator::up_to_version
    requires clear_notes(old(self).applied@)
    ensures
        final(self).migrations == old(self).migrations, clear_notes(final(self).applied@),
        up_ran(all_up(old(self).migrations@, version, notes(old(self).applied@)), old(self).pool.log(), final(self).pool.log(), notes(old(self).applied@), notes(final(self).applied@), r is Ok),
%rw migration.up(self.pool) => migration.up(&mut self.pool)
%attr #[verifier::loop_isolation(false)]
%at entry
    let ghost l = self.migrations@;
    let ghost a = notes(self.applied@);
    let ghost log = self.pool.log();
    let ghost all = all_up(l, version, a);
%at loop 0 before
    proof { assert(keys(Seq::<Item>::empty()) =~= ISet::<Mig>::empty()); assert(log + Seq::<Event>::empty() =~= log); assert(a.union(ISet::<Mig>::empty()) =~= a); }
%loop 0
    invariant
        self.migrations@ == l, self.migrations == old(self).migrations, clear_notes(self.applied@),
        up_done(todo_up(l, it0.index@ as nat, 0, version, a), log, self.pool.log(), a, notes(self.applied@)),
%at loop 0 start
    proof { if version is Some && vless(version->Some_0, migration_list.version) { lemma_up_skip(l, it0.index@ as nat, migration_list.migrations@.len(), version->Some_0, a); } }
%loop 1
    invariant
        self.migrations@ == l, self.migrations == old(self).migrations, clear_notes(self.applied@),
        up_done(todo_up(l, it0.index@ as nat, it1.index@ as nat, version, a), log, self.pool.log(), a, notes(self.applied@)),
%at loop 1 start
    let ghost s = todo_up(l, it0.index@ as nat, it1.index@ as nat, version, a);
    let ghost x = item(l, it0.index@, it1.index@);
    let ghost before = self.applied@;
    let ghost log1 = self.pool.log();
    proof {
        assert(*migration_list == l[it0.index@] && *migration == migration_list.migrations@[it1.index@]);
        assert(notes(before).contains(key(x)) == is_noted(before, key(x)));
        if !notes(before).contains(key(x)) { lemma_up_next(l, it0.index@ as nat, it1.index@ as nat, version, a); }
    }
%at after call insert_applied
    proof {
        assert forall|k: Mig| #[trigger] notes(self.applied@).contains(k) <==> a.union(keys(s.push(x))).contains(k) by {
            assert(is_noted(self.applied@, k) <==> is_noted(before, k) || k == key(x));
            assert(notes(self.applied@).contains(k) == is_noted(self.applied@, k));
            assert(notes(before).contains(k) == is_noted(before, k));
            assert(keys(s.push(x)).contains(k) == (keys(s).contains(k) || k == key(x)));
        }
        assert(notes(self.applied@) =~= a.union(keys(s.push(x))));
    }
%at loop 1 end
    proof {
        if !notes(before).contains(key(x)) {
            let e = seq![Event::Up(x.m, true), Event::Sql(ins(key(x)), true)];
            assert(log1.push(Event::Up(x.m, true)).push(Event::Sql(ins(key(x)), true)) =~= log1 + e);
            assert(log1 + e =~= log + (up_events(s) + e));
        }
        if notes(before).contains(key(x)) { assert(self.applied@ =~= before); }
    }
%fn Migrator::up
    requires clear_notes(old(self).applied@)
    ensures
        final(self).migrations == old(self).migrations, clear_notes(final(self).applied@),
        up_ran(all_up(old(self).migrations@, None, notes(old(self).applied@)), old(self).pool.log(), final(self).pool.log(), notes(old(self).applied@), notes(final(self).applied@), r is Ok),
%raw
/// The `j`-th migration from the end of the `i`-th list from the end.
pub open spec fn item_dn(l: Seq<MigrationList>, i: int, j: int) -> Item { item(l, l.len() - 1 - i, l[l.len() - 1 - i].migrations@.len() - 1 - j) }
pub open spec fn above(t: Option<Version>, v: Version) -> bool { t is Some ==> vless(t->Some_0, v) }
/// The migrations to undo on the way down to `t`: from the end of the lists, those that are applied and whose version is above `t`
/// (all of them if there is no target).
pub open spec fn todo_dn(l: Seq<MigrationList>, i: nat, j: nat, t: Option<Version>, a: ISet<Mig>) -> Seq<Item>
    decreases i, j
{
    if j > 0 {
        let s = todo_dn(l, i, (j - 1) as nat, t, a);
        let x = item_dn(l, i as int, j - 1);
        if above(t, x.v) && a.contains(key(x)) && !among(s, key(x)) { s.push(x) } else { s }
    } else if i > 0 {
        todo_dn(l, (i - 1) as nat, l[l.len() - i].migrations@.len(), t, a)
    } else {
        Seq::empty()
    }
}
pub open spec fn all_dn(l: Seq<MigrationList>, t: Option<Version>, a: ISet<Mig>) -> Seq<Item> { todo_dn(l, l.len(), 0, t, a) }
/// The statement that strikes `x` from the record.
pub open spec fn del(x: Mig) -> Seq<char> {
    Seq::<char>::empty() + "delete from `migrations` where `version_0` = "@ + dec(x.v.0 as nat) + " and `version_1` = "@ + dec(x.v.1 as nat) + " and `version_2` = "@ + dec(x.v.2 as nat) + " and `name` = \""@ + x.n + "\""@
}
pub open spec fn dn_events(s: Seq<Item>) -> Seq<Event>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { dn_events(s.drop_last()) + seq![Event::Down(s.last().m, true), Event::Sql(del(key(s.last())), true)] }
}
pub open spec fn dn_done(todo: Seq<Item>, log0: Seq<Event>, log1: Seq<Event>, a0: ISet<Mig>, a1: ISet<Mig>) -> bool {
    log1 == log0 + dn_events(todo) && a1 == a0.difference(keys(todo))
}
pub open spec fn dn_broken(todo: Seq<Item>, k: int, log0: Seq<Event>, log1: Seq<Event>, a0: ISet<Mig>, a1: ISet<Mig>) -> bool {
    let before = log0 + dn_events(todo.take(k));
    let x = todo[k];
    0 <= k < todo.len() && (
        log1 == before.push(Event::Down(x.m, false)) && a1 == a0.difference(keys(todo.take(k)))
        || log1 == before.push(Event::Down(x.m, true)) && a1 == a0.difference(keys(todo.take(k + 1)))
        || log1 == before.push(Event::Down(x.m, true)).push(Event::Sql(del(key(x)), false)) && a1 == a0.difference(keys(todo.take(k + 1)))
    )
}
pub open spec fn dn_ran(todo: Seq<Item>, log0: Seq<Event>, log1: Seq<Event>, a0: ISet<Mig>, a1: ISet<Mig>, ok: bool) -> bool {
    if ok { dn_done(todo, log0, log1, a0, a1) } else { exists|k: int| #[trigger] here(k) && dn_broken(todo, k, log0, log1, a0, a1) }
}
pub proof fn lemma_dn_push(s: Seq<Item>, x: Item)
    ensures keys(s.push(x)) == keys(s).insert(key(x)), dn_events(s.push(x)) =~= dn_events(s) + seq![Event::Down(x.m, true), Event::Sql(del(key(x)), true)]
{
    lemma_keys_push(s, x);
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_dn_prefix(l: Seq<MigrationList>, i: nat, j: nat, i2: nat, j2: nat, t: Option<Version>, a: ISet<Mig>)
    requires i < i2 || i == i2 && j <= j2, i < i2 ==> i < l.len() && j <= l[l.len() - 1 - i].migrations@.len(), i2 <= l.len()
    ensures todo_dn(l, i, j, t, a).len() <= todo_dn(l, i2, j2, t, a).len(), todo_dn(l, i2, j2, t, a).take(todo_dn(l, i, j, t, a).len() as int) == todo_dn(l, i, j, t, a)
    decreases i2, j2
{
    let s = todo_dn(l, i, j, t, a);
    let r = todo_dn(l, i2, j2, t, a);
    if i == i2 && j == j2 { assert(r.take(s.len() as int) =~= s); }
    else if j2 > 0 {
        lemma_dn_prefix(l, i, j, i2, (j2 - 1) as nat, t, a);
        let q = todo_dn(l, i2, (j2 - 1) as nat, t, a);
        assert(r.take(s.len() as int) =~= q.take(s.len() as int));
    } else {
        lemma_dn_prefix(l, i, j, (i2 - 1) as nat, l[l.len() - i2].migrations@.len(), t, a);
    }
}
pub proof fn lemma_dn_skip(l: Seq<MigrationList>, i: nat, j: nat, t: Version, a: ISet<Mig>)
    requires !vless(t, l[l.len() - 1 - i].version)
    ensures todo_dn(l, i, j, Some(t), a) == todo_dn(l, i, 0, Some(t), a)
    decreases j
{
    if j > 0 { lemma_dn_skip(l, i, (j - 1) as nat, t, a); }
}
pub proof fn lemma_dn_next(l: Seq<MigrationList>, i: nat, j: nat, t: Option<Version>, a: ISet<Mig>)
    requires i < l.len(), j < l[l.len() - 1 - i].migrations@.len(), above(t, item_dn(l, i as int, j as int).v), a.contains(key(item_dn(l, i as int, j as int))), !among(todo_dn(l, i, j, t, a), key(item_dn(l, i as int, j as int)))
    ensures ({
        let s = todo_dn(l, i, j, t, a);
        let x = item_dn(l, i as int, j as int);
        let all = all_dn(l, t, a);
        &&& todo_dn(l, i, j + 1, t, a) == s.push(x)
        &&& s.len() < all.len() && all.take(s.len() as int) == s && all.take(s.len() as int + 1) == s.push(x) && all[s.len() as int] == x
        &&& keys(s.push(x)) == keys(s).insert(key(x))
        &&& dn_events(s.push(x)) == dn_events(s) + seq![Event::Down(x.m, true), Event::Sql(del(key(x)), true)]
        &&& here(s.len() as int)
    })
{
    let s = todo_dn(l, i, j, t, a);
    let x = item_dn(l, i as int, j as int);
    lemma_dn_prefix(l, i, j, l.len(), 0, t, a);
    lemma_dn_prefix(l, i, j + 1, l.len(), 0, t, a);
    lemma_dn_push(s, x);
    assert(all_dn(l, t, a).take(s.len() as int + 1)[s.len() as int] == x);
}
/// `p` is one of the last `i` lists or of the last `j` of the one before.
pub open spec fn listed_dn(l: Seq<MigrationList>, i: nat, j: nat, p: Item) -> bool {
    exists|c: int, d: int| (0 <= c < i && 0 <= d < l[l.len() - 1 - c].migrations@.len() || c == i && 0 <= d < j) && p == #[trigger] item_dn(l, c, d)
}
pub open spec fn out_of_order(s: Seq<Item>) -> bool {
    forall|x: int, y: int| 0 <= x < y < s.len() ==> !vless((#[trigger] s[x]).v, (#[trigger] s[y]).v) && key(s[x]) != key(s[y])
}
/// What is to be undone, in a list in ascending order: in descending order, nothing twice, only what is applied and above the target;
/// and nothing else is missing.
pub proof fn lemma_dn(l: Seq<MigrationList>, i: nat, j: nat, t: Option<Version>, a: ISet<Mig>)
    requires ascending(l), i <= l.len(), j > 0 ==> i < l.len() && j <= l[l.len() - 1 - i].migrations@.len()
    ensures
        out_of_order(todo_dn(l, i, j, t, a)),
        forall|x: int| 0 <= x < todo_dn(l, i, j, t, a).len() ==> {
            let p = #[trigger] todo_dn(l, i, j, t, a)[x];
            a.contains(key(p)) && above(t, p.v) && listed_dn(l, i, j, p)
        },
        forall|p: Item| listed_dn(l, i, j, p) && above(t, p.v) && a.contains(key(p)) ==> #[trigger] among(todo_dn(l, i, j, t, a), key(p)),
    decreases i, j
{
    let r = todo_dn(l, i, j, t, a);
    if j > 0 {
        let j1 = (j - 1) as nat;
        lemma_dn(l, i, j1, t, a);
        let q = todo_dn(l, i, j1, t, a);
        let x = item_dn(l, i as int, j - 1);
        assert(listed_dn(l, i, j, x));
        assert forall|p: Item| #[trigger] listed_dn(l, i, j1, p) implies listed_dn(l, i, j, p) && !vless(p.v, x.v) by {
            let (c, d) = choose|c: int, d: int| (0 <= c < i && 0 <= d < l[l.len() - 1 - c].migrations@.len() || c == i && 0 <= d < j1) && p == #[trigger] item_dn(l, c, d);
            assert(p == item_dn(l, c, d));
            if c < i { assert(vless(l[l.len() - 1 - i].version, l[l.len() - 1 - c].version)); }
        }
        assert forall|k: Mig| among(q, k) implies #[trigger] among(r, k) by {
            let n = choose|n: int| 0 <= n < q.len() && key(#[trigger] q[n]) == k;
            assert(key(r[n]) == k);
        }
        if r.len() > q.len() {
            assert(key(r[q.len() as int]) == key(x));
            assert(r == q.push(x));
            assert forall|y: int| 0 <= y < q.len() implies !vless((#[trigger] q[y]).v, x.v) && key(q[y]) != key(x) by {}
            assert forall|c: int, d: int| 0 <= c < d < r.len() implies !vless((#[trigger] r[c]).v, (#[trigger] r[d]).v) && key(r[c]) != key(r[d]) by {
                assert(r[c] == q[c]);
                if d < q.len() { assert(r[d] == q[d]); } else { assert(r[d] == x); }
            }
            assert forall|c: int| 0 <= c < r.len() implies { let p = #[trigger] r[c]; a.contains(key(p)) && above(t, p.v) && listed_dn(l, i, j, p) } by {
                if c < q.len() { assert(r[c] == q[c]); } else { assert(r[c] == x); }
            }
        }
        assert forall|p: Item| listed_dn(l, i, j, p) && above(t, p.v) && a.contains(key(p)) implies #[trigger] among(r, key(p)) by {
            let (c, d) = choose|c: int, d: int| (0 <= c < i && 0 <= d < l[l.len() - 1 - c].migrations@.len() || c == i && 0 <= d < j) && p == #[trigger] item_dn(l, c, d);
            if c < i || d < j1 { assert(item_dn(l, c, d) == p); assert(listed_dn(l, i, j1, p)); assert(among(q, key(p))); }
        }
    } else if i > 0 {
        let (i1, j1) = ((i - 1) as nat, l[l.len() - i].migrations@.len());
        lemma_dn(l, i1, j1, t, a);
        assert forall|p: Item| #[trigger] listed_dn(l, i, j, p) <==> listed_dn(l, i1, j1, p) by {
            if listed_dn(l, i, j, p) {
                let (c, d) = choose|c: int, d: int| (0 <= c < i && 0 <= d < l[l.len() - 1 - c].migrations@.len() || c == i && 0 <= d < j) && p == #[trigger] item_dn(l, c, d);
                assert(item_dn(l, c, d) == p);
            }
            if listed_dn(l, i1, j1, p) {
                let (c, d) = choose|c: int, d: int| (0 <= c < i1 && 0 <= d < l[l.len() - 1 - c].migrations@.len() || c == i1 && 0 <= d < j1) && p == #[trigger] item_dn(l, c, d);
                assert(item_dn(l, c, d) == p);
            }
        }
    }
}
/// Migrating down again undoes what migrating up did: what is above `t` after going up is what was, or what was added.
pub proof fn lemma_dropped_set(b: Map<Version, Vec<String>>, c: Map<Version, Vec<String>>, a: ISet<Mig>, s: Seq<Item>, x: Item, i: int)
    requires
        clear_notes(b), b.dom().contains(x.v), 0 <= i < b[x.v]@.len(), b[x.v]@[i]@ == x.m.named(),
        c.dom() == b.dom(), forall|w: Version| w != x.v && b.dom().contains(w) ==> c[w] == b[w],
        c[x.v]@ == b[x.v]@.update(i, b[x.v]@.last()).drop_last(),
        notes(b) == a.difference(keys(s)),
    ensures notes(c) == a.difference(keys(s.push(x))), clear_notes(c)
{
    lemma_dropped(b, c, x.v, i);
    lemma_keys_push(s, x);
    assert forall|k: Mig| #[trigger] notes(c).contains(k) <==> a.difference(keys(s.push(x))).contains(k) by {
        assert(is_noted(c, k) <==> is_noted(b, k) && k != key(x));
        assert(notes(b).contains(k) == is_noted(b, k));
        assert(notes(c).contains(k) == is_noted(c, k));
        assert(keys(s.push(x)).contains(k) == (keys(s).contains(k) || k == key(x)));
    }
    assert(notes(c) =~= a.difference(keys(s.push(x))));
}
%fn Migrator::down_to_version
    requires clear_notes(old(self).applied@)
    ensures
        final(self).migrations == old(self).migrations, clear_notes(final(self).applied@),
        dn_ran(all_dn(old(self).migrations@, Some(version), notes(old(self).applied@)), old(self).pool.log(), final(self).pool.log(), notes(old(self).applied@), notes(final(self).applied@), r is Ok),
%rw migration.down(self.pool) => migration.down(&mut self.pool)
%attr #[verifier::loop_isolation(false)]
%at entry
    let ghost l = self.migrations@;
    let ghost a = notes(self.applied@);
    let ghost log = self.pool.log();
    let ghost all = all_dn(l, Some(version), a);
%at loop 0 before
    proof { assert(keys(Seq::<Item>::empty()) =~= ISet::<Mig>::empty()); assert(log + Seq::<Event>::empty() =~= log); assert(a.difference(ISet::<Mig>::empty()) =~= a); }
%loop 0
    invariant
        self.migrations@ == l, self.migrations == old(self).migrations, clear_notes(self.applied@),
        dn_done(todo_dn(l, it0.index@ as nat, 0, Some(version), a), log, self.pool.log(), a, notes(self.applied@)),
%at loop 0 start
    proof { if !vless(version, migration_list.version) { lemma_dn_skip(l, it0.index@ as nat, migration_list.migrations@.len(), version, a); } }
%loop 1
    invariant
        self.migrations@ == l, self.migrations == old(self).migrations, clear_notes(self.applied@),
        dn_done(todo_dn(l, it0.index@ as nat, it1.index@ as nat, Some(version), a), log, self.pool.log(), a, notes(self.applied@)),
%at loop 1 start
    let ghost s = todo_dn(l, it0.index@ as nat, it1.index@ as nat, Some(version), a);
    let ghost x = item_dn(l, it0.index@, it1.index@);
    let ghost before = self.applied@;
    let ghost log1 = self.pool.log();
    proof {
        assert(*migration_list == l[l.len() - 1 - it0.index@] && *migration == x.m && migration_list.version == x.v);
        assert(notes(before).contains(key(x)) == is_noted(before, key(x)));
        if notes(before).contains(key(x)) { lemma_dn_next(l, it0.index@ as nat, it1.index@ as nat, Some(version), a); assert(before.insert(x.v, before[x.v]) =~= before); }
    }
%at after call swap_remove
    proof {
        lemma_dropped_set(before, before.insert(x.v, *applied), a, s, x, index as int);
    }
%at loop 1 end
    proof {
        if notes(before).contains(key(x)) {
            let e = seq![Event::Down(x.m, true), Event::Sql(del(key(x)), true)];
            assert(log1.push(Event::Down(x.m, true)).push(Event::Sql(del(key(x)), true)) =~= log1 + e);
            assert(log1 + e =~= log + (dn_events(s) + e));
        }
    }
%fn Migrator::to_version
    requires clear_notes(old(self).applied@)
    ensures
        final(self).migrations == old(self).migrations, clear_notes(final(self).applied@),
        ({
            let l = old(self).migrations@;
            let a = notes(old(self).applied@);
            let up = all_up(l, Some(version), a);
            let dn = all_dn(l, Some(version), a.union(keys(up)));
            ||| r is Err && up_ran(up, old(self).pool.log(), final(self).pool.log(), a, notes(final(self).applied@), false)
            ||| dn_ran(dn, old(self).pool.log() + up_events(up), final(self).pool.log(), a.union(keys(up)), notes(final(self).applied@), r is Ok)
        }),
%fn Migrator::one_down
    requires clear_notes(old(self).applied@)
    ensures
        final(self).migrations == old(self).migrations, clear_notes(final(self).applied@),
        ({
            let all = all_dn(old(self).migrations@, None, notes(old(self).applied@));
            let (l0, l1, a0, a1) = (old(self).pool.log(), final(self).pool.log(), notes(old(self).applied@), notes(final(self).applied@));
            match r {
                Ok(true) => all.len() > 0 && dn_done(all.take(1), l0, l1, a0, a1),
                Ok(false) => all.len() == 0 && l1 == l0 && a1 == a0,
                Err(_) => dn_broken(all, 0, l0, l1, a0, a1),
            }
        }),
%rw migration.down(self.pool) => migration.down(&mut self.pool)
%attr #[verifier::loop_isolation(false)]
%at entry
    let ghost l = self.migrations@;
    let ghost a = notes(self.applied@);
    let ghost log = self.pool.log();
    let ghost all = all_dn(l, None, a);
    proof { assert(keys(Seq::<Item>::empty()) =~= ISet::<Mig>::empty()); assert(log + Seq::<Event>::empty() =~= log); assert(a.difference(ISet::<Mig>::empty()) =~= a); }
%loop 0
    invariant
        self.migrations@ == l, self.pool == old(self).pool, self.applied@ == old(self).applied@, self.migrations == old(self).migrations,
        todo_dn(l, it0.index@ as nat, 0, None, a).len() == 0,
%loop 1
    invariant
        self.migrations@ == l, self.pool == old(self).pool, self.applied@ == old(self).applied@, self.migrations == old(self).migrations,
        todo_dn(l, it0.index@ as nat, it1.index@ as nat, None, a).len() == 0,
%at loop 1 start
    let ghost s = todo_dn(l, it0.index@ as nat, it1.index@ as nat, None, a);
    let ghost x = item_dn(l, it0.index@, it1.index@);
    let ghost before = self.applied@;
    proof {
        assert(*migration_list == l[l.len() - 1 - it0.index@] && *migration == x.m && migration_list.version == x.v);
        assert(notes(before).contains(key(x)) == is_noted(before, key(x)));
        assert(s =~= Seq::<Item>::empty());
        if notes(before).contains(key(x)) { lemma_dn_next(l, it0.index@ as nat, it1.index@ as nat, None, a); assert(before.insert(x.v, before[x.v]) =~= before); 
            let e = seq![Event::Down(x.m, true), Event::Sql(del(key(x)), true)];
            assert(log.push(Event::Down(x.m, true)).push(Event::Sql(del(key(x)), true)) =~= log + e);
            assert(all.take(0 as int) =~= s);
            assert(dn_events(s.push(x)) =~= e);
        }
    }
%at after call swap_remove
    proof {
        lemma_dropped_set(before, before.insert(x.v, *applied), a, s, x, index as int);
    }
%type MigrationModel
%raw
/// A result set: the rows that are still to come.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxRows<T> { x: Vec<T> }
/// The rows the server answers the last statement of `log` with.
pub uninterp spec fn answers<T>(log: Seq<Event>) -> Seq<T>;
impl VxPool {
    #[verifier::external_body]
    pub fn query<T>(&mut self, q: &str) -> (r: Result<VxRows<T>, Error>)
        ensures
            final(self).log() == old(self).log().push(Event::Sql(q@, r is Ok)),
            r is Ok ==> r->Ok_0.rest() == answers::<T>(final(self).log()),
    { unimplemented!() }
}
impl<T> VxRows<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Result<Option<T>, Error>)
        ensures
            r is Ok && r->Ok_0 is None ==> old(self).rest().len() == 0,
            r is Ok && r->Ok_0 is Some ==> old(self).rest().len() > 0 && r->Ok_0->Some_0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(&mut self) -> (r: Result<Vec<T>, Error>)
        ensures r is Ok ==> r->Ok_0@ == old(self).rest()
    { unimplemented!() }
}
pub open spec fn row_key(m: MigrationModel) -> Mig { Mig { v: m.version, n: m.name@ } }
pub open spec fn recorded(s: Seq<MigrationModel>, k: Mig) -> bool { exists|i: int| 0 <= i < s.len() && row_key(#[trigger] s[i]) == k }
/// No two rows name the same migration (the table has a unique key over exactly these columns).
pub open spec fn distinct_rows(s: Seq<MigrationModel>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> row_key(#[trigger] s[i]) != row_key(#[trigger] s[j]) }
/// A row that names a migration of the lists.
pub open spec fn known(l: Seq<MigrationList>, m: MigrationModel) -> bool { exists|p: Item| listed(l, l.len(), 0, p) && key(p) == row_key(m) }
pub proof fn lemma_recorded(s: Seq<MigrationModel>, n: int)
    requires 0 <= n < s.len()
    ensures
        forall|k: Mig| #[trigger] recorded(s.take(n + 1), k) <==> recorded(s.take(n), k) || k == row_key(s[n]),
        distinct_rows(s) ==> !recorded(s.take(n), row_key(s[n])),
{
    let (a, b) = (s.take(n), s.take(n + 1));
    assert forall|k: Mig| #[trigger] recorded(b, k) <==> recorded(a, k) || k == row_key(s[n]) by {
        if recorded(a, k) { let i = choose|i: int| 0 <= i < a.len() && row_key(#[trigger] a[i]) == k; assert(row_key(b[i]) == k); }
        if k == row_key(s[n]) { assert(row_key(b[n]) == k); }
        if recorded(b, k) { let i = choose|i: int| 0 <= i < b.len() && row_key(#[trigger] b[i]) == k; if i < n { assert(row_key(a[i]) == k); } }
    }
    if distinct_rows(s) && recorded(a, row_key(s[n])) {
        let i = choose|i: int| 0 <= i < a.len() && row_key(#[trigger] a[i]) == row_key(s[n]);
        assert(row_key(s[i]) == row_key(s[n]));
    }
}
/// The deliberate panic on a recorded migration that is in no list: nothing is migrated then.
#[verifier::external_body]
pub fn vx_refuse() -> ! ensures false { unimplemented!() }
%fn Migrator::new
    requires ascending(migrations@)
    ensures
        r is Ok ==> ({
            let rows = answers::<MigrationModel>(r->Ok_0.pool.log());
            &&& r->Ok_0.migrations == migrations
            &&& forall|k: Mig| is_noted(r->Ok_0.applied@, k) <==> #[trigger] recorded(rows, k)
            &&& distinct_rows(rows) ==> clear_notes(r->Ok_0.applied@)
            &&& forall|i: int| 0 <= i < rows.len() ==> known(migrations@, #[trigger] rows[i])
            &&& r->Ok_0.pool.log().last() == Event::Sql("select `version_0`, `version_1`, `version_2`, `name` from `migrations`"@, true)
        }),
%attr #[verifier::loop_isolation(false)]
%rw migration.name() == row.name => row.name.as_str() == migration.name()
%opt refuses
%at entry
    let mut pool = pool;
%at loop 0 before
    let ghost rows = query.rest();
    let ghost log = pool.log();
    let ghost mut n: nat = 0;
    let ghost l = migrations@;
%loop 0
    invariant
        n <= rows.len(), query.rest() == rows.skip(n as int), migrations@ == l,
        forall|k: Mig| is_noted(applied@, k) <==> #[trigger] recorded(rows.take(n as int), k),
        distinct_rows(rows) ==> clear_notes(applied@),
        forall|i: int| 0 <= i < n ==> #[trigger] known(l, rows[i]),
    decreases rows.len() - n
%at loop 0 start
    proof {
        assert(row == rows[n as int]);
    }
    let ghost before = applied@;
    let ghost k0 = row_key(row);
%loop 1
    invariant
        found ==> known(l, row), migrations@ == l,
%loop 2
    invariant
        found ==> known(l, row), migrations@ == l,
%at loop 0 end
    proof {
        lemma_recorded(rows, n as int);
        assert forall|k: Mig| is_noted(applied@, k) <==> #[trigger] recorded(rows.take(n as int + 1), k) by {
            assert(is_noted(applied@, k) <==> is_noted(before, k) || k == k0);
            assert(is_noted(before, k) <==> recorded(rows.take(n as int), k));
        }
        if distinct_rows(rows) { assert(is_noted(before, k0) <==> recorded(rows.take(n as int), k0)); }
        n = n + 1; assert(query.rest() =~= rows.skip(n as int)); }
%at loop 2 start
    proof {
        if migration.named() == row.name@ { assert(item(l, it1.index@, it2.index@) == (Item { v: migration_list.version, m: *migration })); assert(key(item(l, it1.index@, it2.index@)) == row_key(row)); }
    }
%at tail
    proof { assert(n == rows.len()); assert(rows.take(n as int) =~= rows); assert(pool.log() == log); }
%type MigrationMapping
%raw
/// `Value::try_into`, by the type wanted.
pub trait VxInto<T>: Sized {
    spec fn converts(self, r: Result<T, ParseError>) -> bool;
    fn vx_try(self) -> (r: Result<T, ParseError>) ensures self.converts(r);
}
impl VxInto<u16> for Value {
    open spec fn converts(self, r: Result<u16, ParseError>) -> bool { (r is Ok <==> self is UShort) && (r is Ok ==> r->Ok_0 == self->UShort_0) }
    fn vx_try(self) -> (r: Result<u16, ParseError>) { self.vx_into_u16() }
}
impl VxInto<String> for Value {
    open spec fn converts(self, r: Result<String, ParseError>) -> bool {
        (r is Ok <==> self is Bytes && vstd::utf8::valid_utf8(self->Bytes_0@)) && (r is Ok ==> utf8(r->Ok_0@) == self->Bytes_0@)
    }
    fn vx_try(self) -> (r: Result<String, ParseError>) { self.vx_into_string() }
}
/// Every mapped column is one of the row's, and no column is mapped twice.
pub open spec fn maps_into(m: MigrationMapping, n: int) -> bool {
    &&& m.version_0 is Some ==> m.version_0->Some_0 < n
    &&& m.version_1 is Some ==> m.version_1->Some_0 < n && m.version_1 != m.version_0
    &&& m.version_2 is Some ==> m.version_2->Some_0 < n && m.version_2 != m.version_0 && m.version_2 != m.version_1
    &&& m.name is Some ==> m.name->Some_0 < n && m.name != m.version_0 && m.name != m.version_1 && m.name != m.version_2
}
%fn <MigrationModel as FromQueryResult>::from_mapping_and_row as vx_migration_row
    requires maps_into(*mapping, old(row)@.len() as int)
    ensures
        r is Ok ==> mapping.version_0 is Some && mapping.version_1 is Some && mapping.version_2 is Some && mapping.name is Some
            && old(row)@[mapping.version_0->Some_0 as int] == Value::UShort(r->Ok_0.version.0)
            && old(row)@[mapping.version_1->Some_0 as int] == Value::UShort(r->Ok_0.version.1)
            && old(row)@[mapping.version_2->Some_0 as int] == Value::UShort(r->Ok_0.version.2)
            && old(row)@[mapping.name->Some_0 as int] is Bytes && utf8(r->Ok_0.name@) == old(row)@[mapping.name->Some_0 as int]->Bytes_0@,
%rw .try_into() => .vx_try()
%fn <MigrationMapping as FromQueryResultMapping<MigrationModel>>::set_mapping_inner as vx_map_column
    ensures
        final(self).version_0 == (if column.org_name@ == "version_0"@ { Some(index) } else { old(self).version_0 }),
        final(self).version_1 == (if column.org_name@ == "version_1"@ { Some(index) } else { old(self).version_1 }),
        final(self).version_2 == (if column.org_name@ == "version_2"@ { Some(index) } else { old(self).version_2 }),
        final(self).name == (if column.org_name@ == "name"@ { Some(index) } else { old(self).name }),
%at entry
    proof {
        reveal_strlit("version_0"); reveal_strlit("version_1"); reveal_strlit("version_2"); reveal_strlit("name");
        assert("version_0"@.len() == 9 && "name"@.len() == 4);
        assert("version_0"@[8] == '0' && "version_1"@[8] == '1' && "version_2"@[8] == '2');
    }
