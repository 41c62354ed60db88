%# Which column of a result set goes to which field of a model, for any model.
%use packets
%raw
/// Where a column is to go: the path of reference names to its model, joined by points, and its name.
pub ghost struct Leaf_ { pub path: Seq<char>, pub name: Seq<char> }
/// A mapping as its model's definition wants it. `one` and `none` are proved for every model.
pub trait VxMaps: Sized {
    spec fn table() -> Seq<char>;
    /// The fields, those of referenced models included.
    spec fn leaves() -> Seq<Leaf_>;
    spec fn size() -> nat;
    proof fn sized()
        ensures Self::leaves().len() == Self::size();
    spec fn fresh() -> Self;
    /// After column `i`, which has this name and path.
    spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self;
    /// The column for field `k`.
    spec fn got(self, k: int) -> Option<usize>;
    proof fn none()
        ensures forall|k: int| 0 <= k < Self::leaves().len() ==> (#[trigger] Self::fresh().got(k)) is None;
    /// A column of field `k`'s name and path goes to field `k`, and to no other.
    proof fn one(m: Self, k: int, i: usize)
        requires 0 <= k < Self::leaves().len()
        ensures forall|j: int| 0 <= j < Self::leaves().len() ==> #[trigger] m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i).got(j) == (if j == k { Some(i) } else { m.got(j) });
}
/// The path a table name stands for: the model's own table for none, what follows its name and a point for a reference.
pub open spec fn inner(table: Seq<char>, t: Seq<char>) -> Seq<char> {
    if t == table { seq![] } else if dotted(table).is_prefix_of(t) { t.skip(table.len() as int + 1) } else { t }
}
pub open spec fn dotted(table: Seq<char>) -> Seq<char> { table.push('.') }
/// The name under which the model's own query joins the table at a path.
pub open spec fn alias(table: Seq<char>, path: Seq<char>) -> Seq<char> { if path.len() == 0 { table } else { dotted(table) + path } }
pub proof fn lemma_inner(table: Seq<char>, path: Seq<char>)
    ensures inner(table, alias(table, path)) == path
{
    let t = alias(table, path);
    if path.len() > 0 {
        assert(t.len() > table.len());
        assert(t.take(table.len() as int + 1) =~= dotted(table));
        assert(t.skip(table.len() as int + 1) =~= path);
    } else { assert(path =~= seq![]); }
}
/// The mapping after the first `n` columns.
pub open spec fn mapped<S: VxMaps>(c: Seq<Column>, n: nat) -> S
    decreases n
{
    if n == 0 || n > c.len() { S::fresh() } else { mapped::<S>(c, (n - 1) as nat).stepped(c[n - 1].org_name@, inner(S::table(), c[n - 1].table@), (n - 1) as usize) }
}
/// The last of the first `n` columns that is one for field `k`.
pub open spec fn last_for(pick: Seq<int>, n: nat, k: int) -> Option<usize>
    decreases n
{
    if n == 0 || n > pick.len() { None } else if pick[n - 1] == k { Some((n - 1) as usize) } else { last_for(pick, (n - 1) as nat, k) }
}
pub open spec fn is_for<S: VxMaps>(c: Column, k: int) -> bool {
    0 <= k < S::leaves().len() && c.org_name@ == S::leaves()[k].name && c.table@ == alias(S::table(), S::leaves()[k].path)
}
/// Whatever the order of the columns, and with some of them missing: each field is mapped to the column of its name and path, and
/// a field without one to none.
pub proof fn c24_columns<S: VxMaps>(c: Seq<Column>, pick: Seq<int>, n: nat)
    requires c.len() == pick.len(), n <= c.len(), c.len() <= usize::MAX, forall|i: int| 0 <= i < c.len() ==> is_for::<S>(#[trigger] c[i], pick[i])
    ensures forall|k: int| 0 <= k < S::leaves().len() ==> #[trigger] mapped::<S>(c, n).got(k) == last_for(pick, n, k)
    decreases n
{
    S::none();
    if n > 0 {
        c24_columns::<S>(c, pick, (n - 1) as nat);
        let i = n - 1;
        assert(is_for::<S>(c[i], pick[i]));
        lemma_inner(S::table(), S::leaves()[pick[i]].path);
        S::one(mapped::<S>(c, (n - 1) as nat), pick[i], i as usize);
    }
}
proof fn lemma_last(pick: Seq<int>, n: nat, k: int)
    requires n <= pick.len() <= usize::MAX, forall|i: int| 0 <= i < pick.len() ==> pick[i] == i
    ensures last_for(pick, n, k) == (if 0 <= k < n { Some(k as usize) } else { None::<usize> })
    decreases n
{ if n > 0 { lemma_last(pick, (n - 1) as nat, k); } }
/// The columns of the model's own query: field `k` from column `k`.
pub proof fn c24_own_query<S: VxMaps>(c: Seq<Column>)
    requires c.len() == S::leaves().len() <= usize::MAX, forall|i: int| 0 <= i < c.len() ==> is_for::<S>(#[trigger] c[i], i)
    ensures forall|k: int| 0 <= k < S::leaves().len() ==> #[trigger] mapped::<S>(c, c.len()).got(k) == Some(k as usize)
{
    let pick = Seq::new(c.len(), |i: int| i);
    c24_columns::<S>(c, pick, c.len());
    assert forall|k: int| 0 <= k < S::leaves().len() implies #[trigger] mapped::<S>(c, c.len()).got(k) == Some(k as usize) by { lemma_last(pick, c.len(), k); }
}
/// Columns of a row of `n` values, no value for two fields.
pub open spec fn usable<S: VxMaps>(m: S, n: nat) -> bool {
    &&& forall|k: int| 0 <= k < S::leaves().len() && (#[trigger] m.got(k)) is Some ==> m.got(k)->Some_0 < n
    &&& forall|j: int, k: int| 0 <= j < k < S::leaves().len() && (#[trigger] m.got(j)) is Some ==> m.got(j) != #[trigger] m.got(k)
}
pub open spec fn complete<S: VxMaps>(m: S) -> bool { forall|k: int| 0 <= k < S::leaves().len() ==> (#[trigger] m.got(k)) is Some }
pub open spec fn meant<S: VxMaps>(m: S, i: int) -> bool { exists|k: int| 0 <= k < S::leaves().len() && (#[trigger] m.got(k)) is Some && m.got(k)->Some_0 == i }
/// What of a row a mapping does not mean stays as it was.
pub open spec fn rest_kept<S: VxMaps>(m: S, a: Seq<Value>, b: Seq<Value>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() && !meant(m, i) ==> #[trigger] b[i] == a[i]
}
pub proof fn c24_usable<S: VxMaps>(c: Seq<Column>, pick: Seq<int>)
    requires c.len() == pick.len() <= usize::MAX, forall|i: int| 0 <= i < c.len() ==> is_for::<S>(#[trigger] c[i], pick[i])
    ensures usable(mapped::<S>(c, c.len()), c.len())
{
    c24_columns::<S>(c, pick, c.len());
    assert forall|k: int| #[trigger] last_for(pick, c.len(), k) is Some implies last_for(pick, c.len(), k)->Some_0 < c.len() && pick[last_for(pick, c.len(), k)->Some_0 as int] == k by { lemma_last_is(pick, c.len(), k); }
}
proof fn lemma_last_is(pick: Seq<int>, n: nat, k: int)
    requires n <= pick.len() <= usize::MAX
    ensures last_for(pick, n, k) is Some ==> last_for(pick, n, k)->Some_0 < n && pick[last_for(pick, n, k)->Some_0 as int] == k
    decreases n
{ if n > 0 { lemma_last_is(pick, (n - 1) as nat, k); } }
/// The fields of a model that is referenced by a field `f`.
pub open spec fn below(f: Seq<char>, l: Seq<Leaf_>) -> Seq<Leaf_> { Seq::new(l.len(), |i: int| Leaf_ { path: alias(f, l[i].path), name: l[i].name }) }
pub open spec fn own(n: Seq<char>) -> Leaf_ { Leaf_ { path: seq![], name: n } }
pub open spec fn no_dot(f: Seq<char>) -> bool { f.len() > 0 && forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] != '.' }
pub proof fn lemma_under(f: Seq<char>, p: Seq<char>)
    ensures p.len() == 0 ==> alias(f, p) == f,
        p.len() > 0 ==> alias(f, p) != f && dotted(f).is_prefix_of(alias(f, p)) && alias(f, p).skip(f.len() as int + 1) == p
{
    if p.len() > 0 {
        assert(alias(f, p).len() > f.len());
        assert(alias(f, p).take(f.len() as int + 1) =~= dotted(f));
        assert(alias(f, p).skip(f.len() as int + 1) =~= p);
    }
}
/// Neither another name nor the beginning of another name takes a path.
pub proof fn lemma_other(f: Seq<char>, g: Seq<char>, p: Seq<char>)
    requires no_dot(f), no_dot(g), f != g
    ensures alias(f, p) != g, !dotted(g).is_prefix_of(alias(f, p))
{
    let a = alias(f, p);
    if a == g { if p.len() > 0 { assert(a[f.len() as int] == '.'); } }
    if dotted(g).is_prefix_of(a) {
        let d = dotted(g);
        assert(a.take(d.len() as int) == d);
        assert(a[g.len() as int] == d[g.len() as int]);
        if g.len() < f.len() { assert(f[g.len() as int] == '.'); }
        else if g.len() > f.len() { assert(a[f.len() as int] == '.'); assert(d[f.len() as int] == g[f.len() as int]); assert(a[f.len() as int] == d[f.len() as int]); }
        else { assert forall|i: int| 0 <= i < f.len() implies f[i] == g[i] by { assert(a[i] == d[i]); } assert(f =~= g); }
    }
}
pub proof fn lemma_top(g: Seq<char>)
    requires g.len() > 0
    ensures Seq::<char>::empty() != g, !dotted(g).is_prefix_of(seq![])
{ assert(Seq::<char>::empty().len() == 0 && dotted(g).len() > 0); }
#[verifier::external_body]
pub fn vx_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r is Some <==> p@.is_prefix_of(s@), r is Some ==> r->Some_0@ == s@.skip(p@.len() as int)
{ s.strip_prefix(p) }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool)
    ensures r == p@.is_prefix_of(s@)
{ s.starts_with(p) }
pub open spec fn bytes_of(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
/// Cutting a text off after `n` bytes, which end a character.
#[verifier::external_body]
pub fn vx_str_after(s: &str, n: usize, Ghost(k): Ghost<int>) -> (r: &str)
    requires 0 <= k <= s@.len(), bytes_of(s@.take(k)) == n
    ensures r@ == s@.skip(k)
{ &s[n..] }
