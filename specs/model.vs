%# Generated statements.
%use errors
%path String::from => vx_text
%ty VxSelfIntoQuery => VxAnyModel
%type QueryColumnReference
%type QueryColumn
%raw
pub fn vx_text(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }
#[verifier::external_body]
pub fn vx_str_add(a: String, b: &str) -> (r: String)
    ensures r@ == a@ + b@
{ a + b }
// The texts are given as what they append to a text before them.
pub open spec fn comma(t: Seq<char>, n: nat) -> Seq<char> { if n == 0 { t } else { t + ", "@ } }
/// The first `n` names, quoted, separated by commas.
pub open spec fn name_list(t: Seq<char>, v: Seq<NamedValue>, n: nat) -> Seq<char>
    decreases n
{
    if n == 0 || n > v.len() { t } else { comma(name_list(t, v, (n - 1) as nat), (n - 1) as nat) + "`"@ + v[n - 1].0@ + "`"@ }
}
/// The first `n` names, quoted, each with its placeholder, separated by commas.
pub open spec fn set_list(t: Seq<char>, v: Seq<NamedValue>, n: nat) -> Seq<char>
    decreases n
{
    if n == 0 || n > v.len() { t } else { comma(set_list(t, v, (n - 1) as nat), (n - 1) as nat) + "`"@ + v[n - 1].0@ + "` = ?"@ }
}
/// `n` placeholders, separated by commas.
pub open spec fn marks(t: Seq<char>, n: nat) -> Seq<char>
    decreases n
{
    if n == 0 { t } else { comma(marks(t, (n - 1) as nat), (n - 1) as nat) + "?"@ }
}
pub open spec fn insert_text(v: Seq<NamedValue>, table: Seq<char>) -> Seq<char> {
    marks(name_list("insert into `"@ + table + "` ("@, v, v.len()) + ") values ("@, v.len()) + ")"@
}
pub open spec fn update_text(v: Seq<NamedValue>, table: Seq<char>, primary: Seq<char>) -> Seq<char> {
    set_list("update `"@ + table + "` set "@, v, v.len()) + " where `"@ + primary + "` = ?"@
}
/// Reference trees are finite: a list of columns is as deep as its deepest column, a reference deeper than the columns it leads to.
pub uninterp spec fn height(c: QueryColumn) -> nat;
pub uninterp spec fn depth(c: Seq<QueryColumn>) -> nat;
#[verifier::external_body]
pub proof fn ax_height(c: QueryColumn)
    ensures c is Reference ==> depth(c->Reference_0.columns@) < height(c)
{ }
#[verifier::external_body]
pub proof fn ax_depth(c: Seq<QueryColumn>, i: int)
    requires 0 <= i < c.len()
    ensures height(c[i]) <= depth(c)
{ }
/// The name under which a referenced table is joined.
pub open spec fn path(ns: Seq<char>, column: Seq<char>) -> Seq<char> { ns + "."@ + column }
/// What a select lists for the first `n` columns of a table known as `ns`.
pub open spec fn listed(t: Seq<char>, ns: Seq<char>, c: Seq<QueryColumn>, n: nat) -> Seq<char>
    decreases depth(c), 1int, n via listed_ends
{
    if n == 0 || n > c.len() { t } else { listed_one(comma(listed(t, ns, c, (n - 1) as nat), (n - 1) as nat), ns, c[n - 1]) }
}
pub open spec fn listed_one(t: Seq<char>, ns: Seq<char>, c: QueryColumn) -> Seq<char>
    decreases height(c), 0int, 0nat via listed_one_ends
{
    match c {
        QueryColumn::Column(name) => t + "`"@ + ns + "`.`"@ + name@ + "`"@,
        QueryColumn::Reference(r) => listed(t, path(ns, r.column@), r.columns@, r.columns@.len()),
    }
}
#[via_fn]
proof fn listed_ends(t: Seq<char>, ns: Seq<char>, c: Seq<QueryColumn>, n: nat) { if n > 0 && n <= c.len() { ax_depth(c, n - 1); } }
#[via_fn]
proof fn listed_one_ends(t: Seq<char>, ns: Seq<char>, c: QueryColumn) { ax_height(c); }
/// The joins that the first `n` columns need, a table before the tables it leads to.
pub open spec fn joins(t: Seq<char>, ns: Seq<char>, c: Seq<QueryColumn>, n: nat) -> Seq<char>
    decreases depth(c), 1int, n via joins_ends
{
    if n == 0 || n > c.len() { t } else { joins_one(joins(t, ns, c, (n - 1) as nat), ns, c[n - 1]) }
}
pub open spec fn joins_one(t: Seq<char>, ns: Seq<char>, c: QueryColumn) -> Seq<char>
    decreases height(c), 0int, 0nat via joins_one_ends
{
    match c {
        QueryColumn::Column(name) => t,
        QueryColumn::Reference(r) => joins(join_text(t, ns, r), path(ns, r.column@), r.columns@, r.columns@.len()),
    }
}
#[via_fn]
proof fn joins_ends(t: Seq<char>, ns: Seq<char>, c: Seq<QueryColumn>, n: nat) { if n > 0 && n <= c.len() { ax_depth(c, n - 1); } }
#[via_fn]
proof fn joins_one_ends(t: Seq<char>, ns: Seq<char>, c: QueryColumn) { ax_height(c); }
pub open spec fn join_text(t: Seq<char>, ns: Seq<char>, r: QueryColumnReference) -> Seq<char> {
    t + " join `"@ + r.table@ + "` as `"@ + path(ns, r.column@) + "` on (`"@ + ns + "`.`"@ + r.column@ + "` = `"@ + path(ns, r.column@) + "`.`"@ + r.key@ + "`)"@
}
pub open spec fn select_text(table: Seq<char>, c: Seq<QueryColumn>) -> Seq<char> {
    listed("select "@, table, c, c.len()) + " from `"@ + table + "`"@ + joins(seq![], table, c, c.len())
}
/// How many question marks a text has.
pub open spec fn questions(s: Seq<char>) -> nat { s.to_multiset().count('?') }
pub proof fn lemma_questions(a: Seq<char>, b: Seq<char>)
    ensures questions(a + b) == questions(a) + questions(b)
{ vstd::seq_lib::lemma_multiset_commutative(a, b); }
proof fn lemma_no_questions(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != '?'
    ensures questions(s) == 0
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if questions(s) > 0 { assert(s.to_multiset().count('?') > 0); assert(s.contains('?')); }
}
proof fn lemma_marks(t: Seq<char>, n: nat)
    ensures questions(marks(t, n)) == questions(t) + n
    decreases n
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if n > 0 {
        lemma_marks(t, (n - 1) as nat);
        reveal_strlit(", "); reveal_strlit("?");
        lemma_no_questions(", "@);
        let p = marks(t, (n - 1) as nat);
        lemma_questions(p, ", "@);
        lemma_questions(comma(p, (n - 1) as nat), "?"@);
        assert("?"@ =~= Seq::<char>::empty().push('?'));
        lemma_no_questions(Seq::empty());
        assert(questions("?"@) == 1);
    }
}
/// Any model, whatever its table and columns.
#[verifier::external_body]
pub struct VxAnyModel { x: () }
pub uninterp spec fn any_table() -> Seq<char>;
pub uninterp spec fn any_columns() -> Seq<QueryColumn>;
impl VxAnyModel {
    #[verifier::external_body]
    pub fn vx_table() -> (r: &'static str) ensures r@ == any_table() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_columns() -> (r: &'static [QueryColumn]) ensures r@ == any_columns() { unimplemented!() }
}
pub trait IntoQuery { fn build_query() -> (r: String); }
%fn NamedValue::into_insert
    ensures r is Ok, r->Ok_0@ == insert_text(values@, table@)
%opt string_add
%attr #[verifier::loop_isolation(false)]
%loop 0
    invariant stmt@ == name_list("insert into `"@ + table@ + "` ("@, values@, it0.index@ as nat),
%loop 1
    invariant stmt@ == marks(name_list("insert into `"@ + table@ + "` ("@, values@, values@.len()) + ") values ("@, it1.index@ as nat),
%fn NamedValue::into_update
    ensures r is Ok, r->Ok_0@ == update_text(values@, table@, primary@)
%opt string_add
%attr #[verifier::loop_isolation(false)]
%loop 0
    invariant stmt@ == set_list("update `"@ + table@ + "` set "@, values@, it0.index@ as nat),
%fn QueryColumn::append_to_select
    ensures
        final(select)@ == listed_one(old(select)@, namespace@, *self),
        final(join)@ == joins_one(old(join)@, namespace@, *self),
    decreases height(*self), 0int
%opt string_add
%at entry
    proof { ax_height(*self); }
%fn QueryColumnReference::join
    ensures
        final(select)@ == listed_one(old(select)@, namespace@, QueryColumn::Reference(*self)),
        final(join)@ == joins_one(old(join)@, namespace@, QueryColumn::Reference(*self)),
    decreases depth(self.columns@), 1int
%opt string_add
%attr #[verifier::loop_isolation(false)]
%loop 0
    invariant
        path(namespace@, self.column@) == new_namespace@,
        select@ == listed(old(select)@, new_namespace@, self.columns@, it0.index@ as nat),
        join@ == joins(join_text(old(join)@, namespace@, *self), new_namespace@, self.columns@, it0.index@ as nat),
%at loop 0 start
    proof { ax_depth(self.columns@, it0.index@); }
%fn IntoQuery::build_query
    ensures r@ == select_text(any_table(), any_columns())
%opt string_add
%attr #[verifier::loop_isolation(false)]
%rw Self::TABLE => Self::vx_table()
%rw Self::COLUMNS => Self::vx_columns()
%loop 0
    invariant
        select@ == listed("select "@, any_table(), any_columns(), it0.index@ as nat),
        join@ == joins(seq![], any_table(), any_columns(), it0.index@ as nat),
%at loop 0 before
    proof { assert(join@ =~= seq![]); }
%raw
pub open spec fn calm(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '?' }
pub proof fn lemma_name_list(t: Seq<char>, v: Seq<NamedValue>, n: nat)
    requires n <= v.len(), forall|i: int| 0 <= i < v.len() ==> calm((#[trigger] v[i]).0@)
    ensures questions(name_list(t, v, n)) == questions(t)
    decreases n
{
    if n > 0 {
        lemma_name_list(t, v, (n - 1) as nat);
        reveal_strlit(", "); reveal_strlit("`");
        lemma_no_questions(", "@); lemma_no_questions("`"@);
        let p = name_list(t, v, (n - 1) as nat);
        lemma_questions(p, ", "@);
        let q = comma(p, (n - 1) as nat);
        lemma_questions(q, "`"@); lemma_questions(q + "`"@, v[n - 1].0@); lemma_questions(q + "`"@ + v[n - 1].0@, "`"@);
        lemma_no_questions(v[n - 1].0@);
    }
}
pub proof fn lemma_set_list(t: Seq<char>, v: Seq<NamedValue>, n: nat)
    requires n <= v.len(), forall|i: int| 0 <= i < v.len() ==> calm((#[trigger] v[i]).0@)
    ensures questions(set_list(t, v, n)) == questions(t) + n
    decreases n
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if n > 0 {
        lemma_set_list(t, v, (n - 1) as nat);
        reveal_strlit(", "); reveal_strlit("`"); reveal_strlit("` = ?");
        lemma_no_questions(", "@); lemma_no_questions("`"@);
        let p = set_list(t, v, (n - 1) as nat);
        lemma_questions(p, ", "@);
        let q = comma(p, (n - 1) as nat);
        lemma_questions(q, "`"@); lemma_questions(q + "`"@, v[n - 1].0@); lemma_questions(q + "`"@ + v[n - 1].0@, "` = ?"@);
        lemma_no_questions(v[n - 1].0@);
        let h = seq!['`', ' ', '=', ' '];
        assert("` = ?"@ =~= h.push('?'));
        lemma_no_questions(h);
    }
}
/// An insert has one placeholder per column, an update one more, for the primary key.
pub proof fn c15_placeholders(v: Seq<NamedValue>, table: Seq<char>, primary: Seq<char>)
    requires calm(table), calm(primary), forall|i: int| 0 <= i < v.len() ==> calm((#[trigger] v[i]).0@)
    ensures questions(insert_text(v, table)) == v.len(), questions(update_text(v, table, primary)) == v.len() + 1
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal_strlit("insert into `"); reveal_strlit("` ("); reveal_strlit(") values ("); reveal_strlit(")");
    reveal_strlit("update `"); reveal_strlit("` set "); reveal_strlit(" where `"); reveal_strlit("` = ?");
    lemma_no_questions("insert into `"@); lemma_no_questions("` ("@); lemma_no_questions(") values ("@); lemma_no_questions(")"@);
    lemma_no_questions("update `"@); lemma_no_questions("` set "@); lemma_no_questions(" where `"@);
    lemma_no_questions(table); lemma_no_questions(primary);
    let a = "insert into `"@ + table + "` ("@;
    lemma_questions("insert into `"@, table); lemma_questions("insert into `"@ + table, "` ("@);
    lemma_name_list(a, v, v.len());
    let b = name_list(a, v, v.len());
    lemma_questions(b, ") values ("@);
    lemma_marks(b + ") values ("@, v.len());
    lemma_questions(marks(b + ") values ("@, v.len()), ")"@);
    let c = "update `"@ + table + "` set "@;
    lemma_questions("update `"@, table); lemma_questions("update `"@ + table, "` set "@);
    lemma_set_list(c, v, v.len());
    let d = set_list(c, v, v.len());
    lemma_questions(d, " where `"@); lemma_questions(d + " where `"@, primary); lemma_questions(d + " where `"@ + primary, "` = ?"@);
    let h = seq!['`', ' ', '=', ' '];
    assert("` = ?"@ =~= h.push('?'));
    lemma_no_questions(h);
}
