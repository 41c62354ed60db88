%# Columns are mapped one by one, for any model.
%use maps
%ty VxSelfFromQueryResultMapping => VxAnyMap
%raw
pub fn vx_default() -> (r: VxAnyMap) ensures r == VxAnyMap::fresh() { VxAnyMap::default() }
/// Any mapping, as the derive macros or the user provide it.
#[verifier::external_body]
pub struct VxAnyMap { x: () }
pub uninterp spec fn any_leaves() -> Seq<Leaf_>;
pub uninterp spec fn any_table() -> Seq<char>;
pub uninterp spec fn any_fresh() -> VxAnyMap;
pub uninterp spec fn any_stepped(m: VxAnyMap, name: Seq<char>, path: Seq<char>, i: usize) -> VxAnyMap;
pub uninterp spec fn any_got(m: VxAnyMap, k: int) -> Option<usize>;
impl VxMaps for VxAnyMap {
    open spec fn table() -> Seq<char> { any_table() }
    open spec fn leaves() -> Seq<Leaf_> { any_leaves() }
    open spec fn size() -> nat { any_leaves().len() }
    proof fn sized() { }
    open spec fn fresh() -> Self { any_fresh() }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self { any_stepped(self, name, path, i) }
    open spec fn got(self, k: int) -> Option<usize> { any_got(self, k) }
    #[verifier::external_body]
    proof fn none() { }
    #[verifier::external_body]
    proof fn one(m: Self, k: int, i: usize) { }
}
impl VxAnyMap {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r == Self::fresh() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_mapping_inner(&mut self, column: &Column, table: &str, index: usize)
        ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_table() -> (r: &'static str) ensures r@ == Self::table() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_table_dot() -> (r: &'static str) ensures r@ == dotted(Self::table()) { unimplemented!() }
}
pub trait FromQueryResultMapping: Sized { fn set_mapping(&mut self, column: &Column, table: &str, index: usize); fn from_columns(columns: &[Column]) -> (r: Self); }
%fn FromQueryResultMapping::set_mapping
    ensures *final(self) == old(self).stepped(column.org_name@, inner(VxAnyMap::table(), table@), index)
%rw table.strip_prefix(ModelData::TABLE_WITH_POINT) => vx_strip_prefix(table, VxAnyMap::vx_table_dot())
%rw ModelData::TABLE => VxAnyMap::vx_table()
%at entry
    proof { reveal_strlit(""); }
%at tail
    assert(""@ =~= seq![]);
%fn FromQueryResultMapping::from_columns
    ensures r == mapped::<VxAnyMap>(columns@, columns@.len())
%rw Self::default() => VxAnyMap::default()
%loop 0
    invariant vx_s@ == columns@, this == mapped::<VxAnyMap>(columns@, it0.index@ as nat)
%at loop 0 end
    assert(i == it0.index@);
    assert(this == mapped::<VxAnyMap>(columns@, i as nat).stepped(column.org_name@, inner(VxAnyMap::table(), column.table@), i));
    assert(mapped::<VxAnyMap>(columns@, (i + 1) as nat) == mapped::<VxAnyMap>(columns@, i as nat).stepped(column.org_name@, inner(VxAnyMap::table(), column.table@), i));
