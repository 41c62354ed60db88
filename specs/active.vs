%# Statements generated for models, and the values bound to them.
%use stmt model
%ty VxSelfActiveModel => VxAnyActive
%type ActiveReference
%type ActiveValue
%raw
/// The values of a vector were all held in memory, together with one more.
#[verifier::external_body]
pub proof fn ax_named_values(v: &Vec<NamedValue>)
    ensures bin_total(vals(v@)) <= isize::MAX
{ }
/// Into<Value>.
pub trait VxIntoValue: Sized {
    spec fn vx_value(self) -> Value;
    fn vx_into(self) -> (r: Value) ensures r == self.vx_value();
}
impl VxIntoValue for u64 {
    open spec fn vx_value(self) -> Value { Value::ULong(self) }
    fn vx_into(self) -> (r: Value) { self.into() }
}
pub trait ActiveModel: Sized { fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>); }
/// What the derive macros or the user provide: which columns are set, to what.
pub trait VxTabled { spec fn table() -> Seq<char>; }
pub trait VxGives<M: VxTabled>: Sized {
    /// `v` are the columns the model has set, referenced models having been inserted.
    spec fn gives(self, v: Seq<NamedValue>) -> bool;
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>)
        ensures r is Ok ==> self.gives(r->Ok_0@);
    /// The primary key, where it is one of the columns set.
    spec fn keyed(self) -> Option<Value>;
    fn primary(&self) -> (r: Option<Value>) ensures r == self.keyed();
    /// Nothing is set, as in a new one.
    spec fn blank(self) -> bool;
    proof fn blank_gives(self, v: Seq<NamedValue>) requires self.blank(), self.gives(v) ensures v.len() == 0;
    fn vx_default() -> (r: Self) ensures r.blank();
    /// Proved of the body the trait provides, for any model, below.
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>)
        ensures r is Ok ==> exists|v: Seq<NamedValue>| #[trigger] self.gives(v) && inserted(*final(conn), v, M::table(), r->Ok_0);
}
pub trait Model: VxTabled + Sized {
    type Primary: VxIntoValue;
    type ActiveModel: VxGives<Self>;
    spec fn primary_key() -> Seq<char>;
    fn vx_table() -> (r: &'static str) ensures r@ == Self::table();
    fn vx_primary() -> (r: &'static str) ensures r@ == Self::primary_key();
}
%type UpdateModel
%raw
/// The statement `text` was prepared, and what came back was executed with exactly the values `v`; its answer is the last thing read.
pub open spec fn ran(end: Connection, text: Seq<char>, v: Seq<Value>, ok: OkPacket) -> bool {
    exists|a: Connection, b: Connection, c: Connection, d: Connection, id: u32|
        #[trigger] commanded(a, b, seq![22u8] + vstd::utf8::encode_utf8(text)) && prepared(b, c, id, v.len() as usize)
        && #[trigger] executed(c, d, id, v) && reply_read(d, end, Ok(ok))
}
broadcast proof fn bc_ran(end: Connection, text: Seq<char>, v: Seq<Value>, ok: OkPacket, a: Connection, b: Connection, c: Connection, d: Connection, id: u32)
    requires
        #[trigger] commanded(a, b, seq![22u8] + vstd::utf8::encode_utf8(text)), prepared(b, c, id, v.len() as usize),
        #[trigger] executed(c, d, id, v), #[trigger] reply_read(d, end, Ok(ok)),
    ensures ran(end, text, v, ok)
{ }
pub open spec fn inserted(end: Connection, v: Seq<NamedValue>, table: Seq<char>, id: u64) -> bool {
    exists|ok: OkPacket| #[trigger] ran(end, insert_text(v, table), vals(v), ok) && id == ok.last_insert_id
}
pub open spec fn updated(end: Connection, v: Seq<NamedValue>, table: Seq<char>, key: Seq<char>, primary: Value) -> bool {
    exists|ok: OkPacket| #[trigger] ran(end, update_text(v, table, key), vals(v).push(primary), ok)
}
%fn UpdateModel::new
    ensures r.id == id, r.model.blank()
%rw T::ActiveModel::default() => T::ActiveModel::vx_default()
%fn UpdateModel::update
    ensures r is Ok ==> exists|v: Seq<NamedValue>| #[trigger] self.model.gives(v) && (v.len() == 0 || updated(*final(conn), v, T::table(), T::primary_key(), self.id.vx_value()))
%rw T::TABLE => T::vx_table()
%rw T::PRIMARY => T::vx_primary()
%rw self.id.into() => self.id.vx_into()
%at entry
    broadcast use bc_ran;
%at let values
    let ghost v0 = values@;
    proof { assert(self.model.gives(v0)); }
%at before call prepare_statement
    let ghost a = *conn;
    proof { ax_named_values(&values); assert(vals(values@) =~= vals(v0).push(self.id.vx_value())); }
%raw
/// Any set of columns for the model known as VxAnyModel.
#[verifier::external_body]
pub struct VxAnyActive { x: () }
impl VxAnyActive {
    pub uninterp spec fn gives(self, v: Seq<NamedValue>) -> bool;
    #[verifier::external_body]
    pub fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>)
        ensures r is Ok ==> self.gives(r->Ok_0@)
    { unimplemented!() }
}
%fn ActiveModel::insert
    ensures r is Ok ==> exists|v: Seq<NamedValue>| #[trigger] self.gives(v) && inserted(*final(conn), v, any_table(), r->Ok_0)
%rw ModelData::TABLE => VxAnyModel::vx_table()
%at entry
    broadcast use bc_ran;
%at let values
    proof { assert(self.gives(values@)); ax_named_values(&values); }
%raw
/// `n` more at the end of a list.
pub open spec fn grown<T>(before: Seq<T>, after: Seq<T>, n: int) -> bool {
    after.len() == before.len() + n && forall|i: int| 0 <= i < before.len() ==> #[trigger] after[i] == before[i]
}
%fn ActiveReference::insert_named_value
    ensures
        r is Ok ==> grown(old(vec)@, final(vec)@, if self is Unset { 0 } else { 1 }),
        self is Unset ==> r is Ok && final(vec)@ == old(vec)@ && *final(conn) == *old(conn),
        self is Set ==> r is Ok && final(vec)@ == old(vec)@.push(NamedValue(name, self->Set_0.vx_value())) && *final(conn) == *old(conn),
        self is Insert ==> (r is Err ==> final(vec)@ == old(vec)@) && (r is Ok ==> exists|v: Seq<NamedValue>, id: u64| #[trigger] self->Insert_0.gives(v) && #[trigger] inserted(*final(conn), v, T::table(), id)
            && final(vec)@ == old(vec)@.push(NamedValue(name, match self->Insert_0.keyed() { Some(k) => k, None => Value::ULong(id) }))),
%rw id.into() => id.vx_into()
%fn ActiveValue::insert_named_value
    ensures
        self is Unset ==> r is Ok && final(vec)@ == old(vec)@,
        r is Err ==> final(vec)@ == old(vec)@,
        self is Set ==> exists|w: Result<Value, <T as TryInto<Value>>::Error>| #[trigger] call_ensures(<T as TryInto<Value>>::try_into, (self->Set_0,), w)
            && (r is Ok ==> w is Ok && final(vec)@ == old(vec)@.push(NamedValue(name, w->Ok_0))) && (w is Ok ==> r is Ok),
