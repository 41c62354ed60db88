%# Written by tools/gen24.py: what saving an active model of each sample writes.
%use active conv
%path geo::Point => GeoPoint
%path mysql_connector::model::ActiveValue => ActiveValue
%path mysql_connector::model::ActiveReference => ActiveReference
%path mysql_connector::model::NamedValue => NamedValue
%path mysql_connector::types::Value => Value
%path mysql_connector::error::Error => Error
%path mysql_connector::error::SerializeError => SerializeError
%path mysql_connector::Connection => Connection
%type Hex
%type samples::Vec3 as=Vec3
%type samples::geo::Point as=GeoPoint
%type samples::Pair as=Pair
%type samples::Point as=Point
%raw
/// The conversion of a field into a value, chosen by its type.
pub trait VxGive: Sized {
    spec fn gave(self, r: Result<Value, SerializeError>) -> bool;
    fn vx_give(self) -> (r: Result<Value, SerializeError>) ensures self.gave(r);
}
pub open spec fn ungiven<T: VxGive>(x: T) -> bool { exists|e: SerializeError| x.gave(Err(e)) }
/// The value a reference is given: the key it was set to or the one of the model that was inserted.
pub open spec fn stands_for<T: Model>(a: ActiveReference<T>, v: Value) -> bool {
    match a {
        ActiveReference::Set(id) => v == id.vx_value(),
        ActiveReference::Insert(m) => exists|w: Seq<NamedValue>, id: u64, c: Connection| #[trigger] m.gives(w) && #[trigger] inserted(c, w, T::table(), id)
            && v == (match m.keyed() { Some(k) => k, None => Value::ULong(id) }),
        ActiveReference::Unset => false,
    }
}
impl VxGive for i8 { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::Tiny(self)) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }
impl VxGive for i16 { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::Short(self)) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }
impl VxGive for i32 { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::Int(self)) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }
impl VxGive for i64 { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::Long(self)) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }
impl VxGive for u8 { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::UTiny(self)) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }
impl VxGive for u16 { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::UShort(self)) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }
impl VxGive for u32 { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::UInt(self)) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }
impl VxGive for u64 { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::ULong(self)) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }
impl VxGive for f32 { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::Float(self)) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }
impl VxGive for f64 { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::Double(self)) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }
impl VxGive for bool { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::Tiny(if self { 1 } else { 0 })) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }
impl VxGive for Vec<u8> { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::Bytes(self)) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }
impl VxGive for String { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r is Ok && call_ensures(Value::vx_from_string, (self,), r->Ok_0) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::vx_from_string(self)) } }
impl VxGive for VDuration { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r is Ok && call_ensures(Value::vx_from_duration, (self,), r->Ok_0) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::vx_from_duration(self)) } }
impl VxGive for Hex { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r is Ok && call_ensures(Value::vx_from_hex, (self,), r->Ok_0) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::vx_from_hex(self)) } }
impl VxGive for NaiveDate { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { call_ensures(Value::vx_from_date, (self,), r) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Value::vx_from_date(self) } }
impl VxGive for NaiveDateTime { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { call_ensures(Value::vx_from_datetime, (self,), r) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Value::vx_from_datetime(self) } }
impl<T: VxGive> VxGive for Option<T> { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { match self { None => r == Ok::<Value, SerializeError>(Value::Null), Some(x) => x.gave(r) } } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Value::vx_give_option(self) } }
impl VxIntoValue for i64 { open spec fn vx_value(self) -> Value { Value::Long(self) } fn vx_into(self) -> (r: Value) { self.into() } }
impl VxIntoValue for u16 { open spec fn vx_value(self) -> Value { Value::UShort(self) } fn vx_into(self) -> (r: Value) { self.into() } }
impl VxIntoValue for u32 { open spec fn vx_value(self) -> Value { Value::UInt(self) } fn vx_into(self) -> (r: Value) { self.into() } }
%fn <Value as From<Hex>>::from as vx_from_hex
    ensures r == Value::Bytes(value.0)
%fn <Value as TryFrom<Option<T>>>::try_from as vx_give_option
    ensures value.gave(r)
%where T: VxGive
%ret Result<Value, SerializeError>
%rw value.try_into() => value.vx_give()
%fn ActiveValue::insert_named_value as vx_put
    ensures self is Unset ==> r is Ok && final(vec)@ == old(vec)@,
        r is Err ==> self is Set && ungiven(self->Set_0),
        r is Ok ==> grown(old(vec)@, final(vec)@, if self is Unset { 0 } else { 1 }),
        self is Set && r is Ok ==> final(vec)@[old(vec)@.len() as int].0@ == name@ && self->Set_0.gave(Ok(final(vec)@[old(vec)@.len() as int].1))
%where T: VxGive
%rw value.try_into().map_err(Into::into) => value.vx_give()
%fn <ActiveValue<T> as Default>::default as vx_unset
    ensures r is Unset
%fn <ActiveReference<T> as Default>::default as vx_unset
    ensures r is Unset
%type Leaf
%type LeafActiveModel
%fn <Leaf as ModelData>::TABLE as leaf_table
    ensures r@ == "leaf"@
%fn <Leaf as Model>::PRIMARY as leaf_primary
    ensures r@ == "id"@
%fn <Leaf as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn leaf_gives(a: LeafActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.name is Unset { 0int } else { 1 });
    &&& v.len() == n2
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.name is Set ==> v[n1].0@ == "name"@ && a.name->Set_0.gave(Ok(v[n1].1))
}
/// Nothing is set.
pub open spec fn leaf_blank(a: LeafActiveModel) -> bool { a.id is Unset && a.name is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn leaf_unwritable(a: LeafActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.name is Set && ungiven(a.name->Set_0)
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn leaf_all(a: LeafActiveModel, m: Leaf) -> bool {
    &&& a.id == ActiveValue::Set(m.id)
    &&& a.name == ActiveValue::Set(m.name)
}
impl VxTabled for Leaf { open spec fn table() -> Seq<char> { "leaf"@ } }
impl Model for Leaf {
    type Primary = u32;
    type ActiveModel = LeafActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { leaf_table() }
    fn vx_primary() -> (r: &'static str) { leaf_primary() }
}
impl VxGives<Leaf> for LeafActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { leaf_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { leaf_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { LeafActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <LeafActiveModel as Default>::default as vx_blank
    ensures leaf_blank(r)
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <LeafActiveModel as ActiveModel<Leaf>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <Leaf as HasActiveModel>::into_active_model as vx_active
    ensures leaf_all(r, self)
%fn <LeafActiveModel as ActiveModel<Leaf>>::into_values as vx_values
    ensures r is Ok ==> leaf_gives(self, r->Ok_0@), r is Err ==> leaf_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.name.insert_named_value => self.name.vx_put
%type World
%type WorldActiveModel
%fn <World as ModelData>::TABLE as world_table
    ensures r@ == "world"@
%fn <World as Model>::PRIMARY as world_primary
    ensures r@ == "id"@
%fn <World as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn world_gives(a: WorldActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.name is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.level is Unset { 0int } else { 1 });
    let n4 = n3 + (if a.played is Unset { 0int } else { 1 });
    &&& v.len() == n4
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.name is Set ==> v[n1].0@ == "name"@ && a.name->Set_0.gave(Ok(v[n1].1))
    &&& a.level is Set ==> v[n2].0@ == "level"@ && a.level->Set_0.gave(Ok(v[n2].1))
    &&& a.played is Set ==> v[n3].0@ == "played"@ && a.played->Set_0.gave(Ok(v[n3].1))
}
/// Nothing is set.
pub open spec fn world_blank(a: WorldActiveModel) -> bool { a.id is Unset && a.name is Unset && a.level is Unset && a.played is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn world_unwritable(a: WorldActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.name is Set && ungiven(a.name->Set_0)
    ||| a.level is Set && ungiven(a.level->Set_0)
    ||| a.played is Set && ungiven(a.played->Set_0)
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn world_all(a: WorldActiveModel, m: World) -> bool {
    &&& a.id is Unset
    &&& a.name == ActiveValue::Set(m.name)
    &&& a.level == ActiveValue::Set(m.level)
    &&& a.played == ActiveValue::Set(m.played)
}
impl VxTabled for World { open spec fn table() -> Seq<char> { "world"@ } }
impl Model for World {
    type Primary = u32;
    type ActiveModel = WorldActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { world_table() }
    fn vx_primary() -> (r: &'static str) { world_primary() }
}
impl VxGives<World> for WorldActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { world_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { world_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { WorldActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <WorldActiveModel as Default>::default as vx_blank
    ensures world_blank(r)
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <WorldActiveModel as ActiveModel<World>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <World as HasActiveModel>::into_active_model as vx_active
    ensures world_all(r, self)
%fn <WorldActiveModel as ActiveModel<World>>::into_values as vx_values
    ensures r is Ok ==> world_gives(self, r->Ok_0@), r is Err ==> world_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.name.insert_named_value => self.name.vx_put
%rw self.level.insert_named_value => self.level.vx_put
%rw self.played.insert_named_value => self.played.vx_put
%type Whole
%type WholeActiveModel
%fn <Whole as ModelData>::TABLE as whole_table
    ensures r@ == "whole"@
%fn <Whole as Model>::PRIMARY as whole_primary
    ensures r@ == "id"@
%fn <Whole as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn whole_gives(a: WholeActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.a_i8 is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.a_i16 is Unset { 0int } else { 1 });
    let n4 = n3 + (if a.a_i32 is Unset { 0int } else { 1 });
    let n5 = n4 + (if a.a_i64 is Unset { 0int } else { 1 });
    let n6 = n5 + (if a.a_u8 is Unset { 0int } else { 1 });
    let n7 = n6 + (if a.a_u16 is Unset { 0int } else { 1 });
    let n8 = n7 + (if a.a_u32 is Unset { 0int } else { 1 });
    let n9 = n8 + (if a.a_u64 is Unset { 0int } else { 1 });
    &&& v.len() == n9
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.a_i8 is Set ==> v[n1].0@ == "a_i8"@ && a.a_i8->Set_0.gave(Ok(v[n1].1))
    &&& a.a_i16 is Set ==> v[n2].0@ == "a_i16"@ && a.a_i16->Set_0.gave(Ok(v[n2].1))
    &&& a.a_i32 is Set ==> v[n3].0@ == "a_i32"@ && a.a_i32->Set_0.gave(Ok(v[n3].1))
    &&& a.a_i64 is Set ==> v[n4].0@ == "a_i64"@ && a.a_i64->Set_0.gave(Ok(v[n4].1))
    &&& a.a_u8 is Set ==> v[n5].0@ == "a_u8"@ && a.a_u8->Set_0.gave(Ok(v[n5].1))
    &&& a.a_u16 is Set ==> v[n6].0@ == "a_u16"@ && a.a_u16->Set_0.gave(Ok(v[n6].1))
    &&& a.a_u32 is Set ==> v[n7].0@ == "a_u32"@ && a.a_u32->Set_0.gave(Ok(v[n7].1))
    &&& a.a_u64 is Set ==> v[n8].0@ == "a_u64"@ && a.a_u64->Set_0.gave(Ok(v[n8].1))
}
/// Nothing is set.
pub open spec fn whole_blank(a: WholeActiveModel) -> bool { a.id is Unset && a.a_i8 is Unset && a.a_i16 is Unset && a.a_i32 is Unset && a.a_i64 is Unset && a.a_u8 is Unset && a.a_u16 is Unset && a.a_u32 is Unset && a.a_u64 is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn whole_unwritable(a: WholeActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.a_i8 is Set && ungiven(a.a_i8->Set_0)
    ||| a.a_i16 is Set && ungiven(a.a_i16->Set_0)
    ||| a.a_i32 is Set && ungiven(a.a_i32->Set_0)
    ||| a.a_i64 is Set && ungiven(a.a_i64->Set_0)
    ||| a.a_u8 is Set && ungiven(a.a_u8->Set_0)
    ||| a.a_u16 is Set && ungiven(a.a_u16->Set_0)
    ||| a.a_u32 is Set && ungiven(a.a_u32->Set_0)
    ||| a.a_u64 is Set && ungiven(a.a_u64->Set_0)
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn whole_all(a: WholeActiveModel, m: Whole) -> bool {
    &&& a.id is Unset
    &&& a.a_i8 == ActiveValue::Set(m.a_i8)
    &&& a.a_i16 == ActiveValue::Set(m.a_i16)
    &&& a.a_i32 == ActiveValue::Set(m.a_i32)
    &&& a.a_i64 == ActiveValue::Set(m.a_i64)
    &&& a.a_u8 == ActiveValue::Set(m.a_u8)
    &&& a.a_u16 == ActiveValue::Set(m.a_u16)
    &&& a.a_u32 == ActiveValue::Set(m.a_u32)
    &&& a.a_u64 == ActiveValue::Set(m.a_u64)
}
impl VxTabled for Whole { open spec fn table() -> Seq<char> { "whole"@ } }
impl Model for Whole {
    type Primary = u64;
    type ActiveModel = WholeActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { whole_table() }
    fn vx_primary() -> (r: &'static str) { whole_primary() }
}
impl VxGives<Whole> for WholeActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { whole_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { whole_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { WholeActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <WholeActiveModel as Default>::default as vx_blank
    ensures whole_blank(r)
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <WholeActiveModel as ActiveModel<Whole>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <Whole as HasActiveModel>::into_active_model as vx_active
    ensures whole_all(r, self)
%fn <WholeActiveModel as ActiveModel<Whole>>::into_values as vx_values
    ensures r is Ok ==> whole_gives(self, r->Ok_0@), r is Err ==> whole_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.a_i8.insert_named_value => self.a_i8.vx_put
%rw self.a_i16.insert_named_value => self.a_i16.vx_put
%rw self.a_i32.insert_named_value => self.a_i32.vx_put
%rw self.a_i64.insert_named_value => self.a_i64.vx_put
%rw self.a_u8.insert_named_value => self.a_u8.vx_put
%rw self.a_u16.insert_named_value => self.a_u16.vx_put
%rw self.a_u32.insert_named_value => self.a_u32.vx_put
%rw self.a_u64.insert_named_value => self.a_u64.vx_put
%type Other
%type OtherActiveModel
%fn <Other as ModelData>::TABLE as other_table
    ensures r@ == "other"@
%fn <Other as Model>::PRIMARY as other_primary
    ensures r@ == "id"@
%fn <Other as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn other_gives(a: OtherActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.a_f32 is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.a_f64 is Unset { 0int } else { 1 });
    let n4 = n3 + (if a.a_bool is Unset { 0int } else { 1 });
    let n5 = n4 + (if a.a_str is Unset { 0int } else { 1 });
    let n6 = n5 + (if a.a_bytes is Unset { 0int } else { 1 });
    let n7 = n6 + (if a.a_date is Unset { 0int } else { 1 });
    let n8 = n7 + (if a.a_datetime is Unset { 0int } else { 1 });
    let n9 = n8 + (if a.a_dur is Unset { 0int } else { 1 });
    let n10 = n9 + (if a.a_hex is Unset { 0int } else { 1 });
    &&& v.len() == n10
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.a_f32 is Set ==> v[n1].0@ == "a_f32"@ && a.a_f32->Set_0.gave(Ok(v[n1].1))
    &&& a.a_f64 is Set ==> v[n2].0@ == "a_f64"@ && a.a_f64->Set_0.gave(Ok(v[n2].1))
    &&& a.a_bool is Set ==> v[n3].0@ == "a_bool"@ && a.a_bool->Set_0.gave(Ok(v[n3].1))
    &&& a.a_str is Set ==> v[n4].0@ == "a_str"@ && a.a_str->Set_0.gave(Ok(v[n4].1))
    &&& a.a_bytes is Set ==> v[n5].0@ == "a_bytes"@ && a.a_bytes->Set_0.gave(Ok(v[n5].1))
    &&& a.a_date is Set ==> v[n6].0@ == "a_date"@ && a.a_date->Set_0.gave(Ok(v[n6].1))
    &&& a.a_datetime is Set ==> v[n7].0@ == "a_datetime"@ && a.a_datetime->Set_0.gave(Ok(v[n7].1))
    &&& a.a_dur is Set ==> v[n8].0@ == "a_dur"@ && a.a_dur->Set_0.gave(Ok(v[n8].1))
    &&& a.a_hex is Set ==> v[n9].0@ == "a_hex"@ && a.a_hex->Set_0.gave(Ok(v[n9].1))
}
/// Nothing is set.
pub open spec fn other_blank(a: OtherActiveModel) -> bool { a.id is Unset && a.a_f32 is Unset && a.a_f64 is Unset && a.a_bool is Unset && a.a_str is Unset && a.a_bytes is Unset && a.a_date is Unset && a.a_datetime is Unset && a.a_dur is Unset && a.a_hex is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn other_unwritable(a: OtherActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.a_f32 is Set && ungiven(a.a_f32->Set_0)
    ||| a.a_f64 is Set && ungiven(a.a_f64->Set_0)
    ||| a.a_bool is Set && ungiven(a.a_bool->Set_0)
    ||| a.a_str is Set && ungiven(a.a_str->Set_0)
    ||| a.a_bytes is Set && ungiven(a.a_bytes->Set_0)
    ||| a.a_date is Set && ungiven(a.a_date->Set_0)
    ||| a.a_datetime is Set && ungiven(a.a_datetime->Set_0)
    ||| a.a_dur is Set && ungiven(a.a_dur->Set_0)
    ||| a.a_hex is Set && ungiven(a.a_hex->Set_0)
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn other_all(a: OtherActiveModel, m: Other) -> bool {
    &&& a.id is Unset
    &&& a.a_f32 == ActiveValue::Set(m.a_f32)
    &&& a.a_f64 == ActiveValue::Set(m.a_f64)
    &&& a.a_bool == ActiveValue::Set(m.a_bool)
    &&& a.a_str == ActiveValue::Set(m.a_str)
    &&& a.a_bytes == ActiveValue::Set(m.a_bytes)
    &&& a.a_date == ActiveValue::Set(m.a_date)
    &&& a.a_datetime == ActiveValue::Set(m.a_datetime)
    &&& a.a_dur == ActiveValue::Set(m.a_dur)
    &&& a.a_hex == ActiveValue::Set(m.a_hex)
}
impl VxTabled for Other { open spec fn table() -> Seq<char> { "other"@ } }
impl Model for Other {
    type Primary = u64;
    type ActiveModel = OtherActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { other_table() }
    fn vx_primary() -> (r: &'static str) { other_primary() }
}
impl VxGives<Other> for OtherActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { other_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { other_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { OtherActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <OtherActiveModel as Default>::default as vx_blank
    ensures other_blank(r)
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <OtherActiveModel as ActiveModel<Other>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <Other as HasActiveModel>::into_active_model as vx_active
    ensures other_all(r, self)
%fn <OtherActiveModel as ActiveModel<Other>>::into_values as vx_values
    ensures r is Ok ==> other_gives(self, r->Ok_0@), r is Err ==> other_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.a_f32.insert_named_value => self.a_f32.vx_put
%rw self.a_f64.insert_named_value => self.a_f64.vx_put
%rw self.a_bool.insert_named_value => self.a_bool.vx_put
%rw self.a_str.insert_named_value => self.a_str.vx_put
%rw self.a_bytes.insert_named_value => self.a_bytes.vx_put
%rw self.a_date.insert_named_value => self.a_date.vx_put
%rw self.a_datetime.insert_named_value => self.a_datetime.vx_put
%rw self.a_dur.insert_named_value => self.a_dur.vx_put
%rw self.a_hex.insert_named_value => self.a_hex.vx_put
%type WholeNull
%type WholeNullActiveModel
%fn <WholeNull as ModelData>::TABLE as wholenull_table
    ensures r@ == "whole_null"@
%fn <WholeNull as Model>::PRIMARY as wholenull_primary
    ensures r@ == "id"@
%fn <WholeNull as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn wholenull_gives(a: WholeNullActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.o_i8 is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.o_i16 is Unset { 0int } else { 1 });
    let n4 = n3 + (if a.o_i32 is Unset { 0int } else { 1 });
    let n5 = n4 + (if a.o_i64 is Unset { 0int } else { 1 });
    let n6 = n5 + (if a.o_u8 is Unset { 0int } else { 1 });
    let n7 = n6 + (if a.o_u16 is Unset { 0int } else { 1 });
    let n8 = n7 + (if a.o_u32 is Unset { 0int } else { 1 });
    let n9 = n8 + (if a.o_u64 is Unset { 0int } else { 1 });
    &&& v.len() == n9
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.o_i8 is Set ==> v[n1].0@ == "o_i8"@ && a.o_i8->Set_0.gave(Ok(v[n1].1))
    &&& a.o_i16 is Set ==> v[n2].0@ == "o_i16"@ && a.o_i16->Set_0.gave(Ok(v[n2].1))
    &&& a.o_i32 is Set ==> v[n3].0@ == "o_i32"@ && a.o_i32->Set_0.gave(Ok(v[n3].1))
    &&& a.o_i64 is Set ==> v[n4].0@ == "o_i64"@ && a.o_i64->Set_0.gave(Ok(v[n4].1))
    &&& a.o_u8 is Set ==> v[n5].0@ == "o_u8"@ && a.o_u8->Set_0.gave(Ok(v[n5].1))
    &&& a.o_u16 is Set ==> v[n6].0@ == "o_u16"@ && a.o_u16->Set_0.gave(Ok(v[n6].1))
    &&& a.o_u32 is Set ==> v[n7].0@ == "o_u32"@ && a.o_u32->Set_0.gave(Ok(v[n7].1))
    &&& a.o_u64 is Set ==> v[n8].0@ == "o_u64"@ && a.o_u64->Set_0.gave(Ok(v[n8].1))
}
/// Nothing is set.
pub open spec fn wholenull_blank(a: WholeNullActiveModel) -> bool { a.id is Unset && a.o_i8 is Unset && a.o_i16 is Unset && a.o_i32 is Unset && a.o_i64 is Unset && a.o_u8 is Unset && a.o_u16 is Unset && a.o_u32 is Unset && a.o_u64 is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn wholenull_unwritable(a: WholeNullActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.o_i8 is Set && ungiven(a.o_i8->Set_0)
    ||| a.o_i16 is Set && ungiven(a.o_i16->Set_0)
    ||| a.o_i32 is Set && ungiven(a.o_i32->Set_0)
    ||| a.o_i64 is Set && ungiven(a.o_i64->Set_0)
    ||| a.o_u8 is Set && ungiven(a.o_u8->Set_0)
    ||| a.o_u16 is Set && ungiven(a.o_u16->Set_0)
    ||| a.o_u32 is Set && ungiven(a.o_u32->Set_0)
    ||| a.o_u64 is Set && ungiven(a.o_u64->Set_0)
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn wholenull_all(a: WholeNullActiveModel, m: WholeNull) -> bool {
    &&& a.id is Unset
    &&& a.o_i8 == ActiveValue::Set(m.o_i8)
    &&& a.o_i16 == ActiveValue::Set(m.o_i16)
    &&& a.o_i32 == ActiveValue::Set(m.o_i32)
    &&& a.o_i64 == ActiveValue::Set(m.o_i64)
    &&& a.o_u8 == ActiveValue::Set(m.o_u8)
    &&& a.o_u16 == ActiveValue::Set(m.o_u16)
    &&& a.o_u32 == ActiveValue::Set(m.o_u32)
    &&& a.o_u64 == ActiveValue::Set(m.o_u64)
}
impl VxTabled for WholeNull { open spec fn table() -> Seq<char> { "whole_null"@ } }
impl Model for WholeNull {
    type Primary = u64;
    type ActiveModel = WholeNullActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { wholenull_table() }
    fn vx_primary() -> (r: &'static str) { wholenull_primary() }
}
impl VxGives<WholeNull> for WholeNullActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { wholenull_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { wholenull_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { WholeNullActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <WholeNullActiveModel as Default>::default as vx_blank
    ensures wholenull_blank(r)
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <WholeNullActiveModel as ActiveModel<WholeNull>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <WholeNull as HasActiveModel>::into_active_model as vx_active
    ensures wholenull_all(r, self)
%fn <WholeNullActiveModel as ActiveModel<WholeNull>>::into_values as vx_values
    ensures r is Ok ==> wholenull_gives(self, r->Ok_0@), r is Err ==> wholenull_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.o_i8.insert_named_value => self.o_i8.vx_put
%rw self.o_i16.insert_named_value => self.o_i16.vx_put
%rw self.o_i32.insert_named_value => self.o_i32.vx_put
%rw self.o_i64.insert_named_value => self.o_i64.vx_put
%rw self.o_u8.insert_named_value => self.o_u8.vx_put
%rw self.o_u16.insert_named_value => self.o_u16.vx_put
%rw self.o_u32.insert_named_value => self.o_u32.vx_put
%rw self.o_u64.insert_named_value => self.o_u64.vx_put
%type OtherNull
%type OtherNullActiveModel
%fn <OtherNull as ModelData>::TABLE as othernull_table
    ensures r@ == "other_null"@
%fn <OtherNull as Model>::PRIMARY as othernull_primary
    ensures r@ == "id"@
%fn <OtherNull as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn othernull_gives(a: OtherNullActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.o_f32 is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.o_f64 is Unset { 0int } else { 1 });
    let n4 = n3 + (if a.o_bool is Unset { 0int } else { 1 });
    let n5 = n4 + (if a.o_str is Unset { 0int } else { 1 });
    let n6 = n5 + (if a.o_bytes is Unset { 0int } else { 1 });
    let n7 = n6 + (if a.o_date is Unset { 0int } else { 1 });
    let n8 = n7 + (if a.o_datetime is Unset { 0int } else { 1 });
    let n9 = n8 + (if a.o_dur is Unset { 0int } else { 1 });
    let n10 = n9 + (if a.o_hex is Unset { 0int } else { 1 });
    &&& v.len() == n10
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.o_f32 is Set ==> v[n1].0@ == "o_f32"@ && a.o_f32->Set_0.gave(Ok(v[n1].1))
    &&& a.o_f64 is Set ==> v[n2].0@ == "o_f64"@ && a.o_f64->Set_0.gave(Ok(v[n2].1))
    &&& a.o_bool is Set ==> v[n3].0@ == "o_bool"@ && a.o_bool->Set_0.gave(Ok(v[n3].1))
    &&& a.o_str is Set ==> v[n4].0@ == "o_str"@ && a.o_str->Set_0.gave(Ok(v[n4].1))
    &&& a.o_bytes is Set ==> v[n5].0@ == "o_bytes"@ && a.o_bytes->Set_0.gave(Ok(v[n5].1))
    &&& a.o_date is Set ==> v[n6].0@ == "o_date"@ && a.o_date->Set_0.gave(Ok(v[n6].1))
    &&& a.o_datetime is Set ==> v[n7].0@ == "o_datetime"@ && a.o_datetime->Set_0.gave(Ok(v[n7].1))
    &&& a.o_dur is Set ==> v[n8].0@ == "o_dur"@ && a.o_dur->Set_0.gave(Ok(v[n8].1))
    &&& a.o_hex is Set ==> v[n9].0@ == "o_hex"@ && a.o_hex->Set_0.gave(Ok(v[n9].1))
}
/// Nothing is set.
pub open spec fn othernull_blank(a: OtherNullActiveModel) -> bool { a.id is Unset && a.o_f32 is Unset && a.o_f64 is Unset && a.o_bool is Unset && a.o_str is Unset && a.o_bytes is Unset && a.o_date is Unset && a.o_datetime is Unset && a.o_dur is Unset && a.o_hex is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn othernull_unwritable(a: OtherNullActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.o_f32 is Set && ungiven(a.o_f32->Set_0)
    ||| a.o_f64 is Set && ungiven(a.o_f64->Set_0)
    ||| a.o_bool is Set && ungiven(a.o_bool->Set_0)
    ||| a.o_str is Set && ungiven(a.o_str->Set_0)
    ||| a.o_bytes is Set && ungiven(a.o_bytes->Set_0)
    ||| a.o_date is Set && ungiven(a.o_date->Set_0)
    ||| a.o_datetime is Set && ungiven(a.o_datetime->Set_0)
    ||| a.o_dur is Set && ungiven(a.o_dur->Set_0)
    ||| a.o_hex is Set && ungiven(a.o_hex->Set_0)
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn othernull_all(a: OtherNullActiveModel, m: OtherNull) -> bool {
    &&& a.id is Unset
    &&& a.o_f32 == ActiveValue::Set(m.o_f32)
    &&& a.o_f64 == ActiveValue::Set(m.o_f64)
    &&& a.o_bool == ActiveValue::Set(m.o_bool)
    &&& a.o_str == ActiveValue::Set(m.o_str)
    &&& a.o_bytes == ActiveValue::Set(m.o_bytes)
    &&& a.o_date == ActiveValue::Set(m.o_date)
    &&& a.o_datetime == ActiveValue::Set(m.o_datetime)
    &&& a.o_dur == ActiveValue::Set(m.o_dur)
    &&& a.o_hex == ActiveValue::Set(m.o_hex)
}
impl VxTabled for OtherNull { open spec fn table() -> Seq<char> { "other_null"@ } }
impl Model for OtherNull {
    type Primary = u64;
    type ActiveModel = OtherNullActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { othernull_table() }
    fn vx_primary() -> (r: &'static str) { othernull_primary() }
}
impl VxGives<OtherNull> for OtherNullActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { othernull_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { othernull_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { OtherNullActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <OtherNullActiveModel as Default>::default as vx_blank
    ensures othernull_blank(r)
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <OtherNullActiveModel as ActiveModel<OtherNull>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <OtherNull as HasActiveModel>::into_active_model as vx_active
    ensures othernull_all(r, self)
%fn <OtherNullActiveModel as ActiveModel<OtherNull>>::into_values as vx_values
    ensures r is Ok ==> othernull_gives(self, r->Ok_0@), r is Err ==> othernull_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.o_f32.insert_named_value => self.o_f32.vx_put
%rw self.o_f64.insert_named_value => self.o_f64.vx_put
%rw self.o_bool.insert_named_value => self.o_bool.vx_put
%rw self.o_str.insert_named_value => self.o_str.vx_put
%rw self.o_bytes.insert_named_value => self.o_bytes.vx_put
%rw self.o_date.insert_named_value => self.o_date.vx_put
%rw self.o_datetime.insert_named_value => self.o_datetime.vx_put
%rw self.o_dur.insert_named_value => self.o_dur.vx_put
%rw self.o_hex.insert_named_value => self.o_hex.vx_put
%type Placed
%type PlacedActiveModel
%fn <Placed as ModelData>::TABLE as placed_table
    ensures r@ == "placed"@
%fn <Placed as Model>::PRIMARY as placed_primary
    ensures r@ == "id"@
%fn <Placed as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn placed_gives(a: PlacedActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.title is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.heading is Unset { 0int } else { 1 });
    let n4 = n3 + (if a.kind is Unset { 0int } else { 1 });
    let n5 = n4 + (if a.pos is Unset { 0int } else { 3 });
    let n6 = n5 + (if a.home is Unset { 0int } else { 2 });
    let n7 = n6 + (if a.pos_ is Unset { 0int } else { 3 });
    let n8 = n7 + (if a.area is Unset { 0int } else { 1 });
    &&& v.len() == n8
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.title is Set ==> v[n1].0@ == "title"@ && a.title->Set_0.gave(Ok(v[n1].1))
    &&& a.heading is Set ==> v[n2].0@ == "heading"@ && a.heading->Set_0.gave(Ok(v[n2].1))
    &&& a.kind is Set ==> v[n3].0@ == "kind"@ && a.kind->Set_0.gave(Ok(v[n3].1))
    &&& a.pos is Set ==> v[n4 + 0].0@ == "pos_x"@ && a.pos->Set_0.x.gave(Ok(v[n4 + 0].1))
    &&& a.pos is Set ==> v[n4 + 1].0@ == "pos_lat"@ && a.pos->Set_0.y.gave(Ok(v[n4 + 1].1))
    &&& a.pos is Set ==> v[n4 + 2].0@ == "pos_z"@ && a.pos->Set_0.z.gave(Ok(v[n4 + 2].1))
    &&& a.home is Set ==> v[n5 + 0].0@ == "home_north"@ && a.home->Set_0.lat.gave(Ok(v[n5 + 0].1))
    &&& a.home is Set ==> v[n5 + 1].0@ == "home_east"@ && a.home->Set_0.lon.gave(Ok(v[n5 + 1].1))
    &&& a.pos_ is Set ==> v[n6 + 0].0@ == "pos__x"@ && a.pos_->Set_0.x.gave(Ok(v[n6 + 0].1))
    &&& a.pos_ is Set ==> v[n6 + 1].0@ == "pos__lat"@ && a.pos_->Set_0.y.gave(Ok(v[n6 + 1].1))
    &&& a.pos_ is Set ==> v[n6 + 2].0@ == "pos__z"@ && a.pos_->Set_0.z.gave(Ok(v[n6 + 2].1))
    &&& !(a.area is Unset) ==> v[n7].0@ == "area"@ && stands_for(a.area, v[n7].1)
}
/// Nothing is set.
pub open spec fn placed_blank(a: PlacedActiveModel) -> bool { a.id is Unset && a.title is Unset && a.heading is Unset && a.kind is Unset && a.pos is Unset && a.home is Unset && a.pos_ is Unset && a.area is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn placed_unwritable(a: PlacedActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.title is Set && ungiven(a.title->Set_0)
    ||| a.heading is Set && ungiven(a.heading->Set_0)
    ||| a.kind is Set && ungiven(a.kind->Set_0)
    ||| a.pos is Set && ungiven(a.pos->Set_0.x)
    ||| a.pos is Set && ungiven(a.pos->Set_0.y)
    ||| a.pos is Set && ungiven(a.pos->Set_0.z)
    ||| a.home is Set && ungiven(a.home->Set_0.lat)
    ||| a.home is Set && ungiven(a.home->Set_0.lon)
    ||| a.pos_ is Set && ungiven(a.pos_->Set_0.x)
    ||| a.pos_ is Set && ungiven(a.pos_->Set_0.y)
    ||| a.pos_ is Set && ungiven(a.pos_->Set_0.z)
    ||| a.area is Insert
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn placed_all(a: PlacedActiveModel, m: Placed) -> bool {
    &&& a.id is Unset
    &&& a.title == ActiveValue::Set(m.title)
    &&& a.heading == ActiveValue::Set(m.heading)
    &&& a.kind == ActiveValue::Set(m.kind)
    &&& a.pos == ActiveValue::Set(m.pos)
    &&& a.home == ActiveValue::Set(m.home)
    &&& a.pos_ == ActiveValue::Set(m.pos_)
    &&& a.area is Insert && world_all(a.area->Insert_0, m.area)
}
impl VxTabled for Placed { open spec fn table() -> Seq<char> { "placed"@ } }
impl Model for Placed {
    type Primary = i64;
    type ActiveModel = PlacedActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { placed_table() }
    fn vx_primary() -> (r: &'static str) { placed_primary() }
}
impl VxGives<Placed> for PlacedActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { placed_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { placed_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { PlacedActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <PlacedActiveModel as Default>::default as vx_blank
    ensures placed_blank(r)
%rw area: ::core::default::Default::default() => area: ActiveReference::vx_unset()
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <PlacedActiveModel as ActiveModel<Placed>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <Placed as HasActiveModel>::into_active_model as vx_active
    ensures placed_all(r, self)
%rw <World as mysql_connector::model::HasActiveModel> ::into_active_model => World::vx_active
%fn <PlacedActiveModel as ActiveModel<Placed>>::into_values as vx_values
    ensures r is Ok ==> placed_gives(self, r->Ok_0@), r is Err ==> placed_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.title.insert_named_value => self.title.vx_put
%rw self.heading.insert_named_value => self.heading.vx_put
%rw self.kind.insert_named_value => self.kind.vx_put
%rw .try_into().map_err(Into:: <mysql_connector::error::SerializeError> ::into) => .vx_give()
%type Prefix
%type PrefixActiveModel
%fn <Prefix as ModelData>::TABLE as prefix_table
    ensures r@ == "pre"@
%fn <Prefix as Model>::PRIMARY as prefix_primary
    ensures r@ == "key"@
%fn <Prefix as Model>::primary as vx_key
    ensures r == self.key
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn prefix_gives(a: PrefixActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.key is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.name is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.map is Unset { 0int } else { 1 });
    let n4 = n3 + (if a.ma is Unset { 0int } else { 1 });
    let n5 = n4 + (if a.map2 is Unset { 0int } else { 1 });
    let n6 = n5 + (if a.m is Unset { 0int } else { 1 });
    &&& v.len() == n6
    &&& a.key is Set ==> v[n0].0@ == "key"@ && a.key->Set_0.gave(Ok(v[n0].1))
    &&& a.name is Set ==> v[n1].0@ == "name"@ && a.name->Set_0.gave(Ok(v[n1].1))
    &&& !(a.map is Unset) ==> v[n2].0@ == "map"@ && stands_for(a.map, v[n2].1)
    &&& !(a.ma is Unset) ==> v[n3].0@ == "ma"@ && stands_for(a.ma, v[n3].1)
    &&& !(a.map2 is Unset) ==> v[n4].0@ == "map2"@ && stands_for(a.map2, v[n4].1)
    &&& !(a.m is Unset) ==> v[n5].0@ == "m"@ && stands_for(a.m, v[n5].1)
}
/// Nothing is set.
pub open spec fn prefix_blank(a: PrefixActiveModel) -> bool { a.key is Unset && a.name is Unset && a.map is Unset && a.ma is Unset && a.map2 is Unset && a.m is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn prefix_unwritable(a: PrefixActiveModel) -> bool {
    ||| a.key is Set && ungiven(a.key->Set_0)
    ||| a.name is Set && ungiven(a.name->Set_0)
    ||| a.map is Insert
    ||| a.ma is Insert
    ||| a.map2 is Insert
    ||| a.m is Insert
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn prefix_all(a: PrefixActiveModel, m: Prefix) -> bool {
    &&& a.key == ActiveValue::Set(m.key)
    &&& a.name == ActiveValue::Set(m.name)
    &&& a.map is Insert && leaf_all(a.map->Insert_0, m.map)
    &&& a.ma is Insert && world_all(a.ma->Insert_0, m.ma)
    &&& a.map2 is Insert && world_all(a.map2->Insert_0, m.map2)
    &&& a.m is Insert && leaf_all(a.m->Insert_0, m.m)
}
impl VxTabled for Prefix { open spec fn table() -> Seq<char> { "pre"@ } }
impl Model for Prefix {
    type Primary = u16;
    type ActiveModel = PrefixActiveModel;
    open spec fn primary_key() -> Seq<char> { "key"@ }
    fn vx_table() -> (r: &'static str) { prefix_table() }
    fn vx_primary() -> (r: &'static str) { prefix_primary() }
}
impl VxGives<Prefix> for PrefixActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { prefix_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.key { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { prefix_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { PrefixActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <PrefixActiveModel as Default>::default as vx_blank
    ensures prefix_blank(r)
%rw map: ::core::default::Default::default() => map: ActiveReference::vx_unset()
%rw ma: ::core::default::Default::default() => ma: ActiveReference::vx_unset()
%rw map2: ::core::default::Default::default() => map2: ActiveReference::vx_unset()
%rw m: ::core::default::Default::default() => m: ActiveReference::vx_unset()
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <PrefixActiveModel as ActiveModel<Prefix>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <Prefix as HasActiveModel>::into_active_model as vx_active
    ensures prefix_all(r, self)
%rw <Leaf as mysql_connector::model::HasActiveModel> ::into_active_model => Leaf::vx_active
%rw <World as mysql_connector::model::HasActiveModel> ::into_active_model => World::vx_active
%fn <PrefixActiveModel as ActiveModel<Prefix>>::into_values as vx_values
    ensures r is Ok ==> prefix_gives(self, r->Ok_0@), r is Err ==> prefix_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.key.insert_named_value => self.key.vx_put
%rw self.name.insert_named_value => self.name.vx_put
%type Two
%type TwoActiveModel
%fn <Two as ModelData>::TABLE as two_table
    ensures r@ == "two"@
%fn <Two as Model>::PRIMARY as two_primary
    ensures r@ == "id"@
%fn <Two as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn two_gives(a: TwoActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.from is Unset { 0int } else { 2 });
    let n3 = n2 + (if a.to is Unset { 0int } else { 2 });
    let n4 = n3 + (if a.via is Unset { 0int } else { 2 });
    &&& v.len() == n4
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.from is Set ==> v[n1 + 0].0@ == "from_y"@ && a.from->Set_0.lat.gave(Ok(v[n1 + 0].1))
    &&& a.from is Set ==> v[n1 + 1].0@ == "from_x"@ && a.from->Set_0.lon.gave(Ok(v[n1 + 1].1))
    &&& a.to is Set ==> v[n2 + 0].0@ == "to_lat"@ && a.to->Set_0.lat.gave(Ok(v[n2 + 0].1))
    &&& a.to is Set ==> v[n2 + 1].0@ == "to_lon"@ && a.to->Set_0.lon.gave(Ok(v[n2 + 1].1))
    &&& a.via is Set ==> v[n3 + 0].0@ == "via_y"@ && a.via->Set_0.lat.gave(Ok(v[n3 + 0].1))
    &&& a.via is Set ==> v[n3 + 1].0@ == "via_x"@ && a.via->Set_0.lon.gave(Ok(v[n3 + 1].1))
}
/// Nothing is set.
pub open spec fn two_blank(a: TwoActiveModel) -> bool { a.id is Unset && a.from is Unset && a.to is Unset && a.via is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn two_unwritable(a: TwoActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.from is Set && ungiven(a.from->Set_0.lat)
    ||| a.from is Set && ungiven(a.from->Set_0.lon)
    ||| a.to is Set && ungiven(a.to->Set_0.lat)
    ||| a.to is Set && ungiven(a.to->Set_0.lon)
    ||| a.via is Set && ungiven(a.via->Set_0.lat)
    ||| a.via is Set && ungiven(a.via->Set_0.lon)
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn two_all(a: TwoActiveModel, m: Two) -> bool {
    &&& a.id is Unset
    &&& a.from == ActiveValue::Set(m.from)
    &&& a.to == ActiveValue::Set(m.to)
    &&& a.via == ActiveValue::Set(m.via)
}
impl VxTabled for Two { open spec fn table() -> Seq<char> { "two"@ } }
impl Model for Two {
    type Primary = u32;
    type ActiveModel = TwoActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { two_table() }
    fn vx_primary() -> (r: &'static str) { two_primary() }
}
impl VxGives<Two> for TwoActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { two_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { two_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { TwoActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <TwoActiveModel as Default>::default as vx_blank
    ensures two_blank(r)
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <TwoActiveModel as ActiveModel<Two>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <Two as HasActiveModel>::into_active_model as vx_active
    ensures two_all(r, self)
%fn <TwoActiveModel as ActiveModel<Two>>::into_values as vx_values
    ensures r is Ok ==> two_gives(self, r->Ok_0@), r is Err ==> two_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw .try_into().map_err(Into:: <mysql_connector::error::SerializeError> ::into) => .vx_give()
%type DeepC
%type DeepCActiveModel
%fn <DeepC as ModelData>::TABLE as deepc_table
    ensures r@ == "deep_c"@
%fn <DeepC as Model>::PRIMARY as deepc_primary
    ensures r@ == "id"@
%fn <DeepC as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn deepc_gives(a: DeepCActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.name is Unset { 0int } else { 1 });
    &&& v.len() == n2
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.name is Set ==> v[n1].0@ == "name"@ && a.name->Set_0.gave(Ok(v[n1].1))
}
/// Nothing is set.
pub open spec fn deepc_blank(a: DeepCActiveModel) -> bool { a.id is Unset && a.name is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn deepc_unwritable(a: DeepCActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.name is Set && ungiven(a.name->Set_0)
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn deepc_all(a: DeepCActiveModel, m: DeepC) -> bool {
    &&& a.id is Unset
    &&& a.name == ActiveValue::Set(m.name)
}
impl VxTabled for DeepC { open spec fn table() -> Seq<char> { "deep_c"@ } }
impl Model for DeepC {
    type Primary = u32;
    type ActiveModel = DeepCActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { deepc_table() }
    fn vx_primary() -> (r: &'static str) { deepc_primary() }
}
impl VxGives<DeepC> for DeepCActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { deepc_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { deepc_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { DeepCActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <DeepCActiveModel as Default>::default as vx_blank
    ensures deepc_blank(r)
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <DeepCActiveModel as ActiveModel<DeepC>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <DeepC as HasActiveModel>::into_active_model as vx_active
    ensures deepc_all(r, self)
%fn <DeepCActiveModel as ActiveModel<DeepC>>::into_values as vx_values
    ensures r is Ok ==> deepc_gives(self, r->Ok_0@), r is Err ==> deepc_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.name.insert_named_value => self.name.vx_put
%type DeepB
%type DeepBActiveModel
%fn <DeepB as ModelData>::TABLE as deepb_table
    ensures r@ == "deep_b"@
%fn <DeepB as Model>::PRIMARY as deepb_primary
    ensures r@ == "id"@
%fn <DeepB as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn deepb_gives(a: DeepBActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.name is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.p is Unset { 0int } else { 2 });
    let n4 = n3 + (if a.c is Unset { 0int } else { 1 });
    &&& v.len() == n4
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.name is Set ==> v[n1].0@ == "name"@ && a.name->Set_0.gave(Ok(v[n1].1))
    &&& a.p is Set ==> v[n2 + 0].0@ == "p_a"@ && a.p->Set_0.a.gave(Ok(v[n2 + 0].1))
    &&& a.p is Set ==> v[n2 + 1].0@ == "p_b"@ && a.p->Set_0.b.gave(Ok(v[n2 + 1].1))
    &&& !(a.c is Unset) ==> v[n3].0@ == "c"@ && stands_for(a.c, v[n3].1)
}
/// Nothing is set.
pub open spec fn deepb_blank(a: DeepBActiveModel) -> bool { a.id is Unset && a.name is Unset && a.p is Unset && a.c is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn deepb_unwritable(a: DeepBActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.name is Set && ungiven(a.name->Set_0)
    ||| a.p is Set && ungiven(a.p->Set_0.a)
    ||| a.p is Set && ungiven(a.p->Set_0.b)
    ||| a.c is Insert
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn deepb_all(a: DeepBActiveModel, m: DeepB) -> bool {
    &&& a.id == ActiveValue::Set(m.id)
    &&& a.name == ActiveValue::Set(m.name)
    &&& a.p == ActiveValue::Set(m.p)
    &&& a.c is Insert && deepc_all(a.c->Insert_0, m.c)
}
impl VxTabled for DeepB { open spec fn table() -> Seq<char> { "deep_b"@ } }
impl Model for DeepB {
    type Primary = u32;
    type ActiveModel = DeepBActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { deepb_table() }
    fn vx_primary() -> (r: &'static str) { deepb_primary() }
}
impl VxGives<DeepB> for DeepBActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { deepb_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { deepb_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { DeepBActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <DeepBActiveModel as Default>::default as vx_blank
    ensures deepb_blank(r)
%rw c: ::core::default::Default::default() => c: ActiveReference::vx_unset()
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <DeepBActiveModel as ActiveModel<DeepB>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <DeepB as HasActiveModel>::into_active_model as vx_active
    ensures deepb_all(r, self)
%rw <DeepC as mysql_connector::model::HasActiveModel> ::into_active_model => DeepC::vx_active
%fn <DeepBActiveModel as ActiveModel<DeepB>>::into_values as vx_values
    ensures r is Ok ==> deepb_gives(self, r->Ok_0@), r is Err ==> deepb_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.name.insert_named_value => self.name.vx_put
%rw .try_into().map_err(Into:: <mysql_connector::error::SerializeError> ::into) => .vx_give()
%type DeepA
%type DeepAActiveModel
%fn <DeepA as ModelData>::TABLE as deepa_table
    ensures r@ == "deep_a"@
%fn <DeepA as Model>::PRIMARY as deepa_primary
    ensures r@ == "id"@
%fn <DeepA as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn deepa_gives(a: DeepAActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.name is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.b is Unset { 0int } else { 1 });
    &&& v.len() == n3
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.name is Set ==> v[n1].0@ == "name"@ && a.name->Set_0.gave(Ok(v[n1].1))
    &&& !(a.b is Unset) ==> v[n2].0@ == "b"@ && stands_for(a.b, v[n2].1)
}
/// Nothing is set.
pub open spec fn deepa_blank(a: DeepAActiveModel) -> bool { a.id is Unset && a.name is Unset && a.b is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn deepa_unwritable(a: DeepAActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.name is Set && ungiven(a.name->Set_0)
    ||| a.b is Insert
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn deepa_all(a: DeepAActiveModel, m: DeepA) -> bool {
    &&& a.id is Unset
    &&& a.name == ActiveValue::Set(m.name)
    &&& a.b is Insert && deepb_all(a.b->Insert_0, m.b)
}
impl VxTabled for DeepA { open spec fn table() -> Seq<char> { "deep_a"@ } }
impl Model for DeepA {
    type Primary = u32;
    type ActiveModel = DeepAActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { deepa_table() }
    fn vx_primary() -> (r: &'static str) { deepa_primary() }
}
impl VxGives<DeepA> for DeepAActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { deepa_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { deepa_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { DeepAActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <DeepAActiveModel as Default>::default as vx_blank
    ensures deepa_blank(r)
%rw b: ::core::default::Default::default() => b: ActiveReference::vx_unset()
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <DeepAActiveModel as ActiveModel<DeepA>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <DeepA as HasActiveModel>::into_active_model as vx_active
    ensures deepa_all(r, self)
%rw <DeepB as mysql_connector::model::HasActiveModel> ::into_active_model => DeepB::vx_active
%fn <DeepAActiveModel as ActiveModel<DeepA>>::into_values as vx_values
    ensures r is Ok ==> deepa_gives(self, r->Ok_0@), r is Err ==> deepa_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.name.insert_named_value => self.name.vx_put
%type Deep
%type DeepActiveModel
%fn <Deep as ModelData>::TABLE as deep_table
    ensures r@ == "deep"@
%fn <Deep as Model>::PRIMARY as deep_primary
    ensures r@ == "id"@
%fn <Deep as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn deep_gives(a: DeepActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.name is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.a is Unset { 0int } else { 1 });
    let n4 = n3 + (if a.b is Unset { 0int } else { 1 });
    &&& v.len() == n4
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.name is Set ==> v[n1].0@ == "name"@ && a.name->Set_0.gave(Ok(v[n1].1))
    &&& !(a.a is Unset) ==> v[n2].0@ == "a"@ && stands_for(a.a, v[n2].1)
    &&& !(a.b is Unset) ==> v[n3].0@ == "b"@ && stands_for(a.b, v[n3].1)
}
/// Nothing is set.
pub open spec fn deep_blank(a: DeepActiveModel) -> bool { a.id is Unset && a.name is Unset && a.a is Unset && a.b is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn deep_unwritable(a: DeepActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.name is Set && ungiven(a.name->Set_0)
    ||| a.a is Insert
    ||| a.b is Insert
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn deep_all(a: DeepActiveModel, m: Deep) -> bool {
    &&& a.id is Unset
    &&& a.name == ActiveValue::Set(m.name)
    &&& a.a is Insert && deepa_all(a.a->Insert_0, m.a)
    &&& a.b is Insert && deepb_all(a.b->Insert_0, m.b)
}
impl VxTabled for Deep { open spec fn table() -> Seq<char> { "deep"@ } }
impl Model for Deep {
    type Primary = u32;
    type ActiveModel = DeepActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { deep_table() }
    fn vx_primary() -> (r: &'static str) { deep_primary() }
}
impl VxGives<Deep> for DeepActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { deep_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { deep_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { DeepActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <DeepActiveModel as Default>::default as vx_blank
    ensures deep_blank(r)
%rw a: ::core::default::Default::default() => a: ActiveReference::vx_unset()
%rw b: ::core::default::Default::default() => b: ActiveReference::vx_unset()
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <DeepActiveModel as ActiveModel<Deep>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <Deep as HasActiveModel>::into_active_model as vx_active
    ensures deep_all(r, self)
%rw <DeepA as mysql_connector::model::HasActiveModel> ::into_active_model => DeepA::vx_active
%rw <DeepB as mysql_connector::model::HasActiveModel> ::into_active_model => DeepB::vx_active
%fn <DeepActiveModel as ActiveModel<Deep>>::into_values as vx_values
    ensures r is Ok ==> deep_gives(self, r->Ok_0@), r is Err ==> deep_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.name.insert_named_value => self.name.vx_put
%type Kid
%type KidActiveModel
%fn <Kid as ModelData>::TABLE as kid_table
    ensures r@ == "kid"@
%fn <Kid as Model>::PRIMARY as kid_primary
    ensures r@ == "id"@
%fn <Kid as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn kid_gives(a: KidActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.name is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.pet is Unset { 0int } else { 1 });
    &&& v.len() == n3
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.name is Set ==> v[n1].0@ == "name"@ && a.name->Set_0.gave(Ok(v[n1].1))
    &&& !(a.pet is Unset) ==> v[n2].0@ == "pet"@ && stands_for(a.pet, v[n2].1)
}
/// Nothing is set.
pub open spec fn kid_blank(a: KidActiveModel) -> bool { a.id is Unset && a.name is Unset && a.pet is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn kid_unwritable(a: KidActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.name is Set && ungiven(a.name->Set_0)
    ||| a.pet is Insert
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn kid_all(a: KidActiveModel, m: Kid) -> bool {
    &&& a.id is Unset
    &&& a.name == ActiveValue::Set(m.name)
    &&& a.pet is Insert && leaf_all(a.pet->Insert_0, m.pet)
}
impl VxTabled for Kid { open spec fn table() -> Seq<char> { "kid"@ } }
impl Model for Kid {
    type Primary = u16;
    type ActiveModel = KidActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { kid_table() }
    fn vx_primary() -> (r: &'static str) { kid_primary() }
}
impl VxGives<Kid> for KidActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { kid_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { kid_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { KidActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <KidActiveModel as Default>::default as vx_blank
    ensures kid_blank(r)
%rw pet: ::core::default::Default::default() => pet: ActiveReference::vx_unset()
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <KidActiveModel as ActiveModel<Kid>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <Kid as HasActiveModel>::into_active_model as vx_active
    ensures kid_all(r, self)
%rw <Leaf as mysql_connector::model::HasActiveModel> ::into_active_model => Leaf::vx_active
%fn <KidActiveModel as ActiveModel<Kid>>::into_values as vx_values
    ensures r is Ok ==> kid_gives(self, r->Ok_0@), r is Err ==> kid_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.name.insert_named_value => self.name.vx_put
%type Parent
%type ParentActiveModel
%fn <Parent as ModelData>::TABLE as parent_table
    ensures r@ == "parent"@
%fn <Parent as Model>::PRIMARY as parent_primary
    ensures r@ == "id"@
%fn <Parent as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn parent_gives(a: ParentActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.name is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.parent is Unset { 0int } else { 1 });
    &&& v.len() == n3
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.name is Set ==> v[n1].0@ == "name"@ && a.name->Set_0.gave(Ok(v[n1].1))
    &&& !(a.parent is Unset) ==> v[n2].0@ == "parent"@ && stands_for(a.parent, v[n2].1)
}
/// Nothing is set.
pub open spec fn parent_blank(a: ParentActiveModel) -> bool { a.id is Unset && a.name is Unset && a.parent is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn parent_unwritable(a: ParentActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.name is Set && ungiven(a.name->Set_0)
    ||| a.parent is Insert
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn parent_all(a: ParentActiveModel, m: Parent) -> bool {
    &&& a.id is Unset
    &&& a.name == ActiveValue::Set(m.name)
    &&& a.parent is Insert && kid_all(a.parent->Insert_0, m.parent)
}
impl VxTabled for Parent { open spec fn table() -> Seq<char> { "parent"@ } }
impl Model for Parent {
    type Primary = u32;
    type ActiveModel = ParentActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { parent_table() }
    fn vx_primary() -> (r: &'static str) { parent_primary() }
}
impl VxGives<Parent> for ParentActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { parent_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { parent_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { ParentActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <ParentActiveModel as Default>::default as vx_blank
    ensures parent_blank(r)
%rw parent: ::core::default::Default::default() => parent: ActiveReference::vx_unset()
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <ParentActiveModel as ActiveModel<Parent>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <Parent as HasActiveModel>::into_active_model as vx_active
    ensures parent_all(r, self)
%rw <Kid as mysql_connector::model::HasActiveModel> ::into_active_model => Kid::vx_active
%fn <ParentActiveModel as ActiveModel<Parent>>::into_values as vx_values
    ensures r is Ok ==> parent_gives(self, r->Ok_0@), r is Err ==> parent_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.name.insert_named_value => self.name.vx_put
%type Chain
%type ChainActiveModel
%fn <Chain as ModelData>::TABLE as chain_table
    ensures r@ == "link"@
%fn <Chain as Model>::PRIMARY as chain_primary
    ensures r@ == "id"@
%fn <Chain as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn chain_gives(a: ChainActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.link is Unset { 0int } else { 1 });
    &&& v.len() == n2
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& !(a.link is Unset) ==> v[n1].0@ == "link"@ && stands_for(a.link, v[n1].1)
}
/// Nothing is set.
pub open spec fn chain_blank(a: ChainActiveModel) -> bool { a.id is Unset && a.link is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn chain_unwritable(a: ChainActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.link is Insert
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn chain_all(a: ChainActiveModel, m: Chain) -> bool {
    &&& a.id is Unset
    &&& a.link is Insert && kid_all(a.link->Insert_0, m.link)
}
impl VxTabled for Chain { open spec fn table() -> Seq<char> { "link"@ } }
impl Model for Chain {
    type Primary = u32;
    type ActiveModel = ChainActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { chain_table() }
    fn vx_primary() -> (r: &'static str) { chain_primary() }
}
impl VxGives<Chain> for ChainActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { chain_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { chain_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { ChainActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <ChainActiveModel as Default>::default as vx_blank
    ensures chain_blank(r)
%rw link: ::core::default::Default::default() => link: ActiveReference::vx_unset()
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <ChainActiveModel as ActiveModel<Chain>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <Chain as HasActiveModel>::into_active_model as vx_active
    ensures chain_all(r, self)
%rw <Kid as mysql_connector::model::HasActiveModel> ::into_active_model => Kid::vx_active
%fn <ChainActiveModel as ActiveModel<Chain>>::into_values as vx_values
    ensures r is Ok ==> chain_gives(self, r->Ok_0@), r is Err ==> chain_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%type Chained
%type ChainedActiveModel
%fn <Chained as ModelData>::TABLE as chained_table
    ensures r@ == "chained"@
%fn <Chained as Model>::PRIMARY as chained_primary
    ensures r@ == "id"@
%fn <Chained as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn chained_gives(a: ChainedActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.chain is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.link is Unset { 0int } else { 1 });
    &&& v.len() == n3
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& !(a.chain is Unset) ==> v[n1].0@ == "chain"@ && stands_for(a.chain, v[n1].1)
    &&& !(a.link is Unset) ==> v[n2].0@ == "link"@ && stands_for(a.link, v[n2].1)
}
/// Nothing is set.
pub open spec fn chained_blank(a: ChainedActiveModel) -> bool { a.id is Unset && a.chain is Unset && a.link is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn chained_unwritable(a: ChainedActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.chain is Insert
    ||| a.link is Insert
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn chained_all(a: ChainedActiveModel, m: Chained) -> bool {
    &&& a.id is Unset
    &&& a.chain is Insert && chain_all(a.chain->Insert_0, m.chain)
    &&& a.link is Insert && leaf_all(a.link->Insert_0, m.link)
}
impl VxTabled for Chained { open spec fn table() -> Seq<char> { "chained"@ } }
impl Model for Chained {
    type Primary = u32;
    type ActiveModel = ChainedActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { chained_table() }
    fn vx_primary() -> (r: &'static str) { chained_primary() }
}
impl VxGives<Chained> for ChainedActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { chained_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { chained_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { ChainedActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <ChainedActiveModel as Default>::default as vx_blank
    ensures chained_blank(r)
%rw chain: ::core::default::Default::default() => chain: ActiveReference::vx_unset()
%rw link: ::core::default::Default::default() => link: ActiveReference::vx_unset()
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <ChainedActiveModel as ActiveModel<Chained>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <Chained as HasActiveModel>::into_active_model as vx_active
    ensures chained_all(r, self)
%rw <Chain as mysql_connector::model::HasActiveModel> ::into_active_model => Chain::vx_active
%rw <Leaf as mysql_connector::model::HasActiveModel> ::into_active_model => Leaf::vx_active
%fn <ChainedActiveModel as ActiveModel<Chained>>::into_values as vx_values
    ensures r is Ok ==> chained_gives(self, r->Ok_0@), r is Err ==> chained_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%type Raw
%type RawActiveModel
%fn <Raw as ModelData>::TABLE as raw_table
    ensures r@ == "with space"@
%fn <Raw as Model>::PRIMARY as raw_primary
    ensures r@ == "id"@
%fn <Raw as Model>::primary as vx_key
    ensures r == self.id
%raw
/// The columns this active model gives: those set, each its value, in order.
pub open spec fn raw_gives(a: RawActiveModel, v: Seq<NamedValue>) -> bool {
    let n0 = 0int;
    let n1 = n0 + (if a.id is Unset { 0int } else { 1 });
    let n2 = n1 + (if a.vx_type is Unset { 0int } else { 1 });
    let n3 = n2 + (if a.vx_in is Unset { 0int } else { 1 });
    let n4 = n3 + (if a.vx_mod is Unset { 0int } else { 3 });
    let n5 = n4 + (if a.mo is Unset { 0int } else { 3 });
    let n6 = n5 + (if a.vx_match is Unset { 0int } else { 1 });
    &&& v.len() == n6
    &&& a.id is Set ==> v[n0].0@ == "id"@ && a.id->Set_0.gave(Ok(v[n0].1))
    &&& a.vx_type is Set ==> v[n1].0@ == "type"@ && a.vx_type->Set_0.gave(Ok(v[n1].1))
    &&& a.vx_in is Set ==> v[n2].0@ == "in"@ && a.vx_in->Set_0.gave(Ok(v[n2].1))
    &&& a.vx_mod is Set ==> v[n3 + 0].0@ == "mod_x"@ && a.vx_mod->Set_0.x.gave(Ok(v[n3 + 0].1))
    &&& a.vx_mod is Set ==> v[n3 + 1].0@ == "mod_yy"@ && a.vx_mod->Set_0.y.gave(Ok(v[n3 + 1].1))
    &&& a.vx_mod is Set ==> v[n3 + 2].0@ == "mod_z"@ && a.vx_mod->Set_0.z.gave(Ok(v[n3 + 2].1))
    &&& a.mo is Set ==> v[n4 + 0].0@ == "mo_x"@ && a.mo->Set_0.x.gave(Ok(v[n4 + 0].1))
    &&& a.mo is Set ==> v[n4 + 1].0@ == "mo_yy"@ && a.mo->Set_0.y.gave(Ok(v[n4 + 1].1))
    &&& a.mo is Set ==> v[n4 + 2].0@ == "mo_z"@ && a.mo->Set_0.z.gave(Ok(v[n4 + 2].1))
    &&& !(a.vx_match is Unset) ==> v[n5].0@ == "match"@ && stands_for(a.vx_match, v[n5].1)
}
/// Nothing is set.
pub open spec fn raw_blank(a: RawActiveModel) -> bool { a.id is Unset && a.vx_type is Unset && a.vx_in is Unset && a.vx_mod is Unset && a.mo is Unset && a.vx_match is Unset }
/// Something set is not a value of the database, or a model referred to could not be inserted.
pub open spec fn raw_unwritable(a: RawActiveModel) -> bool {
    ||| a.id is Set && ungiven(a.id->Set_0)
    ||| a.vx_type is Set && ungiven(a.vx_type->Set_0)
    ||| a.vx_in is Set && ungiven(a.vx_in->Set_0)
    ||| a.vx_mod is Set && ungiven(a.vx_mod->Set_0.x)
    ||| a.vx_mod is Set && ungiven(a.vx_mod->Set_0.y)
    ||| a.vx_mod is Set && ungiven(a.vx_mod->Set_0.z)
    ||| a.mo is Set && ungiven(a.mo->Set_0.x)
    ||| a.mo is Set && ungiven(a.mo->Set_0.y)
    ||| a.mo is Set && ungiven(a.mo->Set_0.z)
    ||| a.vx_match is Insert
}
/// All of the model is set, but for a key that the database chooses.
pub open spec fn raw_all(a: RawActiveModel, m: Raw) -> bool {
    &&& a.id is Unset
    &&& a.vx_type == ActiveValue::Set(m.vx_type)
    &&& a.vx_in == ActiveValue::Set(m.vx_in)
    &&& a.vx_mod == ActiveValue::Set(m.vx_mod)
    &&& a.mo == ActiveValue::Set(m.mo)
    &&& a.vx_match is Insert && leaf_all(a.vx_match->Insert_0, m.vx_match)
}
impl VxTabled for Raw { open spec fn table() -> Seq<char> { "with space"@ } }
impl Model for Raw {
    type Primary = u32;
    type ActiveModel = RawActiveModel;
    open spec fn primary_key() -> Seq<char> { "id"@ }
    fn vx_table() -> (r: &'static str) { raw_table() }
    fn vx_primary() -> (r: &'static str) { raw_primary() }
}
impl VxGives<Raw> for RawActiveModel {
    open spec fn gives(self, v: Seq<NamedValue>) -> bool { raw_gives(self, v) }
    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) { self.vx_values(conn) }
    open spec fn keyed(self) -> Option<Value> { match self.id { ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None } }
    fn primary(&self) -> (r: Option<Value>) { self.vx_primary() }
    open spec fn blank(self) -> bool { raw_blank(self) }
    proof fn blank_gives(self, v: Seq<NamedValue>) { }
    fn vx_default() -> (r: Self) { RawActiveModel::vx_blank() }
    #[verifier::external_body]
    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }
}
%fn <RawActiveModel as Default>::default as vx_blank
    ensures raw_blank(r)
%rw r#match: ::core::default::Default::default() => r#match: ActiveReference::vx_unset()
%rw ::core::default::Default::default() => ActiveValue::vx_unset()
%fn <RawActiveModel as ActiveModel<Raw>>::primary as vx_primary
    ensures r == self.keyed()
%rw x.into() => x.vx_into()
%fn <Raw as HasActiveModel>::into_active_model as vx_active
    ensures raw_all(r, self)
%rw <Leaf as mysql_connector::model::HasActiveModel> ::into_active_model => Leaf::vx_active
%fn <RawActiveModel as ActiveModel<Raw>>::into_values as vx_values
    ensures r is Ok ==> raw_gives(self, r->Ok_0@), r is Err ==> raw_unwritable(self)
%attr #[verifier::spinoff_prover]
%rw self.id.insert_named_value => self.id.vx_put
%rw self.r#type.insert_named_value => self.r#type.vx_put
%rw self.r#in.insert_named_value => self.r#in.vx_put
%rw .try_into().map_err(Into:: <mysql_connector::error::SerializeError> ::into) => .vx_give()
