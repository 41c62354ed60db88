%# Written by tools/gen24.py: what the code generated for the sample models must do.
%use maps conv
%type QueryColumnReference
%type QueryColumn
%path geo::Point => GeoPoint
%path mysql_connector::model::QueryColumn => QueryColumn
%path mysql_connector::model::QueryColumnReference => QueryColumnReference
%path mysql_connector::types::Value => Value
%path mysql_connector::types::Column => Column
%path mysql_connector::error::ParseError => ParseError
%type Hex
%type samples::Vec3 as=Vec3
%type samples::geo::Point as=GeoPoint
%type samples::Pair as=Pair
%type samples::Point as=Point
%ty <Leafasmysql_connector::model::FromQueryResult>::Mapping => LeafMapping
%ty <Worldasmysql_connector::model::FromQueryResult>::Mapping => WorldMapping
%ty <Wholeasmysql_connector::model::FromQueryResult>::Mapping => WholeMapping
%ty <Otherasmysql_connector::model::FromQueryResult>::Mapping => OtherMapping
%ty <WholeNullasmysql_connector::model::FromQueryResult>::Mapping => WholeNullMapping
%ty <OtherNullasmysql_connector::model::FromQueryResult>::Mapping => OtherNullMapping
%ty <Placedasmysql_connector::model::FromQueryResult>::Mapping => PlacedMapping
%ty <Prefixasmysql_connector::model::FromQueryResult>::Mapping => PrefixMapping
%ty <Twoasmysql_connector::model::FromQueryResult>::Mapping => TwoMapping
%ty <DeepCasmysql_connector::model::FromQueryResult>::Mapping => DeepCMapping
%ty <DeepBasmysql_connector::model::FromQueryResult>::Mapping => DeepBMapping
%ty <DeepAasmysql_connector::model::FromQueryResult>::Mapping => DeepAMapping
%ty <Deepasmysql_connector::model::FromQueryResult>::Mapping => DeepMapping
%ty <Kidasmysql_connector::model::FromQueryResult>::Mapping => KidMapping
%ty <Parentasmysql_connector::model::FromQueryResult>::Mapping => ParentMapping
%ty <Chainasmysql_connector::model::FromQueryResult>::Mapping => ChainMapping
%ty <Chainedasmysql_connector::model::FromQueryResult>::Mapping => ChainedMapping
%ty <Rawasmysql_connector::model::FromQueryResult>::Mapping => RawMapping
%raw
#[verifier::external_body]
pub fn vx_leak<const N: usize>(a: [QueryColumn; N]) -> (r: &'static [QueryColumn]) ensures r@ == a@ { unimplemented!() }
/// Conversions of a value, chosen by the type of the field.
pub trait VxInto<T>: Sized {
    spec fn tried(self, r: Result<T, ParseError>) -> bool;
    fn vx_try(self) -> (r: Result<T, ParseError>) ensures self.tried(r);
}
impl VxInto<i8> for Value { open spec fn tried(self, r: Result<i8, ParseError>) -> bool { call_ensures(Value::vx_into_i8, (self,), r) } fn vx_try(self) -> (r: Result<i8, ParseError>) { self.vx_into_i8() } }
pub open spec fn no_i8(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_i8, (v,), Err(e)) }
impl VxInto<Option<i8>> for Value { open spec fn tried(self, r: Result<Option<i8>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_i8, (self,), r) } fn vx_try(self) -> (r: Result<Option<i8>, ParseError>) { self.vx_into_opt_i8() } }
pub open spec fn no_opt_i8(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_i8, (v,), Err(e)) }
impl VxInto<i16> for Value { open spec fn tried(self, r: Result<i16, ParseError>) -> bool { call_ensures(Value::vx_into_i16, (self,), r) } fn vx_try(self) -> (r: Result<i16, ParseError>) { self.vx_into_i16() } }
pub open spec fn no_i16(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_i16, (v,), Err(e)) }
impl VxInto<Option<i16>> for Value { open spec fn tried(self, r: Result<Option<i16>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_i16, (self,), r) } fn vx_try(self) -> (r: Result<Option<i16>, ParseError>) { self.vx_into_opt_i16() } }
pub open spec fn no_opt_i16(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_i16, (v,), Err(e)) }
impl VxInto<i32> for Value { open spec fn tried(self, r: Result<i32, ParseError>) -> bool { call_ensures(Value::vx_into_i32, (self,), r) } fn vx_try(self) -> (r: Result<i32, ParseError>) { self.vx_into_i32() } }
pub open spec fn no_i32(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_i32, (v,), Err(e)) }
impl VxInto<Option<i32>> for Value { open spec fn tried(self, r: Result<Option<i32>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_i32, (self,), r) } fn vx_try(self) -> (r: Result<Option<i32>, ParseError>) { self.vx_into_opt_i32() } }
pub open spec fn no_opt_i32(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_i32, (v,), Err(e)) }
impl VxInto<i64> for Value { open spec fn tried(self, r: Result<i64, ParseError>) -> bool { call_ensures(Value::vx_into_i64, (self,), r) } fn vx_try(self) -> (r: Result<i64, ParseError>) { self.vx_into_i64() } }
pub open spec fn no_i64(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_i64, (v,), Err(e)) }
impl VxInto<Option<i64>> for Value { open spec fn tried(self, r: Result<Option<i64>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_i64, (self,), r) } fn vx_try(self) -> (r: Result<Option<i64>, ParseError>) { self.vx_into_opt_i64() } }
pub open spec fn no_opt_i64(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_i64, (v,), Err(e)) }
impl VxInto<u8> for Value { open spec fn tried(self, r: Result<u8, ParseError>) -> bool { call_ensures(Value::vx_into_u8, (self,), r) } fn vx_try(self) -> (r: Result<u8, ParseError>) { self.vx_into_u8() } }
pub open spec fn no_u8(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_u8, (v,), Err(e)) }
impl VxInto<Option<u8>> for Value { open spec fn tried(self, r: Result<Option<u8>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_u8, (self,), r) } fn vx_try(self) -> (r: Result<Option<u8>, ParseError>) { self.vx_into_opt_u8() } }
pub open spec fn no_opt_u8(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_u8, (v,), Err(e)) }
impl VxInto<u16> for Value { open spec fn tried(self, r: Result<u16, ParseError>) -> bool { call_ensures(Value::vx_into_u16, (self,), r) } fn vx_try(self) -> (r: Result<u16, ParseError>) { self.vx_into_u16() } }
pub open spec fn no_u16(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_u16, (v,), Err(e)) }
impl VxInto<Option<u16>> for Value { open spec fn tried(self, r: Result<Option<u16>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_u16, (self,), r) } fn vx_try(self) -> (r: Result<Option<u16>, ParseError>) { self.vx_into_opt_u16() } }
pub open spec fn no_opt_u16(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_u16, (v,), Err(e)) }
impl VxInto<u32> for Value { open spec fn tried(self, r: Result<u32, ParseError>) -> bool { call_ensures(Value::vx_into_u32, (self,), r) } fn vx_try(self) -> (r: Result<u32, ParseError>) { self.vx_into_u32() } }
pub open spec fn no_u32(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_u32, (v,), Err(e)) }
impl VxInto<Option<u32>> for Value { open spec fn tried(self, r: Result<Option<u32>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_u32, (self,), r) } fn vx_try(self) -> (r: Result<Option<u32>, ParseError>) { self.vx_into_opt_u32() } }
pub open spec fn no_opt_u32(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_u32, (v,), Err(e)) }
impl VxInto<u64> for Value { open spec fn tried(self, r: Result<u64, ParseError>) -> bool { call_ensures(Value::vx_into_u64, (self,), r) } fn vx_try(self) -> (r: Result<u64, ParseError>) { self.vx_into_u64() } }
pub open spec fn no_u64(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_u64, (v,), Err(e)) }
impl VxInto<Option<u64>> for Value { open spec fn tried(self, r: Result<Option<u64>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_u64, (self,), r) } fn vx_try(self) -> (r: Result<Option<u64>, ParseError>) { self.vx_into_opt_u64() } }
pub open spec fn no_opt_u64(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_u64, (v,), Err(e)) }
impl VxInto<f32> for Value { open spec fn tried(self, r: Result<f32, ParseError>) -> bool { call_ensures(Value::vx_into_f32, (self,), r) } fn vx_try(self) -> (r: Result<f32, ParseError>) { self.vx_into_f32() } }
pub open spec fn no_f32(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_f32, (v,), Err(e)) }
impl VxInto<Option<f32>> for Value { open spec fn tried(self, r: Result<Option<f32>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_f32, (self,), r) } fn vx_try(self) -> (r: Result<Option<f32>, ParseError>) { self.vx_into_opt_f32() } }
pub open spec fn no_opt_f32(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_f32, (v,), Err(e)) }
impl VxInto<f64> for Value { open spec fn tried(self, r: Result<f64, ParseError>) -> bool { call_ensures(Value::vx_into_f64, (self,), r) } fn vx_try(self) -> (r: Result<f64, ParseError>) { self.vx_into_f64() } }
pub open spec fn no_f64(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_f64, (v,), Err(e)) }
impl VxInto<Option<f64>> for Value { open spec fn tried(self, r: Result<Option<f64>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_f64, (self,), r) } fn vx_try(self) -> (r: Result<Option<f64>, ParseError>) { self.vx_into_opt_f64() } }
pub open spec fn no_opt_f64(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_f64, (v,), Err(e)) }
impl VxInto<bool> for Value { open spec fn tried(self, r: Result<bool, ParseError>) -> bool { call_ensures(Value::vx_into_bool, (self,), r) } fn vx_try(self) -> (r: Result<bool, ParseError>) { self.vx_into_bool() } }
pub open spec fn no_bool(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_bool, (v,), Err(e)) }
impl VxInto<Option<bool>> for Value { open spec fn tried(self, r: Result<Option<bool>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_bool, (self,), r) } fn vx_try(self) -> (r: Result<Option<bool>, ParseError>) { self.vx_into_opt_bool() } }
pub open spec fn no_opt_bool(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_bool, (v,), Err(e)) }
impl VxInto<String> for Value { open spec fn tried(self, r: Result<String, ParseError>) -> bool { call_ensures(Value::vx_into_string, (self,), r) } fn vx_try(self) -> (r: Result<String, ParseError>) { self.vx_into_string() } }
pub open spec fn no_string(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_string, (v,), Err(e)) }
impl VxInto<Option<String>> for Value { open spec fn tried(self, r: Result<Option<String>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_string, (self,), r) } fn vx_try(self) -> (r: Result<Option<String>, ParseError>) { self.vx_into_opt_string() } }
pub open spec fn no_opt_string(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_string, (v,), Err(e)) }
impl VxInto<Vec<u8>> for Value { open spec fn tried(self, r: Result<Vec<u8>, ParseError>) -> bool { call_ensures(Value::vx_into_bytes, (self,), r) } fn vx_try(self) -> (r: Result<Vec<u8>, ParseError>) { self.vx_into_bytes() } }
pub open spec fn no_bytes(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_bytes, (v,), Err(e)) }
impl VxInto<Option<Vec<u8>>> for Value { open spec fn tried(self, r: Result<Option<Vec<u8>>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_bytes, (self,), r) } fn vx_try(self) -> (r: Result<Option<Vec<u8>>, ParseError>) { self.vx_into_opt_bytes() } }
pub open spec fn no_opt_bytes(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_bytes, (v,), Err(e)) }
impl VxInto<NaiveDate> for Value { open spec fn tried(self, r: Result<NaiveDate, ParseError>) -> bool { call_ensures(Value::vx_into_date, (self,), r) } fn vx_try(self) -> (r: Result<NaiveDate, ParseError>) { self.vx_into_date() } }
pub open spec fn no_date(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_date, (v,), Err(e)) }
impl VxInto<Option<NaiveDate>> for Value { open spec fn tried(self, r: Result<Option<NaiveDate>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_date, (self,), r) } fn vx_try(self) -> (r: Result<Option<NaiveDate>, ParseError>) { self.vx_into_opt_date() } }
pub open spec fn no_opt_date(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_date, (v,), Err(e)) }
impl VxInto<NaiveDateTime> for Value { open spec fn tried(self, r: Result<NaiveDateTime, ParseError>) -> bool { call_ensures(Value::vx_into_datetime, (self,), r) } fn vx_try(self) -> (r: Result<NaiveDateTime, ParseError>) { self.vx_into_datetime() } }
pub open spec fn no_datetime(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_datetime, (v,), Err(e)) }
impl VxInto<Option<NaiveDateTime>> for Value { open spec fn tried(self, r: Result<Option<NaiveDateTime>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_datetime, (self,), r) } fn vx_try(self) -> (r: Result<Option<NaiveDateTime>, ParseError>) { self.vx_into_opt_datetime() } }
pub open spec fn no_opt_datetime(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_datetime, (v,), Err(e)) }
impl VxInto<VDuration> for Value { open spec fn tried(self, r: Result<VDuration, ParseError>) -> bool { call_ensures(Value::vx_into_duration, (self,), r) } fn vx_try(self) -> (r: Result<VDuration, ParseError>) { self.vx_into_duration() } }
pub open spec fn no_duration(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_duration, (v,), Err(e)) }
impl VxInto<Option<VDuration>> for Value { open spec fn tried(self, r: Result<Option<VDuration>, ParseError>) -> bool { call_ensures(Value::vx_into_opt_duration, (self,), r) } fn vx_try(self) -> (r: Result<Option<VDuration>, ParseError>) { self.vx_into_opt_duration() } }
pub open spec fn no_opt_duration(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_opt_duration, (v,), Err(e)) }
impl VxInto<Hex> for Value { open spec fn tried(self, r: Result<Hex, ParseError>) -> bool { call_ensures(Value::vx_into_hex, (self,), r) } fn vx_try(self) -> (r: Result<Hex, ParseError>) { self.vx_into_hex() } }
pub open spec fn no_hex(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_hex, (v,), Err(e)) }
impl VxInto<Option<Hex>> for Value { open spec fn tried(self, r: Result<Option<Hex>, ParseError>) -> bool { call_ensures(Value::vx_into_hex_opt, (self,), r) } fn vx_try(self) -> (r: Result<Option<Hex>, ParseError>) { self.vx_into_hex_opt() } }
pub open spec fn no_hex_opt(v: Value) -> bool { exists|e: ParseError| #[trigger] call_ensures(Value::vx_into_hex_opt, (v,), Err(e)) }
%fn <Value as TryInto<Hex>>::try_into as vx_into_hex
    ensures r is Ok <==> self is Bytes, r is Ok ==> r->Ok_0.0 == self->Bytes_0
%fn <Value as TryInto<Option<Hex>>>::try_into as vx_into_hex_opt
    ensures r is Ok <==> self is Bytes || self is Null, r is Ok ==> r->Ok_0 == match self { Value::Null => None, Value::Bytes(b) => Some(Hex(b)), _ => r->Ok_0 }
%rw x.try_into() => x.vx_into_hex()
%type Leaf
%type LeafMapping
%raw
impl VxMaps for LeafMapping {
    open spec fn table() -> Seq<char> { "leaf"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("name"@)] }
    open spec fn size() -> nat { 2 }
    proof fn sized() {  }
    open spec fn fresh() -> Self { LeafMapping { id: None, name: None } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if name == "id"@ { LeafMapping { id: Some(i), ..self } } else if name == "name"@ { LeafMapping { name: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.name } else { None }
    }
    proof fn none() {
        Self::sized(); 
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("name"); assert("name"@.len() == 4);   
        
        
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == LeafMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("name"@)); assert(m.stepped("name"@, seq![], i) == LeafMapping { name: Some(i), ..m }); }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn leaf_filled(m: LeafMapping, row: Seq<Value>, v: Leaf) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u32, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.name is Some && call_ensures(Value::vx_into_string, (row[m.name->Some_0 as int],), Ok(v.name))
}
/// One of the values is not one of its field.
pub open spec fn leaf_unread(m: LeafMapping, row: Seq<Value>) -> bool {
    ||| no_u32(row[m.id->Some_0 as int])
    ||| no_string(row[m.name->Some_0 as int])
}
pub open spec fn leaf_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 2
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "name"@
}
%fn <Leaf as ModelData>::TABLE as leaf_table
    ensures r@ == LeafMapping::table()
%fn <Leaf as ModelData>::TABLE_WITH_POINT as leaf_table_dot
    ensures r@ == dotted(LeafMapping::table())
%at tail
    proof { reveal_strlit("leaf"); reveal_strlit("leaf."); assert("leaf."@ =~= dotted("leaf"@)); }
%fn <Leaf as Model>::PRIMARY as leaf_primary
    ensures r@ == "id"@
%fn <Leaf as IntoQuery>::COLUMNS as leaf_columns_
    ensures leaf_columns(r@)
%fn <LeafMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw ::core::default::Default::default() => None
%fn <LeafMapping as FromQueryResultMapping<Leaf>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%attr #[verifier::spinoff_prover]
%fn <Leaf as FromQueryResult>::from_mapping_and_row as vx_leaf
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && leaf_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || leaf_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%at entry
    proof {
        LeafMapping::sized(); 
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.name);
    }
%type World
%type WorldMapping
%raw
impl VxMaps for WorldMapping {
    open spec fn table() -> Seq<char> { "world"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("name"@), own("level"@), own("played"@)] }
    open spec fn size() -> nat { 4 }
    proof fn sized() {  }
    open spec fn fresh() -> Self { WorldMapping { id: None, name: None, level: None, played: None } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if name == "id"@ { WorldMapping { id: Some(i), ..self } } else if name == "name"@ { WorldMapping { name: Some(i), ..self } } else if name == "level"@ { WorldMapping { level: Some(i), ..self } } else if name == "played"@ { WorldMapping { played: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.name } else if k == 2 { self.level } else if k == 3 { self.played } else { None }
    }
    proof fn none() {
        Self::sized(); 
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("level"); assert("level"@.len() == 5); reveal_strlit("name"); assert("name"@.len() == 4); reveal_strlit("played"); assert("played"@.len() == 6);   
        
        
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == WorldMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("name"@)); assert(m.stepped("name"@, seq![], i) == WorldMapping { name: Some(i), ..m }); }
        else if k == 2 { assert(Self::leaves()[2] == own("level"@)); assert(m.stepped("level"@, seq![], i) == WorldMapping { level: Some(i), ..m }); }
        else if k == 3 { assert(Self::leaves()[3] == own("played"@)); assert(m.stepped("played"@, seq![], i) == WorldMapping { played: Some(i), ..m }); }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn world_filled(m: WorldMapping, row: Seq<Value>, v: World) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u32, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.name is Some && call_ensures(Value::vx_into_string, (row[m.name->Some_0 as int],), Ok(v.name))
    &&& m.level is Some && call_ensures(Value::vx_into_u8, (row[m.level->Some_0 as int],), Ok(v.level))
    &&& m.played is Some && call_ensures(Value::vx_into_opt_datetime, (row[m.played->Some_0 as int],), Ok(v.played))
}
/// One of the values is not one of its field.
pub open spec fn world_unread(m: WorldMapping, row: Seq<Value>) -> bool {
    ||| no_u32(row[m.id->Some_0 as int])
    ||| no_string(row[m.name->Some_0 as int])
    ||| no_u8(row[m.level->Some_0 as int])
    ||| no_opt_datetime(row[m.played->Some_0 as int])
}
pub open spec fn world_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 4
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "name"@
    &&& c[2] is Column && c[2]->Column_0@ == "level"@
    &&& c[3] is Column && c[3]->Column_0@ == "played"@
}
%fn <World as ModelData>::TABLE as world_table
    ensures r@ == WorldMapping::table()
%fn <World as ModelData>::TABLE_WITH_POINT as world_table_dot
    ensures r@ == dotted(WorldMapping::table())
%at tail
    proof { reveal_strlit("world"); reveal_strlit("world."); assert("world."@ =~= dotted("world"@)); }
%fn <World as Model>::PRIMARY as world_primary
    ensures r@ == "id"@
%fn <World as IntoQuery>::COLUMNS as world_columns_
    ensures world_columns(r@)
%fn <WorldMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw ::core::default::Default::default() => None
%fn <WorldMapping as FromQueryResultMapping<World>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%attr #[verifier::spinoff_prover]
%fn <World as FromQueryResult>::from_mapping_and_row as vx_world
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && world_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || world_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%at entry
    proof {
        WorldMapping::sized(); 
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.name);
        assert(mapping.got(2) == mapping.level);
        assert(mapping.got(3) == mapping.played);
    }
%type Whole
%type WholeMapping
%raw
impl VxMaps for WholeMapping {
    open spec fn table() -> Seq<char> { "whole"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("a_i8"@), own("a_i16"@), own("a_i32"@), own("a_i64"@), own("a_u8"@), own("a_u16"@), own("a_u32"@), own("a_u64"@)] }
    open spec fn size() -> nat { 9 }
    proof fn sized() {  }
    open spec fn fresh() -> Self { WholeMapping { id: None, a_i8: None, a_i16: None, a_i32: None, a_i64: None, a_u8: None, a_u16: None, a_u32: None, a_u64: None } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if name == "id"@ { WholeMapping { id: Some(i), ..self } } else if name == "a_i8"@ { WholeMapping { a_i8: Some(i), ..self } } else if name == "a_i16"@ { WholeMapping { a_i16: Some(i), ..self } } else if name == "a_i32"@ { WholeMapping { a_i32: Some(i), ..self } } else if name == "a_i64"@ { WholeMapping { a_i64: Some(i), ..self } } else if name == "a_u8"@ { WholeMapping { a_u8: Some(i), ..self } } else if name == "a_u16"@ { WholeMapping { a_u16: Some(i), ..self } } else if name == "a_u32"@ { WholeMapping { a_u32: Some(i), ..self } } else if name == "a_u64"@ { WholeMapping { a_u64: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.a_i8 } else if k == 2 { self.a_i16 } else if k == 3 { self.a_i32 } else if k == 4 { self.a_i64 } else if k == 5 { self.a_u8 } else if k == 6 { self.a_u16 } else if k == 7 { self.a_u32 } else if k == 8 { self.a_u64 } else { None }
    }
    proof fn none() {
        Self::sized(); 
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("a_i16"); assert("a_i16"@.len() == 5); reveal_strlit("a_i32"); assert("a_i32"@.len() == 5); reveal_strlit("a_i64"); assert("a_i64"@.len() == 5); reveal_strlit("a_i8"); assert("a_i8"@.len() == 4); reveal_strlit("a_u16"); assert("a_u16"@.len() == 5); reveal_strlit("a_u32"); assert("a_u32"@.len() == 5); reveal_strlit("a_u64"); assert("a_u64"@.len() == 5); reveal_strlit("a_u8"); assert("a_u8"@.len() == 4); reveal_strlit("id"); assert("id"@.len() == 2); assert("a_i32"@[3] != "a_i16"@[3]); assert("a_i64"@[3] != "a_i16"@[3]); assert("a_i64"@[3] != "a_i32"@[3]); assert("a_u8"@[2] != "a_i8"@[2]); assert("a_u16"@[2] != "a_i16"@[2]); assert("a_u16"@[2] != "a_i32"@[2]); assert("a_u16"@[2] != "a_i64"@[2]); assert("a_u32"@[2] != "a_i16"@[2]); assert("a_u32"@[2] != "a_i32"@[2]); assert("a_u32"@[2] != "a_i64"@[2]); assert("a_u32"@[3] != "a_u16"@[3]); assert("a_u64"@[2] != "a_i16"@[2]); assert("a_u64"@[2] != "a_i32"@[2]); assert("a_u64"@[2] != "a_i64"@[2]); assert("a_u64"@[3] != "a_u16"@[3]); assert("a_u64"@[3] != "a_u32"@[3]);  
        
        
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == WholeMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("a_i8"@)); assert(m.stepped("a_i8"@, seq![], i) == WholeMapping { a_i8: Some(i), ..m }); }
        else if k == 2 { assert(Self::leaves()[2] == own("a_i16"@)); assert(m.stepped("a_i16"@, seq![], i) == WholeMapping { a_i16: Some(i), ..m }); }
        else if k == 3 { assert(Self::leaves()[3] == own("a_i32"@)); assert(m.stepped("a_i32"@, seq![], i) == WholeMapping { a_i32: Some(i), ..m }); }
        else if k == 4 { assert(Self::leaves()[4] == own("a_i64"@)); assert(m.stepped("a_i64"@, seq![], i) == WholeMapping { a_i64: Some(i), ..m }); }
        else if k == 5 { assert(Self::leaves()[5] == own("a_u8"@)); assert(m.stepped("a_u8"@, seq![], i) == WholeMapping { a_u8: Some(i), ..m }); }
        else if k == 6 { assert(Self::leaves()[6] == own("a_u16"@)); assert(m.stepped("a_u16"@, seq![], i) == WholeMapping { a_u16: Some(i), ..m }); }
        else if k == 7 { assert(Self::leaves()[7] == own("a_u32"@)); assert(m.stepped("a_u32"@, seq![], i) == WholeMapping { a_u32: Some(i), ..m }); }
        else if k == 8 { assert(Self::leaves()[8] == own("a_u64"@)); assert(m.stepped("a_u64"@, seq![], i) == WholeMapping { a_u64: Some(i), ..m }); }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn whole_filled(m: WholeMapping, row: Seq<Value>, v: Whole) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u64, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.a_i8 is Some && call_ensures(Value::vx_into_i8, (row[m.a_i8->Some_0 as int],), Ok(v.a_i8))
    &&& m.a_i16 is Some && call_ensures(Value::vx_into_i16, (row[m.a_i16->Some_0 as int],), Ok(v.a_i16))
    &&& m.a_i32 is Some && call_ensures(Value::vx_into_i32, (row[m.a_i32->Some_0 as int],), Ok(v.a_i32))
    &&& m.a_i64 is Some && call_ensures(Value::vx_into_i64, (row[m.a_i64->Some_0 as int],), Ok(v.a_i64))
    &&& m.a_u8 is Some && call_ensures(Value::vx_into_u8, (row[m.a_u8->Some_0 as int],), Ok(v.a_u8))
    &&& m.a_u16 is Some && call_ensures(Value::vx_into_u16, (row[m.a_u16->Some_0 as int],), Ok(v.a_u16))
    &&& m.a_u32 is Some && call_ensures(Value::vx_into_u32, (row[m.a_u32->Some_0 as int],), Ok(v.a_u32))
    &&& m.a_u64 is Some && call_ensures(Value::vx_into_u64, (row[m.a_u64->Some_0 as int],), Ok(v.a_u64))
}
/// One of the values is not one of its field.
pub open spec fn whole_unread(m: WholeMapping, row: Seq<Value>) -> bool {
    ||| no_u64(row[m.id->Some_0 as int])
    ||| no_i8(row[m.a_i8->Some_0 as int])
    ||| no_i16(row[m.a_i16->Some_0 as int])
    ||| no_i32(row[m.a_i32->Some_0 as int])
    ||| no_i64(row[m.a_i64->Some_0 as int])
    ||| no_u8(row[m.a_u8->Some_0 as int])
    ||| no_u16(row[m.a_u16->Some_0 as int])
    ||| no_u32(row[m.a_u32->Some_0 as int])
    ||| no_u64(row[m.a_u64->Some_0 as int])
}
pub open spec fn whole_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 9
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "a_i8"@
    &&& c[2] is Column && c[2]->Column_0@ == "a_i16"@
    &&& c[3] is Column && c[3]->Column_0@ == "a_i32"@
    &&& c[4] is Column && c[4]->Column_0@ == "a_i64"@
    &&& c[5] is Column && c[5]->Column_0@ == "a_u8"@
    &&& c[6] is Column && c[6]->Column_0@ == "a_u16"@
    &&& c[7] is Column && c[7]->Column_0@ == "a_u32"@
    &&& c[8] is Column && c[8]->Column_0@ == "a_u64"@
}
%fn <Whole as ModelData>::TABLE as whole_table
    ensures r@ == WholeMapping::table()
%fn <Whole as ModelData>::TABLE_WITH_POINT as whole_table_dot
    ensures r@ == dotted(WholeMapping::table())
%at tail
    proof { reveal_strlit("whole"); reveal_strlit("whole."); assert("whole."@ =~= dotted("whole"@)); }
%fn <Whole as Model>::PRIMARY as whole_primary
    ensures r@ == "id"@
%fn <Whole as IntoQuery>::COLUMNS as whole_columns_
    ensures whole_columns(r@)
%fn <WholeMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw ::core::default::Default::default() => None
%fn <WholeMapping as FromQueryResultMapping<Whole>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%attr #[verifier::spinoff_prover]
%fn <Whole as FromQueryResult>::from_mapping_and_row as vx_whole
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && whole_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || whole_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%at entry
    proof {
        WholeMapping::sized(); 
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.a_i8);
        assert(mapping.got(2) == mapping.a_i16);
        assert(mapping.got(3) == mapping.a_i32);
        assert(mapping.got(4) == mapping.a_i64);
        assert(mapping.got(5) == mapping.a_u8);
        assert(mapping.got(6) == mapping.a_u16);
        assert(mapping.got(7) == mapping.a_u32);
        assert(mapping.got(8) == mapping.a_u64);
    }
%type Other
%type OtherMapping
%raw
impl VxMaps for OtherMapping {
    open spec fn table() -> Seq<char> { "other"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("a_f32"@), own("a_f64"@), own("a_bool"@), own("a_str"@), own("a_bytes"@), own("a_date"@), own("a_datetime"@), own("a_dur"@), own("a_hex"@)] }
    open spec fn size() -> nat { 10 }
    proof fn sized() {  }
    open spec fn fresh() -> Self { OtherMapping { id: None, a_f32: None, a_f64: None, a_bool: None, a_str: None, a_bytes: None, a_date: None, a_datetime: None, a_dur: None, a_hex: None } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if name == "id"@ { OtherMapping { id: Some(i), ..self } } else if name == "a_f32"@ { OtherMapping { a_f32: Some(i), ..self } } else if name == "a_f64"@ { OtherMapping { a_f64: Some(i), ..self } } else if name == "a_bool"@ { OtherMapping { a_bool: Some(i), ..self } } else if name == "a_str"@ { OtherMapping { a_str: Some(i), ..self } } else if name == "a_bytes"@ { OtherMapping { a_bytes: Some(i), ..self } } else if name == "a_date"@ { OtherMapping { a_date: Some(i), ..self } } else if name == "a_datetime"@ { OtherMapping { a_datetime: Some(i), ..self } } else if name == "a_dur"@ { OtherMapping { a_dur: Some(i), ..self } } else if name == "a_hex"@ { OtherMapping { a_hex: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.a_f32 } else if k == 2 { self.a_f64 } else if k == 3 { self.a_bool } else if k == 4 { self.a_str } else if k == 5 { self.a_bytes } else if k == 6 { self.a_date } else if k == 7 { self.a_datetime } else if k == 8 { self.a_dur } else if k == 9 { self.a_hex } else { None }
    }
    proof fn none() {
        Self::sized(); 
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("a_bool"); assert("a_bool"@.len() == 6); reveal_strlit("a_bytes"); assert("a_bytes"@.len() == 7); reveal_strlit("a_date"); assert("a_date"@.len() == 6); reveal_strlit("a_datetime"); assert("a_datetime"@.len() == 10); reveal_strlit("a_dur"); assert("a_dur"@.len() == 5); reveal_strlit("a_f32"); assert("a_f32"@.len() == 5); reveal_strlit("a_f64"); assert("a_f64"@.len() == 5); reveal_strlit("a_hex"); assert("a_hex"@.len() == 5); reveal_strlit("a_str"); assert("a_str"@.len() == 5); reveal_strlit("id"); assert("id"@.len() == 2); assert("a_f64"@[3] != "a_f32"@[3]); assert("a_str"@[2] != "a_f32"@[2]); assert("a_str"@[2] != "a_f64"@[2]); assert("a_date"@[2] != "a_bool"@[2]); assert("a_dur"@[2] != "a_f32"@[2]); assert("a_dur"@[2] != "a_f64"@[2]); assert("a_dur"@[2] != "a_str"@[2]); assert("a_hex"@[2] != "a_f32"@[2]); assert("a_hex"@[2] != "a_f64"@[2]); assert("a_hex"@[2] != "a_str"@[2]); assert("a_hex"@[2] != "a_dur"@[2]);  
        
        
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == OtherMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("a_f32"@)); assert(m.stepped("a_f32"@, seq![], i) == OtherMapping { a_f32: Some(i), ..m }); }
        else if k == 2 { assert(Self::leaves()[2] == own("a_f64"@)); assert(m.stepped("a_f64"@, seq![], i) == OtherMapping { a_f64: Some(i), ..m }); }
        else if k == 3 { assert(Self::leaves()[3] == own("a_bool"@)); assert(m.stepped("a_bool"@, seq![], i) == OtherMapping { a_bool: Some(i), ..m }); }
        else if k == 4 { assert(Self::leaves()[4] == own("a_str"@)); assert(m.stepped("a_str"@, seq![], i) == OtherMapping { a_str: Some(i), ..m }); }
        else if k == 5 { assert(Self::leaves()[5] == own("a_bytes"@)); assert(m.stepped("a_bytes"@, seq![], i) == OtherMapping { a_bytes: Some(i), ..m }); }
        else if k == 6 { assert(Self::leaves()[6] == own("a_date"@)); assert(m.stepped("a_date"@, seq![], i) == OtherMapping { a_date: Some(i), ..m }); }
        else if k == 7 { assert(Self::leaves()[7] == own("a_datetime"@)); assert(m.stepped("a_datetime"@, seq![], i) == OtherMapping { a_datetime: Some(i), ..m }); }
        else if k == 8 { assert(Self::leaves()[8] == own("a_dur"@)); assert(m.stepped("a_dur"@, seq![], i) == OtherMapping { a_dur: Some(i), ..m }); }
        else if k == 9 { assert(Self::leaves()[9] == own("a_hex"@)); assert(m.stepped("a_hex"@, seq![], i) == OtherMapping { a_hex: Some(i), ..m }); }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn other_filled(m: OtherMapping, row: Seq<Value>, v: Other) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u64, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.a_f32 is Some && call_ensures(Value::vx_into_f32, (row[m.a_f32->Some_0 as int],), Ok(v.a_f32))
    &&& m.a_f64 is Some && call_ensures(Value::vx_into_f64, (row[m.a_f64->Some_0 as int],), Ok(v.a_f64))
    &&& m.a_bool is Some && call_ensures(Value::vx_into_bool, (row[m.a_bool->Some_0 as int],), Ok(v.a_bool))
    &&& m.a_str is Some && call_ensures(Value::vx_into_string, (row[m.a_str->Some_0 as int],), Ok(v.a_str))
    &&& m.a_bytes is Some && call_ensures(Value::vx_into_bytes, (row[m.a_bytes->Some_0 as int],), Ok(v.a_bytes))
    &&& m.a_date is Some && call_ensures(Value::vx_into_date, (row[m.a_date->Some_0 as int],), Ok(v.a_date))
    &&& m.a_datetime is Some && call_ensures(Value::vx_into_datetime, (row[m.a_datetime->Some_0 as int],), Ok(v.a_datetime))
    &&& m.a_dur is Some && call_ensures(Value::vx_into_duration, (row[m.a_dur->Some_0 as int],), Ok(v.a_dur))
    &&& m.a_hex is Some && call_ensures(Value::vx_into_hex, (row[m.a_hex->Some_0 as int],), Ok(v.a_hex))
}
/// One of the values is not one of its field.
pub open spec fn other_unread(m: OtherMapping, row: Seq<Value>) -> bool {
    ||| no_u64(row[m.id->Some_0 as int])
    ||| no_f32(row[m.a_f32->Some_0 as int])
    ||| no_f64(row[m.a_f64->Some_0 as int])
    ||| no_bool(row[m.a_bool->Some_0 as int])
    ||| no_string(row[m.a_str->Some_0 as int])
    ||| no_bytes(row[m.a_bytes->Some_0 as int])
    ||| no_date(row[m.a_date->Some_0 as int])
    ||| no_datetime(row[m.a_datetime->Some_0 as int])
    ||| no_duration(row[m.a_dur->Some_0 as int])
    ||| no_hex(row[m.a_hex->Some_0 as int])
}
pub open spec fn other_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 10
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "a_f32"@
    &&& c[2] is Column && c[2]->Column_0@ == "a_f64"@
    &&& c[3] is Column && c[3]->Column_0@ == "a_bool"@
    &&& c[4] is Column && c[4]->Column_0@ == "a_str"@
    &&& c[5] is Column && c[5]->Column_0@ == "a_bytes"@
    &&& c[6] is Column && c[6]->Column_0@ == "a_date"@
    &&& c[7] is Column && c[7]->Column_0@ == "a_datetime"@
    &&& c[8] is Column && c[8]->Column_0@ == "a_dur"@
    &&& c[9] is Column && c[9]->Column_0@ == "a_hex"@
}
%fn <Other as ModelData>::TABLE as other_table
    ensures r@ == OtherMapping::table()
%fn <Other as ModelData>::TABLE_WITH_POINT as other_table_dot
    ensures r@ == dotted(OtherMapping::table())
%at tail
    proof { reveal_strlit("other"); reveal_strlit("other."); assert("other."@ =~= dotted("other"@)); }
%fn <Other as Model>::PRIMARY as other_primary
    ensures r@ == "id"@
%fn <Other as IntoQuery>::COLUMNS as other_columns_
    ensures other_columns(r@)
%fn <OtherMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw ::core::default::Default::default() => None
%fn <OtherMapping as FromQueryResultMapping<Other>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%attr #[verifier::spinoff_prover]
%fn <Other as FromQueryResult>::from_mapping_and_row as vx_other
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && other_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || other_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%at entry
    proof {
        OtherMapping::sized(); 
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.a_f32);
        assert(mapping.got(2) == mapping.a_f64);
        assert(mapping.got(3) == mapping.a_bool);
        assert(mapping.got(4) == mapping.a_str);
        assert(mapping.got(5) == mapping.a_bytes);
        assert(mapping.got(6) == mapping.a_date);
        assert(mapping.got(7) == mapping.a_datetime);
        assert(mapping.got(8) == mapping.a_dur);
        assert(mapping.got(9) == mapping.a_hex);
    }
%type WholeNull
%type WholeNullMapping
%raw
impl VxMaps for WholeNullMapping {
    open spec fn table() -> Seq<char> { "whole_null"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("o_i8"@), own("o_i16"@), own("o_i32"@), own("o_i64"@), own("o_u8"@), own("o_u16"@), own("o_u32"@), own("o_u64"@)] }
    open spec fn size() -> nat { 9 }
    proof fn sized() {  }
    open spec fn fresh() -> Self { WholeNullMapping { id: None, o_i8: None, o_i16: None, o_i32: None, o_i64: None, o_u8: None, o_u16: None, o_u32: None, o_u64: None } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if name == "id"@ { WholeNullMapping { id: Some(i), ..self } } else if name == "o_i8"@ { WholeNullMapping { o_i8: Some(i), ..self } } else if name == "o_i16"@ { WholeNullMapping { o_i16: Some(i), ..self } } else if name == "o_i32"@ { WholeNullMapping { o_i32: Some(i), ..self } } else if name == "o_i64"@ { WholeNullMapping { o_i64: Some(i), ..self } } else if name == "o_u8"@ { WholeNullMapping { o_u8: Some(i), ..self } } else if name == "o_u16"@ { WholeNullMapping { o_u16: Some(i), ..self } } else if name == "o_u32"@ { WholeNullMapping { o_u32: Some(i), ..self } } else if name == "o_u64"@ { WholeNullMapping { o_u64: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.o_i8 } else if k == 2 { self.o_i16 } else if k == 3 { self.o_i32 } else if k == 4 { self.o_i64 } else if k == 5 { self.o_u8 } else if k == 6 { self.o_u16 } else if k == 7 { self.o_u32 } else if k == 8 { self.o_u64 } else { None }
    }
    proof fn none() {
        Self::sized(); 
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("o_i16"); assert("o_i16"@.len() == 5); reveal_strlit("o_i32"); assert("o_i32"@.len() == 5); reveal_strlit("o_i64"); assert("o_i64"@.len() == 5); reveal_strlit("o_i8"); assert("o_i8"@.len() == 4); reveal_strlit("o_u16"); assert("o_u16"@.len() == 5); reveal_strlit("o_u32"); assert("o_u32"@.len() == 5); reveal_strlit("o_u64"); assert("o_u64"@.len() == 5); reveal_strlit("o_u8"); assert("o_u8"@.len() == 4); assert("o_i32"@[3] != "o_i16"@[3]); assert("o_i64"@[3] != "o_i16"@[3]); assert("o_i64"@[3] != "o_i32"@[3]); assert("o_u8"@[2] != "o_i8"@[2]); assert("o_u16"@[2] != "o_i16"@[2]); assert("o_u16"@[2] != "o_i32"@[2]); assert("o_u16"@[2] != "o_i64"@[2]); assert("o_u32"@[2] != "o_i16"@[2]); assert("o_u32"@[2] != "o_i32"@[2]); assert("o_u32"@[2] != "o_i64"@[2]); assert("o_u32"@[3] != "o_u16"@[3]); assert("o_u64"@[2] != "o_i16"@[2]); assert("o_u64"@[2] != "o_i32"@[2]); assert("o_u64"@[2] != "o_i64"@[2]); assert("o_u64"@[3] != "o_u16"@[3]); assert("o_u64"@[3] != "o_u32"@[3]);  
        
        
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == WholeNullMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("o_i8"@)); assert(m.stepped("o_i8"@, seq![], i) == WholeNullMapping { o_i8: Some(i), ..m }); }
        else if k == 2 { assert(Self::leaves()[2] == own("o_i16"@)); assert(m.stepped("o_i16"@, seq![], i) == WholeNullMapping { o_i16: Some(i), ..m }); }
        else if k == 3 { assert(Self::leaves()[3] == own("o_i32"@)); assert(m.stepped("o_i32"@, seq![], i) == WholeNullMapping { o_i32: Some(i), ..m }); }
        else if k == 4 { assert(Self::leaves()[4] == own("o_i64"@)); assert(m.stepped("o_i64"@, seq![], i) == WholeNullMapping { o_i64: Some(i), ..m }); }
        else if k == 5 { assert(Self::leaves()[5] == own("o_u8"@)); assert(m.stepped("o_u8"@, seq![], i) == WholeNullMapping { o_u8: Some(i), ..m }); }
        else if k == 6 { assert(Self::leaves()[6] == own("o_u16"@)); assert(m.stepped("o_u16"@, seq![], i) == WholeNullMapping { o_u16: Some(i), ..m }); }
        else if k == 7 { assert(Self::leaves()[7] == own("o_u32"@)); assert(m.stepped("o_u32"@, seq![], i) == WholeNullMapping { o_u32: Some(i), ..m }); }
        else if k == 8 { assert(Self::leaves()[8] == own("o_u64"@)); assert(m.stepped("o_u64"@, seq![], i) == WholeNullMapping { o_u64: Some(i), ..m }); }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn wholenull_filled(m: WholeNullMapping, row: Seq<Value>, v: WholeNull) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u64, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.o_i8 is Some && call_ensures(Value::vx_into_opt_i8, (row[m.o_i8->Some_0 as int],), Ok(v.o_i8))
    &&& m.o_i16 is Some && call_ensures(Value::vx_into_opt_i16, (row[m.o_i16->Some_0 as int],), Ok(v.o_i16))
    &&& m.o_i32 is Some && call_ensures(Value::vx_into_opt_i32, (row[m.o_i32->Some_0 as int],), Ok(v.o_i32))
    &&& m.o_i64 is Some && call_ensures(Value::vx_into_opt_i64, (row[m.o_i64->Some_0 as int],), Ok(v.o_i64))
    &&& m.o_u8 is Some && call_ensures(Value::vx_into_opt_u8, (row[m.o_u8->Some_0 as int],), Ok(v.o_u8))
    &&& m.o_u16 is Some && call_ensures(Value::vx_into_opt_u16, (row[m.o_u16->Some_0 as int],), Ok(v.o_u16))
    &&& m.o_u32 is Some && call_ensures(Value::vx_into_opt_u32, (row[m.o_u32->Some_0 as int],), Ok(v.o_u32))
    &&& m.o_u64 is Some && call_ensures(Value::vx_into_opt_u64, (row[m.o_u64->Some_0 as int],), Ok(v.o_u64))
}
/// One of the values is not one of its field.
pub open spec fn wholenull_unread(m: WholeNullMapping, row: Seq<Value>) -> bool {
    ||| no_u64(row[m.id->Some_0 as int])
    ||| no_opt_i8(row[m.o_i8->Some_0 as int])
    ||| no_opt_i16(row[m.o_i16->Some_0 as int])
    ||| no_opt_i32(row[m.o_i32->Some_0 as int])
    ||| no_opt_i64(row[m.o_i64->Some_0 as int])
    ||| no_opt_u8(row[m.o_u8->Some_0 as int])
    ||| no_opt_u16(row[m.o_u16->Some_0 as int])
    ||| no_opt_u32(row[m.o_u32->Some_0 as int])
    ||| no_opt_u64(row[m.o_u64->Some_0 as int])
}
pub open spec fn wholenull_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 9
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "o_i8"@
    &&& c[2] is Column && c[2]->Column_0@ == "o_i16"@
    &&& c[3] is Column && c[3]->Column_0@ == "o_i32"@
    &&& c[4] is Column && c[4]->Column_0@ == "o_i64"@
    &&& c[5] is Column && c[5]->Column_0@ == "o_u8"@
    &&& c[6] is Column && c[6]->Column_0@ == "o_u16"@
    &&& c[7] is Column && c[7]->Column_0@ == "o_u32"@
    &&& c[8] is Column && c[8]->Column_0@ == "o_u64"@
}
%fn <WholeNull as ModelData>::TABLE as wholenull_table
    ensures r@ == WholeNullMapping::table()
%fn <WholeNull as ModelData>::TABLE_WITH_POINT as wholenull_table_dot
    ensures r@ == dotted(WholeNullMapping::table())
%at tail
    proof { reveal_strlit("whole_null"); reveal_strlit("whole_null."); assert("whole_null."@ =~= dotted("whole_null"@)); }
%fn <WholeNull as Model>::PRIMARY as wholenull_primary
    ensures r@ == "id"@
%fn <WholeNull as IntoQuery>::COLUMNS as wholenull_columns_
    ensures wholenull_columns(r@)
%fn <WholeNullMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw ::core::default::Default::default() => None
%fn <WholeNullMapping as FromQueryResultMapping<WholeNull>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%attr #[verifier::spinoff_prover]
%fn <WholeNull as FromQueryResult>::from_mapping_and_row as vx_wholenull
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && wholenull_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || wholenull_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%at entry
    proof {
        WholeNullMapping::sized(); 
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.o_i8);
        assert(mapping.got(2) == mapping.o_i16);
        assert(mapping.got(3) == mapping.o_i32);
        assert(mapping.got(4) == mapping.o_i64);
        assert(mapping.got(5) == mapping.o_u8);
        assert(mapping.got(6) == mapping.o_u16);
        assert(mapping.got(7) == mapping.o_u32);
        assert(mapping.got(8) == mapping.o_u64);
    }
%type OtherNull
%type OtherNullMapping
%raw
impl VxMaps for OtherNullMapping {
    open spec fn table() -> Seq<char> { "other_null"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("o_f32"@), own("o_f64"@), own("o_bool"@), own("o_str"@), own("o_bytes"@), own("o_date"@), own("o_datetime"@), own("o_dur"@), own("o_hex"@)] }
    open spec fn size() -> nat { 10 }
    proof fn sized() {  }
    open spec fn fresh() -> Self { OtherNullMapping { id: None, o_f32: None, o_f64: None, o_bool: None, o_str: None, o_bytes: None, o_date: None, o_datetime: None, o_dur: None, o_hex: None } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if name == "id"@ { OtherNullMapping { id: Some(i), ..self } } else if name == "o_f32"@ { OtherNullMapping { o_f32: Some(i), ..self } } else if name == "o_f64"@ { OtherNullMapping { o_f64: Some(i), ..self } } else if name == "o_bool"@ { OtherNullMapping { o_bool: Some(i), ..self } } else if name == "o_str"@ { OtherNullMapping { o_str: Some(i), ..self } } else if name == "o_bytes"@ { OtherNullMapping { o_bytes: Some(i), ..self } } else if name == "o_date"@ { OtherNullMapping { o_date: Some(i), ..self } } else if name == "o_datetime"@ { OtherNullMapping { o_datetime: Some(i), ..self } } else if name == "o_dur"@ { OtherNullMapping { o_dur: Some(i), ..self } } else if name == "o_hex"@ { OtherNullMapping { o_hex: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.o_f32 } else if k == 2 { self.o_f64 } else if k == 3 { self.o_bool } else if k == 4 { self.o_str } else if k == 5 { self.o_bytes } else if k == 6 { self.o_date } else if k == 7 { self.o_datetime } else if k == 8 { self.o_dur } else if k == 9 { self.o_hex } else { None }
    }
    proof fn none() {
        Self::sized(); 
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("o_bool"); assert("o_bool"@.len() == 6); reveal_strlit("o_bytes"); assert("o_bytes"@.len() == 7); reveal_strlit("o_date"); assert("o_date"@.len() == 6); reveal_strlit("o_datetime"); assert("o_datetime"@.len() == 10); reveal_strlit("o_dur"); assert("o_dur"@.len() == 5); reveal_strlit("o_f32"); assert("o_f32"@.len() == 5); reveal_strlit("o_f64"); assert("o_f64"@.len() == 5); reveal_strlit("o_hex"); assert("o_hex"@.len() == 5); reveal_strlit("o_str"); assert("o_str"@.len() == 5); assert("o_f64"@[3] != "o_f32"@[3]); assert("o_str"@[2] != "o_f32"@[2]); assert("o_str"@[2] != "o_f64"@[2]); assert("o_date"@[2] != "o_bool"@[2]); assert("o_dur"@[2] != "o_f32"@[2]); assert("o_dur"@[2] != "o_f64"@[2]); assert("o_dur"@[2] != "o_str"@[2]); assert("o_hex"@[2] != "o_f32"@[2]); assert("o_hex"@[2] != "o_f64"@[2]); assert("o_hex"@[2] != "o_str"@[2]); assert("o_hex"@[2] != "o_dur"@[2]);  
        
        
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == OtherNullMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("o_f32"@)); assert(m.stepped("o_f32"@, seq![], i) == OtherNullMapping { o_f32: Some(i), ..m }); }
        else if k == 2 { assert(Self::leaves()[2] == own("o_f64"@)); assert(m.stepped("o_f64"@, seq![], i) == OtherNullMapping { o_f64: Some(i), ..m }); }
        else if k == 3 { assert(Self::leaves()[3] == own("o_bool"@)); assert(m.stepped("o_bool"@, seq![], i) == OtherNullMapping { o_bool: Some(i), ..m }); }
        else if k == 4 { assert(Self::leaves()[4] == own("o_str"@)); assert(m.stepped("o_str"@, seq![], i) == OtherNullMapping { o_str: Some(i), ..m }); }
        else if k == 5 { assert(Self::leaves()[5] == own("o_bytes"@)); assert(m.stepped("o_bytes"@, seq![], i) == OtherNullMapping { o_bytes: Some(i), ..m }); }
        else if k == 6 { assert(Self::leaves()[6] == own("o_date"@)); assert(m.stepped("o_date"@, seq![], i) == OtherNullMapping { o_date: Some(i), ..m }); }
        else if k == 7 { assert(Self::leaves()[7] == own("o_datetime"@)); assert(m.stepped("o_datetime"@, seq![], i) == OtherNullMapping { o_datetime: Some(i), ..m }); }
        else if k == 8 { assert(Self::leaves()[8] == own("o_dur"@)); assert(m.stepped("o_dur"@, seq![], i) == OtherNullMapping { o_dur: Some(i), ..m }); }
        else if k == 9 { assert(Self::leaves()[9] == own("o_hex"@)); assert(m.stepped("o_hex"@, seq![], i) == OtherNullMapping { o_hex: Some(i), ..m }); }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn othernull_filled(m: OtherNullMapping, row: Seq<Value>, v: OtherNull) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u64, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.o_f32 is Some && call_ensures(Value::vx_into_opt_f32, (row[m.o_f32->Some_0 as int],), Ok(v.o_f32))
    &&& m.o_f64 is Some && call_ensures(Value::vx_into_opt_f64, (row[m.o_f64->Some_0 as int],), Ok(v.o_f64))
    &&& m.o_bool is Some && call_ensures(Value::vx_into_opt_bool, (row[m.o_bool->Some_0 as int],), Ok(v.o_bool))
    &&& m.o_str is Some && call_ensures(Value::vx_into_opt_string, (row[m.o_str->Some_0 as int],), Ok(v.o_str))
    &&& m.o_bytes is Some && call_ensures(Value::vx_into_opt_bytes, (row[m.o_bytes->Some_0 as int],), Ok(v.o_bytes))
    &&& m.o_date is Some && call_ensures(Value::vx_into_opt_date, (row[m.o_date->Some_0 as int],), Ok(v.o_date))
    &&& m.o_datetime is Some && call_ensures(Value::vx_into_opt_datetime, (row[m.o_datetime->Some_0 as int],), Ok(v.o_datetime))
    &&& m.o_dur is Some && call_ensures(Value::vx_into_opt_duration, (row[m.o_dur->Some_0 as int],), Ok(v.o_dur))
    &&& m.o_hex is Some && call_ensures(Value::vx_into_hex_opt, (row[m.o_hex->Some_0 as int],), Ok(v.o_hex))
}
/// One of the values is not one of its field.
pub open spec fn othernull_unread(m: OtherNullMapping, row: Seq<Value>) -> bool {
    ||| no_u64(row[m.id->Some_0 as int])
    ||| no_opt_f32(row[m.o_f32->Some_0 as int])
    ||| no_opt_f64(row[m.o_f64->Some_0 as int])
    ||| no_opt_bool(row[m.o_bool->Some_0 as int])
    ||| no_opt_string(row[m.o_str->Some_0 as int])
    ||| no_opt_bytes(row[m.o_bytes->Some_0 as int])
    ||| no_opt_date(row[m.o_date->Some_0 as int])
    ||| no_opt_datetime(row[m.o_datetime->Some_0 as int])
    ||| no_opt_duration(row[m.o_dur->Some_0 as int])
    ||| no_hex_opt(row[m.o_hex->Some_0 as int])
}
pub open spec fn othernull_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 10
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "o_f32"@
    &&& c[2] is Column && c[2]->Column_0@ == "o_f64"@
    &&& c[3] is Column && c[3]->Column_0@ == "o_bool"@
    &&& c[4] is Column && c[4]->Column_0@ == "o_str"@
    &&& c[5] is Column && c[5]->Column_0@ == "o_bytes"@
    &&& c[6] is Column && c[6]->Column_0@ == "o_date"@
    &&& c[7] is Column && c[7]->Column_0@ == "o_datetime"@
    &&& c[8] is Column && c[8]->Column_0@ == "o_dur"@
    &&& c[9] is Column && c[9]->Column_0@ == "o_hex"@
}
%fn <OtherNull as ModelData>::TABLE as othernull_table
    ensures r@ == OtherNullMapping::table()
%fn <OtherNull as ModelData>::TABLE_WITH_POINT as othernull_table_dot
    ensures r@ == dotted(OtherNullMapping::table())
%at tail
    proof { reveal_strlit("other_null"); reveal_strlit("other_null."); assert("other_null."@ =~= dotted("other_null"@)); }
%fn <OtherNull as Model>::PRIMARY as othernull_primary
    ensures r@ == "id"@
%fn <OtherNull as IntoQuery>::COLUMNS as othernull_columns_
    ensures othernull_columns(r@)
%fn <OtherNullMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw ::core::default::Default::default() => None
%fn <OtherNullMapping as FromQueryResultMapping<OtherNull>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%attr #[verifier::spinoff_prover]
%fn <OtherNull as FromQueryResult>::from_mapping_and_row as vx_othernull
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && othernull_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || othernull_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%at entry
    proof {
        OtherNullMapping::sized(); 
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.o_f32);
        assert(mapping.got(2) == mapping.o_f64);
        assert(mapping.got(3) == mapping.o_bool);
        assert(mapping.got(4) == mapping.o_str);
        assert(mapping.got(5) == mapping.o_bytes);
        assert(mapping.got(6) == mapping.o_date);
        assert(mapping.got(7) == mapping.o_datetime);
        assert(mapping.got(8) == mapping.o_dur);
        assert(mapping.got(9) == mapping.o_hex);
    }
%type Placed
%type PlacedMapping
%raw
impl VxMaps for PlacedMapping {
    open spec fn table() -> Seq<char> { "placed"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("title"@), own("heading"@), own("kind"@), own("pos_x"@), own("pos_lat"@), own("pos_z"@), own("home_north"@), own("home_east"@), own("pos__x"@), own("pos__lat"@), own("pos__z"@)] + below("area"@, WorldMapping::leaves()) }
    open spec fn size() -> nat { 16 }
    proof fn sized() { WorldMapping::sized(); }
    open spec fn fresh() -> Self { PlacedMapping { id: None, title: None, heading: None, kind: None, pos_x: None, pos_lat: None, pos_z: None, home_north: None, home_east: None, pos__x: None, pos__lat: None, pos__z: None, area: WorldMapping::fresh() } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if path == "area"@ { PlacedMapping { area: self.area.stepped(name, seq![], i), ..self } } else if dotted("area"@).is_prefix_of(path) { PlacedMapping { area: self.area.stepped(name, path.skip(5), i), ..self } }
        else if name == "id"@ { PlacedMapping { id: Some(i), ..self } } else if name == "title"@ { PlacedMapping { title: Some(i), ..self } } else if name == "heading"@ { PlacedMapping { heading: Some(i), ..self } } else if name == "kind"@ { PlacedMapping { kind: Some(i), ..self } } else if name == "pos_x"@ { PlacedMapping { pos_x: Some(i), ..self } } else if name == "pos_lat"@ { PlacedMapping { pos_lat: Some(i), ..self } } else if name == "pos_z"@ { PlacedMapping { pos_z: Some(i), ..self } } else if name == "home_north"@ { PlacedMapping { home_north: Some(i), ..self } } else if name == "home_east"@ { PlacedMapping { home_east: Some(i), ..self } } else if name == "pos__x"@ { PlacedMapping { pos__x: Some(i), ..self } } else if name == "pos__lat"@ { PlacedMapping { pos__lat: Some(i), ..self } } else if name == "pos__z"@ { PlacedMapping { pos__z: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.title } else if k == 2 { self.heading } else if k == 3 { self.kind } else if k == 4 { self.pos_x } else if k == 5 { self.pos_lat } else if k == 6 { self.pos_z } else if k == 7 { self.home_north } else if k == 8 { self.home_east } else if k == 9 { self.pos__x } else if k == 10 { self.pos__lat } else if k == 11 { self.pos__z } else if 12 <= k < 16 { self.area.got(k - 12) } else { None }
    }
    proof fn none() {
        Self::sized(); WorldMapping::sized(); WorldMapping::none();
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("area"); assert("area"@.len() == 4); reveal_strlit("heading"); assert("heading"@.len() == 7); reveal_strlit("home_east"); assert("home_east"@.len() == 9); reveal_strlit("home_north"); assert("home_north"@.len() == 10); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("kind"); assert("kind"@.len() == 4); reveal_strlit("pos__lat"); assert("pos__lat"@.len() == 8); reveal_strlit("pos__x"); assert("pos__x"@.len() == 6); reveal_strlit("pos__z"); assert("pos__z"@.len() == 6); reveal_strlit("pos_lat"); assert("pos_lat"@.len() == 7); reveal_strlit("pos_x"); assert("pos_x"@.len() == 5); reveal_strlit("pos_z"); assert("pos_z"@.len() == 5); reveal_strlit("title"); assert("title"@.len() == 5); assert("pos_x"@[0] != "title"@[0]); assert("pos_lat"@[0] != "heading"@[0]); assert("pos_z"@[0] != "title"@[0]); assert("pos_z"@[4] != "pos_x"@[4]); assert("pos__z"@[5] != "pos__x"@[5]);  assert(no_dot("area"@));
        WorldMapping::sized();
        lemma_top("area"@);
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == PlacedMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("title"@)); assert(m.stepped("title"@, seq![], i) == PlacedMapping { title: Some(i), ..m }); }
        else if k == 2 { assert(Self::leaves()[2] == own("heading"@)); assert(m.stepped("heading"@, seq![], i) == PlacedMapping { heading: Some(i), ..m }); }
        else if k == 3 { assert(Self::leaves()[3] == own("kind"@)); assert(m.stepped("kind"@, seq![], i) == PlacedMapping { kind: Some(i), ..m }); }
        else if k == 4 { assert(Self::leaves()[4] == own("pos_x"@)); assert(m.stepped("pos_x"@, seq![], i) == PlacedMapping { pos_x: Some(i), ..m }); }
        else if k == 5 { assert(Self::leaves()[5] == own("pos_lat"@)); assert(m.stepped("pos_lat"@, seq![], i) == PlacedMapping { pos_lat: Some(i), ..m }); }
        else if k == 6 { assert(Self::leaves()[6] == own("pos_z"@)); assert(m.stepped("pos_z"@, seq![], i) == PlacedMapping { pos_z: Some(i), ..m }); }
        else if k == 7 { assert(Self::leaves()[7] == own("home_north"@)); assert(m.stepped("home_north"@, seq![], i) == PlacedMapping { home_north: Some(i), ..m }); }
        else if k == 8 { assert(Self::leaves()[8] == own("home_east"@)); assert(m.stepped("home_east"@, seq![], i) == PlacedMapping { home_east: Some(i), ..m }); }
        else if k == 9 { assert(Self::leaves()[9] == own("pos__x"@)); assert(m.stepped("pos__x"@, seq![], i) == PlacedMapping { pos__x: Some(i), ..m }); }
        else if k == 10 { assert(Self::leaves()[10] == own("pos__lat"@)); assert(m.stepped("pos__lat"@, seq![], i) == PlacedMapping { pos__lat: Some(i), ..m }); }
        else if k == 11 { assert(Self::leaves()[11] == own("pos__z"@)); assert(m.stepped("pos__z"@, seq![], i) == PlacedMapping { pos__z: Some(i), ..m }); }
        else if k < 16 {
            let l = WorldMapping::leaves()[k - 12];
            assert(Self::leaves()[k] == below("area"@, WorldMapping::leaves())[k - 12]);
            lemma_under("area"@, l.path);
            WorldMapping::one(m.area, k - 12, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == PlacedMapping { area: m.area.stepped(l.name, l.path, i), ..m });
        }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn placed_filled(m: PlacedMapping, row: Seq<Value>, v: Placed) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_i64, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.title is Some && call_ensures(Value::vx_into_string, (row[m.title->Some_0 as int],), Ok(v.title))
    &&& m.heading is Some && call_ensures(Value::vx_into_f32, (row[m.heading->Some_0 as int],), Ok(v.heading))
    &&& m.kind is Some && call_ensures(Value::vx_into_i8, (row[m.kind->Some_0 as int],), Ok(v.kind))
    &&& m.pos_x is Some && call_ensures(Value::vx_into_f32, (row[m.pos_x->Some_0 as int],), Ok(v.pos.x))
    &&& m.pos_lat is Some && call_ensures(Value::vx_into_f64, (row[m.pos_lat->Some_0 as int],), Ok(v.pos.y))
    &&& m.pos_z is Some && call_ensures(Value::vx_into_i16, (row[m.pos_z->Some_0 as int],), Ok(v.pos.z))
    &&& m.home_north is Some && call_ensures(Value::vx_into_f64, (row[m.home_north->Some_0 as int],), Ok(v.home.lat))
    &&& m.home_east is Some && call_ensures(Value::vx_into_opt_f64, (row[m.home_east->Some_0 as int],), Ok(v.home.lon))
    &&& m.pos__x is Some && call_ensures(Value::vx_into_f32, (row[m.pos__x->Some_0 as int],), Ok(v.pos_.x))
    &&& m.pos__lat is Some && call_ensures(Value::vx_into_f64, (row[m.pos__lat->Some_0 as int],), Ok(v.pos_.y))
    &&& m.pos__z is Some && call_ensures(Value::vx_into_i16, (row[m.pos__z->Some_0 as int],), Ok(v.pos_.z))
    &&& world_filled(m.area, row, v.area)
}
/// One of the values is not one of its field.
pub open spec fn placed_unread(m: PlacedMapping, row: Seq<Value>) -> bool {
    ||| no_i64(row[m.id->Some_0 as int])
    ||| no_string(row[m.title->Some_0 as int])
    ||| no_f32(row[m.heading->Some_0 as int])
    ||| no_i8(row[m.kind->Some_0 as int])
    ||| no_f32(row[m.pos_x->Some_0 as int])
    ||| no_f64(row[m.pos_lat->Some_0 as int])
    ||| no_i16(row[m.pos_z->Some_0 as int])
    ||| no_f64(row[m.home_north->Some_0 as int])
    ||| no_opt_f64(row[m.home_east->Some_0 as int])
    ||| no_f32(row[m.pos__x->Some_0 as int])
    ||| no_f64(row[m.pos__lat->Some_0 as int])
    ||| no_i16(row[m.pos__z->Some_0 as int])
    ||| world_unread(m.area, row)
}
pub open spec fn placed_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 13
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "title"@
    &&& c[2] is Column && c[2]->Column_0@ == "heading"@
    &&& c[3] is Column && c[3]->Column_0@ == "kind"@
    &&& c[4] is Column && c[4]->Column_0@ == "pos_x"@
    &&& c[5] is Column && c[5]->Column_0@ == "pos_lat"@
    &&& c[6] is Column && c[6]->Column_0@ == "pos_z"@
    &&& c[7] is Column && c[7]->Column_0@ == "home_north"@
    &&& c[8] is Column && c[8]->Column_0@ == "home_east"@
    &&& c[9] is Column && c[9]->Column_0@ == "pos__x"@
    &&& c[10] is Column && c[10]->Column_0@ == "pos__lat"@
    &&& c[11] is Column && c[11]->Column_0@ == "pos__z"@
    &&& c[12] is Reference && c[12]->Reference_0.column@ == "area"@ && c[12]->Reference_0.table@ == "world"@ && c[12]->Reference_0.key@ == "id"@ && world_columns(c[12]->Reference_0.columns@)
}
%fn <Placed as ModelData>::TABLE as placed_table
    ensures r@ == PlacedMapping::table()
%fn <Placed as ModelData>::TABLE_WITH_POINT as placed_table_dot
    ensures r@ == dotted(PlacedMapping::table())
%at tail
    proof { reveal_strlit("placed"); reveal_strlit("placed."); assert("placed."@ =~= dotted("placed"@)); }
%fn <Placed as Model>::PRIMARY as placed_primary
    ensures r@ == "id"@
%fn <Placed as IntoQuery>::COLUMNS as placed_columns_
    ensures placed_columns(r@)
%rw <World as mysql_connector::model::ModelData> ::TABLE => world_table()
%rw <World as mysql_connector::model::Model> ::PRIMARY => world_primary()
%rw <World as mysql_connector::model::IntoQuery> ::COLUMNS => world_columns_()
%fn <PlacedMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw area: ::core::default::Default::default() => area: WorldMapping::vx_fresh()
%rw ::core::default::Default::default() => None
%fn <PlacedMapping as FromQueryResultMapping<Placed>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%rw table.starts_with("area.") => vx_starts_with(table, "area.")
%rw &table[5usize..] => vx_str_after(table, 5usize, Ghost(5))
%rw self.area.set_mapping_inner => self.area.vx_set
%attr #[verifier::spinoff_prover]
%at entry
    proof {
        reveal_strlit("");  assert(""@ =~= seq![]);
        reveal_strlit("area"); reveal_strlit("area."); assert("area."@ =~= dotted("area"@)); vstd::utf8::is_ascii_chars_encode_utf8("area."@);
        if dotted("area"@).is_prefix_of(table@) { assert(table@.take(5) =~= "area."@); assert(bytes_of(table@.take(5)) == 5); }
    }
%fn <Placed as FromQueryResult>::from_mapping_and_row as vx_placed
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && placed_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || placed_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%rw <World> ::from_mapping_and_row => World::vx_world
%at entry
    proof {
        PlacedMapping::sized(); WorldMapping::sized();
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.title);
        assert(mapping.got(2) == mapping.heading);
        assert(mapping.got(3) == mapping.kind);
        assert(mapping.got(4) == mapping.pos_x);
        assert(mapping.got(5) == mapping.pos_lat);
        assert(mapping.got(6) == mapping.pos_z);
        assert(mapping.got(7) == mapping.home_north);
        assert(mapping.got(8) == mapping.home_east);
        assert(mapping.got(9) == mapping.pos__x);
        assert(mapping.got(10) == mapping.pos__lat);
        assert(mapping.got(11) == mapping.pos__z);
        assert(mapping.got(12) == mapping.area.id);
        assert(mapping.got(13) == mapping.area.name);
        assert(mapping.got(14) == mapping.area.level);
        assert(mapping.got(15) == mapping.area.played);
        assert forall|k: int| 0 <= k < 4 implies #[trigger] mapping.area.got(k) == mapping.got(12 + k) by { }
        assert(usable(mapping.area, row@.len())) by {
            assert forall|k: int| 0 <= k < 4 && (#[trigger] mapping.area.got(k)) is Some implies mapping.area.got(k)->Some_0 < row@.len() by { assert(mapping.got(12 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 4 && (#[trigger] mapping.area.got(j)) is Some implies mapping.area.got(j) != #[trigger] mapping.area.got(k) by { assert(mapping.got(12 + j) is Some); assert(mapping.got(12 + k) != mapping.got(12 + j)); }
        }
        assert forall|i: int| meant(mapping.area, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 4 && (#[trigger] mapping.area.got(k)) is Some && mapping.area.got(k)->Some_0 == i; assert(mapping.got(12 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 4 implies (#[trigger] mapping.area.got(k)) is Some by { assert(mapping.got(12 + k) is Some); } }
    }
%type Prefix
%type PrefixMapping
%raw
impl VxMaps for PrefixMapping {
    open spec fn table() -> Seq<char> { "pre"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("key"@), own("name"@)] + below("map"@, LeafMapping::leaves()) + below("ma"@, WorldMapping::leaves()) + below("map2"@, WorldMapping::leaves()) + below("m"@, LeafMapping::leaves()) }
    open spec fn size() -> nat { 14 }
    proof fn sized() { LeafMapping::sized(); WorldMapping::sized(); WorldMapping::sized(); LeafMapping::sized(); }
    open spec fn fresh() -> Self { PrefixMapping { key: None, name: None, map: LeafMapping::fresh(), ma: WorldMapping::fresh(), map2: WorldMapping::fresh(), m: LeafMapping::fresh() } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if path == "map"@ { PrefixMapping { map: self.map.stepped(name, seq![], i), ..self } } else if dotted("map"@).is_prefix_of(path) { PrefixMapping { map: self.map.stepped(name, path.skip(4), i), ..self } }
        else if path == "ma"@ { PrefixMapping { ma: self.ma.stepped(name, seq![], i), ..self } } else if dotted("ma"@).is_prefix_of(path) { PrefixMapping { ma: self.ma.stepped(name, path.skip(3), i), ..self } }
        else if path == "map2"@ { PrefixMapping { map2: self.map2.stepped(name, seq![], i), ..self } } else if dotted("map2"@).is_prefix_of(path) { PrefixMapping { map2: self.map2.stepped(name, path.skip(5), i), ..self } }
        else if path == "m"@ { PrefixMapping { m: self.m.stepped(name, seq![], i), ..self } } else if dotted("m"@).is_prefix_of(path) { PrefixMapping { m: self.m.stepped(name, path.skip(2), i), ..self } }
        else if name == "key"@ { PrefixMapping { key: Some(i), ..self } } else if name == "name"@ { PrefixMapping { name: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.key } else if k == 1 { self.name } else if 2 <= k < 4 { self.map.got(k - 2) } else if 4 <= k < 8 { self.ma.got(k - 4) } else if 8 <= k < 12 { self.map2.got(k - 8) } else if 12 <= k < 14 { self.m.got(k - 12) } else { None }
    }
    proof fn none() {
        Self::sized(); LeafMapping::sized(); LeafMapping::none(); WorldMapping::sized(); WorldMapping::none(); WorldMapping::sized(); WorldMapping::none(); LeafMapping::sized(); LeafMapping::none();
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("key"); assert("key"@.len() == 3); reveal_strlit("m"); assert("m"@.len() == 1); reveal_strlit("ma"); assert("ma"@.len() == 2); reveal_strlit("map"); assert("map"@.len() == 3); reveal_strlit("map2"); assert("map2"@.len() == 4); reveal_strlit("name"); assert("name"@.len() == 4);   assert(no_dot("map"@)); assert(no_dot("ma"@)); assert(no_dot("map2"@)); assert(no_dot("m"@));
        LeafMapping::sized(); WorldMapping::sized(); WorldMapping::sized(); LeafMapping::sized();
        lemma_top("map"@); lemma_top("ma"@); lemma_top("map2"@); lemma_top("m"@);
        if k == 0 { assert(Self::leaves()[0] == own("key"@)); assert(m.stepped("key"@, seq![], i) == PrefixMapping { key: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("name"@)); assert(m.stepped("name"@, seq![], i) == PrefixMapping { name: Some(i), ..m }); }
        else if k < 4 {
            let l = LeafMapping::leaves()[k - 2];
            assert(Self::leaves()[k] == below("map"@, LeafMapping::leaves())[k - 2]);
            lemma_under("map"@, l.path);
            LeafMapping::one(m.map, k - 2, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == PrefixMapping { map: m.map.stepped(l.name, l.path, i), ..m });
        }
        else if k < 8 {
            let l = WorldMapping::leaves()[k - 4];
            assert(Self::leaves()[k] == below("ma"@, WorldMapping::leaves())[k - 4]);
            lemma_under("ma"@, l.path);
            assert("ma"@ != "map"@); lemma_other("ma"@, "map"@, l.path);
            WorldMapping::one(m.ma, k - 4, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == PrefixMapping { ma: m.ma.stepped(l.name, l.path, i), ..m });
        }
        else if k < 12 {
            let l = WorldMapping::leaves()[k - 8];
            assert(Self::leaves()[k] == below("map2"@, WorldMapping::leaves())[k - 8]);
            lemma_under("map2"@, l.path);
            assert("map2"@ != "map"@); lemma_other("map2"@, "map"@, l.path);
            assert("map2"@ != "ma"@); lemma_other("map2"@, "ma"@, l.path);
            WorldMapping::one(m.map2, k - 8, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == PrefixMapping { map2: m.map2.stepped(l.name, l.path, i), ..m });
        }
        else if k < 14 {
            let l = LeafMapping::leaves()[k - 12];
            assert(Self::leaves()[k] == below("m"@, LeafMapping::leaves())[k - 12]);
            lemma_under("m"@, l.path);
            assert("m"@ != "map"@); lemma_other("m"@, "map"@, l.path);
            assert("m"@ != "ma"@); lemma_other("m"@, "ma"@, l.path);
            assert("m"@ != "map2"@); lemma_other("m"@, "map2"@, l.path);
            LeafMapping::one(m.m, k - 12, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == PrefixMapping { m: m.m.stepped(l.name, l.path, i), ..m });
        }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn prefix_filled(m: PrefixMapping, row: Seq<Value>, v: Prefix) -> bool {
    &&& m.key is Some && call_ensures(Value::vx_into_u16, (row[m.key->Some_0 as int],), Ok(v.key))
    &&& m.name is Some && call_ensures(Value::vx_into_opt_string, (row[m.name->Some_0 as int],), Ok(v.name))
    &&& leaf_filled(m.map, row, v.map)
    &&& world_filled(m.ma, row, v.ma)
    &&& world_filled(m.map2, row, v.map2)
    &&& leaf_filled(m.m, row, v.m)
}
/// One of the values is not one of its field.
pub open spec fn prefix_unread(m: PrefixMapping, row: Seq<Value>) -> bool {
    ||| no_u16(row[m.key->Some_0 as int])
    ||| no_opt_string(row[m.name->Some_0 as int])
    ||| leaf_unread(m.map, row)
    ||| world_unread(m.ma, row)
    ||| world_unread(m.map2, row)
    ||| leaf_unread(m.m, row)
}
pub open spec fn prefix_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 6
    &&& c[0] is Column && c[0]->Column_0@ == "key"@
    &&& c[1] is Column && c[1]->Column_0@ == "name"@
    &&& c[2] is Reference && c[2]->Reference_0.column@ == "map"@ && c[2]->Reference_0.table@ == "leaf"@ && c[2]->Reference_0.key@ == "id"@ && leaf_columns(c[2]->Reference_0.columns@)
    &&& c[3] is Reference && c[3]->Reference_0.column@ == "ma"@ && c[3]->Reference_0.table@ == "world"@ && c[3]->Reference_0.key@ == "id"@ && world_columns(c[3]->Reference_0.columns@)
    &&& c[4] is Reference && c[4]->Reference_0.column@ == "map2"@ && c[4]->Reference_0.table@ == "world"@ && c[4]->Reference_0.key@ == "id"@ && world_columns(c[4]->Reference_0.columns@)
    &&& c[5] is Reference && c[5]->Reference_0.column@ == "m"@ && c[5]->Reference_0.table@ == "leaf"@ && c[5]->Reference_0.key@ == "id"@ && leaf_columns(c[5]->Reference_0.columns@)
}
%fn <Prefix as ModelData>::TABLE as prefix_table
    ensures r@ == PrefixMapping::table()
%fn <Prefix as ModelData>::TABLE_WITH_POINT as prefix_table_dot
    ensures r@ == dotted(PrefixMapping::table())
%at tail
    proof { reveal_strlit("pre"); reveal_strlit("pre."); assert("pre."@ =~= dotted("pre"@)); }
%fn <Prefix as Model>::PRIMARY as prefix_primary
    ensures r@ == "key"@
%fn <Prefix as IntoQuery>::COLUMNS as prefix_columns_
    ensures prefix_columns(r@)
%rw <Leaf as mysql_connector::model::ModelData> ::TABLE => leaf_table()
%rw <Leaf as mysql_connector::model::Model> ::PRIMARY => leaf_primary()
%rw <Leaf as mysql_connector::model::IntoQuery> ::COLUMNS => leaf_columns_()
%rw <World as mysql_connector::model::ModelData> ::TABLE => world_table()
%rw <World as mysql_connector::model::Model> ::PRIMARY => world_primary()
%rw <World as mysql_connector::model::IntoQuery> ::COLUMNS => world_columns_()
%fn <PrefixMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw map: ::core::default::Default::default() => map: LeafMapping::vx_fresh()
%rw ma: ::core::default::Default::default() => ma: WorldMapping::vx_fresh()
%rw map2: ::core::default::Default::default() => map2: WorldMapping::vx_fresh()
%rw m: ::core::default::Default::default() => m: LeafMapping::vx_fresh()
%rw ::core::default::Default::default() => None
%fn <PrefixMapping as FromQueryResultMapping<Prefix>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%rw table.starts_with("map.") => vx_starts_with(table, "map.")
%rw table.starts_with("ma.") => vx_starts_with(table, "ma.")
%rw table.starts_with("map2.") => vx_starts_with(table, "map2.")
%rw table.starts_with("m.") => vx_starts_with(table, "m.")
%rw &table[2usize..] => vx_str_after(table, 2usize, Ghost(2))
%rw &table[3usize..] => vx_str_after(table, 3usize, Ghost(3))
%rw &table[4usize..] => vx_str_after(table, 4usize, Ghost(4))
%rw &table[5usize..] => vx_str_after(table, 5usize, Ghost(5))
%rw self.map.set_mapping_inner => self.map.vx_set
%rw self.ma.set_mapping_inner => self.ma.vx_set
%rw self.map2.set_mapping_inner => self.map2.vx_set
%rw self.m.set_mapping_inner => self.m.vx_set
%attr #[verifier::spinoff_prover]
%at entry
    proof {
        reveal_strlit("");  assert(""@ =~= seq![]);
        reveal_strlit("map"); reveal_strlit("map."); assert("map."@ =~= dotted("map"@)); vstd::utf8::is_ascii_chars_encode_utf8("map."@);
        if dotted("map"@).is_prefix_of(table@) { assert(table@.take(4) =~= "map."@); assert(bytes_of(table@.take(4)) == 4); }
        reveal_strlit("ma"); reveal_strlit("ma."); assert("ma."@ =~= dotted("ma"@)); vstd::utf8::is_ascii_chars_encode_utf8("ma."@);
        if dotted("ma"@).is_prefix_of(table@) { assert(table@.take(3) =~= "ma."@); assert(bytes_of(table@.take(3)) == 3); }
        reveal_strlit("map2"); reveal_strlit("map2."); assert("map2."@ =~= dotted("map2"@)); vstd::utf8::is_ascii_chars_encode_utf8("map2."@);
        if dotted("map2"@).is_prefix_of(table@) { assert(table@.take(5) =~= "map2."@); assert(bytes_of(table@.take(5)) == 5); }
        reveal_strlit("m"); reveal_strlit("m."); assert("m."@ =~= dotted("m"@)); vstd::utf8::is_ascii_chars_encode_utf8("m."@);
        if dotted("m"@).is_prefix_of(table@) { assert(table@.take(2) =~= "m."@); assert(bytes_of(table@.take(2)) == 2); }
    }
%fn <Prefix as FromQueryResult>::from_mapping_and_row as vx_prefix
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && prefix_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || prefix_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%rw <Leaf> ::from_mapping_and_row => Leaf::vx_leaf
%rw <World> ::from_mapping_and_row => World::vx_world
%at entry
    proof {
        PrefixMapping::sized(); LeafMapping::sized(); WorldMapping::sized(); WorldMapping::sized(); LeafMapping::sized();
        assert(mapping.got(0) == mapping.key);
        assert(mapping.got(1) == mapping.name);
        assert(mapping.got(2) == mapping.map.id);
        assert(mapping.got(3) == mapping.map.name);
        assert(mapping.got(4) == mapping.ma.id);
        assert(mapping.got(5) == mapping.ma.name);
        assert(mapping.got(6) == mapping.ma.level);
        assert(mapping.got(7) == mapping.ma.played);
        assert(mapping.got(8) == mapping.map2.id);
        assert(mapping.got(9) == mapping.map2.name);
        assert(mapping.got(10) == mapping.map2.level);
        assert(mapping.got(11) == mapping.map2.played);
        assert(mapping.got(12) == mapping.m.id);
        assert(mapping.got(13) == mapping.m.name);
        assert forall|k: int| 0 <= k < 2 implies #[trigger] mapping.map.got(k) == mapping.got(2 + k) by { }
        assert(usable(mapping.map, row@.len())) by {
            assert forall|k: int| 0 <= k < 2 && (#[trigger] mapping.map.got(k)) is Some implies mapping.map.got(k)->Some_0 < row@.len() by { assert(mapping.got(2 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 2 && (#[trigger] mapping.map.got(j)) is Some implies mapping.map.got(j) != #[trigger] mapping.map.got(k) by { assert(mapping.got(2 + j) is Some); assert(mapping.got(2 + k) != mapping.got(2 + j)); }
        }
        assert forall|i: int| meant(mapping.map, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 2 && (#[trigger] mapping.map.got(k)) is Some && mapping.map.got(k)->Some_0 == i; assert(mapping.got(2 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 2 implies (#[trigger] mapping.map.got(k)) is Some by { assert(mapping.got(2 + k) is Some); } }
        assert forall|k: int| 0 <= k < 4 implies #[trigger] mapping.ma.got(k) == mapping.got(4 + k) by { }
        assert(usable(mapping.ma, row@.len())) by {
            assert forall|k: int| 0 <= k < 4 && (#[trigger] mapping.ma.got(k)) is Some implies mapping.ma.got(k)->Some_0 < row@.len() by { assert(mapping.got(4 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 4 && (#[trigger] mapping.ma.got(j)) is Some implies mapping.ma.got(j) != #[trigger] mapping.ma.got(k) by { assert(mapping.got(4 + j) is Some); assert(mapping.got(4 + k) != mapping.got(4 + j)); }
        }
        assert forall|i: int| meant(mapping.ma, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 4 && (#[trigger] mapping.ma.got(k)) is Some && mapping.ma.got(k)->Some_0 == i; assert(mapping.got(4 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 4 implies (#[trigger] mapping.ma.got(k)) is Some by { assert(mapping.got(4 + k) is Some); } }
        assert forall|k: int| 0 <= k < 4 implies #[trigger] mapping.map2.got(k) == mapping.got(8 + k) by { }
        assert(usable(mapping.map2, row@.len())) by {
            assert forall|k: int| 0 <= k < 4 && (#[trigger] mapping.map2.got(k)) is Some implies mapping.map2.got(k)->Some_0 < row@.len() by { assert(mapping.got(8 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 4 && (#[trigger] mapping.map2.got(j)) is Some implies mapping.map2.got(j) != #[trigger] mapping.map2.got(k) by { assert(mapping.got(8 + j) is Some); assert(mapping.got(8 + k) != mapping.got(8 + j)); }
        }
        assert forall|i: int| meant(mapping.map2, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 4 && (#[trigger] mapping.map2.got(k)) is Some && mapping.map2.got(k)->Some_0 == i; assert(mapping.got(8 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 4 implies (#[trigger] mapping.map2.got(k)) is Some by { assert(mapping.got(8 + k) is Some); } }
        assert forall|k: int| 0 <= k < 2 implies #[trigger] mapping.m.got(k) == mapping.got(12 + k) by { }
        assert(usable(mapping.m, row@.len())) by {
            assert forall|k: int| 0 <= k < 2 && (#[trigger] mapping.m.got(k)) is Some implies mapping.m.got(k)->Some_0 < row@.len() by { assert(mapping.got(12 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 2 && (#[trigger] mapping.m.got(j)) is Some implies mapping.m.got(j) != #[trigger] mapping.m.got(k) by { assert(mapping.got(12 + j) is Some); assert(mapping.got(12 + k) != mapping.got(12 + j)); }
        }
        assert forall|i: int| meant(mapping.m, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 2 && (#[trigger] mapping.m.got(k)) is Some && mapping.m.got(k)->Some_0 == i; assert(mapping.got(12 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 2 implies (#[trigger] mapping.m.got(k)) is Some by { assert(mapping.got(12 + k) is Some); } }
    }
%type Two
%type TwoMapping
%raw
impl VxMaps for TwoMapping {
    open spec fn table() -> Seq<char> { "two"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("from_y"@), own("from_x"@), own("to_lat"@), own("to_lon"@), own("via_y"@), own("via_x"@)] }
    open spec fn size() -> nat { 7 }
    proof fn sized() {  }
    open spec fn fresh() -> Self { TwoMapping { id: None, from_y: None, from_x: None, to_lat: None, to_lon: None, via_y: None, via_x: None } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if name == "id"@ { TwoMapping { id: Some(i), ..self } } else if name == "from_y"@ { TwoMapping { from_y: Some(i), ..self } } else if name == "from_x"@ { TwoMapping { from_x: Some(i), ..self } } else if name == "to_lat"@ { TwoMapping { to_lat: Some(i), ..self } } else if name == "to_lon"@ { TwoMapping { to_lon: Some(i), ..self } } else if name == "via_y"@ { TwoMapping { via_y: Some(i), ..self } } else if name == "via_x"@ { TwoMapping { via_x: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.from_y } else if k == 2 { self.from_x } else if k == 3 { self.to_lat } else if k == 4 { self.to_lon } else if k == 5 { self.via_y } else if k == 6 { self.via_x } else { None }
    }
    proof fn none() {
        Self::sized(); 
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("from_x"); assert("from_x"@.len() == 6); reveal_strlit("from_y"); assert("from_y"@.len() == 6); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("to_lat"); assert("to_lat"@.len() == 6); reveal_strlit("to_lon"); assert("to_lon"@.len() == 6); reveal_strlit("via_x"); assert("via_x"@.len() == 5); reveal_strlit("via_y"); assert("via_y"@.len() == 5); assert("from_x"@[5] != "from_y"@[5]); assert("to_lat"@[0] != "from_y"@[0]); assert("to_lat"@[0] != "from_x"@[0]); assert("to_lon"@[0] != "from_y"@[0]); assert("to_lon"@[0] != "from_x"@[0]); assert("to_lon"@[4] != "to_lat"@[4]); assert("via_x"@[4] != "via_y"@[4]);  
        
        
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == TwoMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("from_y"@)); assert(m.stepped("from_y"@, seq![], i) == TwoMapping { from_y: Some(i), ..m }); }
        else if k == 2 { assert(Self::leaves()[2] == own("from_x"@)); assert(m.stepped("from_x"@, seq![], i) == TwoMapping { from_x: Some(i), ..m }); }
        else if k == 3 { assert(Self::leaves()[3] == own("to_lat"@)); assert(m.stepped("to_lat"@, seq![], i) == TwoMapping { to_lat: Some(i), ..m }); }
        else if k == 4 { assert(Self::leaves()[4] == own("to_lon"@)); assert(m.stepped("to_lon"@, seq![], i) == TwoMapping { to_lon: Some(i), ..m }); }
        else if k == 5 { assert(Self::leaves()[5] == own("via_y"@)); assert(m.stepped("via_y"@, seq![], i) == TwoMapping { via_y: Some(i), ..m }); }
        else if k == 6 { assert(Self::leaves()[6] == own("via_x"@)); assert(m.stepped("via_x"@, seq![], i) == TwoMapping { via_x: Some(i), ..m }); }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn two_filled(m: TwoMapping, row: Seq<Value>, v: Two) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u32, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.from_y is Some && call_ensures(Value::vx_into_f64, (row[m.from_y->Some_0 as int],), Ok(v.from.lat))
    &&& m.from_x is Some && call_ensures(Value::vx_into_opt_f64, (row[m.from_x->Some_0 as int],), Ok(v.from.lon))
    &&& m.to_lat is Some && call_ensures(Value::vx_into_f64, (row[m.to_lat->Some_0 as int],), Ok(v.to.lat))
    &&& m.to_lon is Some && call_ensures(Value::vx_into_opt_f64, (row[m.to_lon->Some_0 as int],), Ok(v.to.lon))
    &&& m.via_y is Some && call_ensures(Value::vx_into_f64, (row[m.via_y->Some_0 as int],), Ok(v.via.lat))
    &&& m.via_x is Some && call_ensures(Value::vx_into_opt_f64, (row[m.via_x->Some_0 as int],), Ok(v.via.lon))
}
/// One of the values is not one of its field.
pub open spec fn two_unread(m: TwoMapping, row: Seq<Value>) -> bool {
    ||| no_u32(row[m.id->Some_0 as int])
    ||| no_f64(row[m.from_y->Some_0 as int])
    ||| no_opt_f64(row[m.from_x->Some_0 as int])
    ||| no_f64(row[m.to_lat->Some_0 as int])
    ||| no_opt_f64(row[m.to_lon->Some_0 as int])
    ||| no_f64(row[m.via_y->Some_0 as int])
    ||| no_opt_f64(row[m.via_x->Some_0 as int])
}
pub open spec fn two_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 7
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "from_y"@
    &&& c[2] is Column && c[2]->Column_0@ == "from_x"@
    &&& c[3] is Column && c[3]->Column_0@ == "to_lat"@
    &&& c[4] is Column && c[4]->Column_0@ == "to_lon"@
    &&& c[5] is Column && c[5]->Column_0@ == "via_y"@
    &&& c[6] is Column && c[6]->Column_0@ == "via_x"@
}
%fn <Two as ModelData>::TABLE as two_table
    ensures r@ == TwoMapping::table()
%fn <Two as ModelData>::TABLE_WITH_POINT as two_table_dot
    ensures r@ == dotted(TwoMapping::table())
%at tail
    proof { reveal_strlit("two"); reveal_strlit("two."); assert("two."@ =~= dotted("two"@)); }
%fn <Two as Model>::PRIMARY as two_primary
    ensures r@ == "id"@
%fn <Two as IntoQuery>::COLUMNS as two_columns_
    ensures two_columns(r@)
%fn <TwoMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw ::core::default::Default::default() => None
%fn <TwoMapping as FromQueryResultMapping<Two>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%attr #[verifier::spinoff_prover]
%fn <Two as FromQueryResult>::from_mapping_and_row as vx_two
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && two_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || two_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%at entry
    proof {
        TwoMapping::sized(); 
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.from_y);
        assert(mapping.got(2) == mapping.from_x);
        assert(mapping.got(3) == mapping.to_lat);
        assert(mapping.got(4) == mapping.to_lon);
        assert(mapping.got(5) == mapping.via_y);
        assert(mapping.got(6) == mapping.via_x);
    }
%type DeepC
%type DeepCMapping
%raw
impl VxMaps for DeepCMapping {
    open spec fn table() -> Seq<char> { "deep_c"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("name"@)] }
    open spec fn size() -> nat { 2 }
    proof fn sized() {  }
    open spec fn fresh() -> Self { DeepCMapping { id: None, name: None } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if name == "id"@ { DeepCMapping { id: Some(i), ..self } } else if name == "name"@ { DeepCMapping { name: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.name } else { None }
    }
    proof fn none() {
        Self::sized(); 
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("name"); assert("name"@.len() == 4);   
        
        
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == DeepCMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("name"@)); assert(m.stepped("name"@, seq![], i) == DeepCMapping { name: Some(i), ..m }); }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn deepc_filled(m: DeepCMapping, row: Seq<Value>, v: DeepC) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u32, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.name is Some && call_ensures(Value::vx_into_string, (row[m.name->Some_0 as int],), Ok(v.name))
}
/// One of the values is not one of its field.
pub open spec fn deepc_unread(m: DeepCMapping, row: Seq<Value>) -> bool {
    ||| no_u32(row[m.id->Some_0 as int])
    ||| no_string(row[m.name->Some_0 as int])
}
pub open spec fn deepc_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 2
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "name"@
}
%fn <DeepC as ModelData>::TABLE as deepc_table
    ensures r@ == DeepCMapping::table()
%fn <DeepC as ModelData>::TABLE_WITH_POINT as deepc_table_dot
    ensures r@ == dotted(DeepCMapping::table())
%at tail
    proof { reveal_strlit("deep_c"); reveal_strlit("deep_c."); assert("deep_c."@ =~= dotted("deep_c"@)); }
%fn <DeepC as Model>::PRIMARY as deepc_primary
    ensures r@ == "id"@
%fn <DeepC as IntoQuery>::COLUMNS as deepc_columns_
    ensures deepc_columns(r@)
%fn <DeepCMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw ::core::default::Default::default() => None
%fn <DeepCMapping as FromQueryResultMapping<DeepC>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%attr #[verifier::spinoff_prover]
%fn <DeepC as FromQueryResult>::from_mapping_and_row as vx_deepc
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && deepc_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || deepc_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%at entry
    proof {
        DeepCMapping::sized(); 
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.name);
    }
%type DeepB
%type DeepBMapping
%raw
impl VxMaps for DeepBMapping {
    open spec fn table() -> Seq<char> { "deep_b"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("name"@), own("p_a"@), own("p_b"@)] + below("c"@, DeepCMapping::leaves()) }
    open spec fn size() -> nat { 6 }
    proof fn sized() { DeepCMapping::sized(); }
    open spec fn fresh() -> Self { DeepBMapping { id: None, name: None, p_a: None, p_b: None, c: DeepCMapping::fresh() } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if path == "c"@ { DeepBMapping { c: self.c.stepped(name, seq![], i), ..self } } else if dotted("c"@).is_prefix_of(path) { DeepBMapping { c: self.c.stepped(name, path.skip(2), i), ..self } }
        else if name == "id"@ { DeepBMapping { id: Some(i), ..self } } else if name == "name"@ { DeepBMapping { name: Some(i), ..self } } else if name == "p_a"@ { DeepBMapping { p_a: Some(i), ..self } } else if name == "p_b"@ { DeepBMapping { p_b: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.name } else if k == 2 { self.p_a } else if k == 3 { self.p_b } else if 4 <= k < 6 { self.c.got(k - 4) } else { None }
    }
    proof fn none() {
        Self::sized(); DeepCMapping::sized(); DeepCMapping::none();
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("c"); assert("c"@.len() == 1); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("name"); assert("name"@.len() == 4); reveal_strlit("p_a"); assert("p_a"@.len() == 3); reveal_strlit("p_b"); assert("p_b"@.len() == 3); assert("p_b"@[2] != "p_a"@[2]);  assert(no_dot("c"@));
        DeepCMapping::sized();
        lemma_top("c"@);
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == DeepBMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("name"@)); assert(m.stepped("name"@, seq![], i) == DeepBMapping { name: Some(i), ..m }); }
        else if k == 2 { assert(Self::leaves()[2] == own("p_a"@)); assert(m.stepped("p_a"@, seq![], i) == DeepBMapping { p_a: Some(i), ..m }); }
        else if k == 3 { assert(Self::leaves()[3] == own("p_b"@)); assert(m.stepped("p_b"@, seq![], i) == DeepBMapping { p_b: Some(i), ..m }); }
        else if k < 6 {
            let l = DeepCMapping::leaves()[k - 4];
            assert(Self::leaves()[k] == below("c"@, DeepCMapping::leaves())[k - 4]);
            lemma_under("c"@, l.path);
            DeepCMapping::one(m.c, k - 4, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == DeepBMapping { c: m.c.stepped(l.name, l.path, i), ..m });
        }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn deepb_filled(m: DeepBMapping, row: Seq<Value>, v: DeepB) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u32, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.name is Some && call_ensures(Value::vx_into_string, (row[m.name->Some_0 as int],), Ok(v.name))
    &&& m.p_a is Some && call_ensures(Value::vx_into_string, (row[m.p_a->Some_0 as int],), Ok(v.p.a))
    &&& m.p_b is Some && call_ensures(Value::vx_into_opt_u8, (row[m.p_b->Some_0 as int],), Ok(v.p.b))
    &&& deepc_filled(m.c, row, v.c)
}
/// One of the values is not one of its field.
pub open spec fn deepb_unread(m: DeepBMapping, row: Seq<Value>) -> bool {
    ||| no_u32(row[m.id->Some_0 as int])
    ||| no_string(row[m.name->Some_0 as int])
    ||| no_string(row[m.p_a->Some_0 as int])
    ||| no_opt_u8(row[m.p_b->Some_0 as int])
    ||| deepc_unread(m.c, row)
}
pub open spec fn deepb_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 5
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "name"@
    &&& c[2] is Column && c[2]->Column_0@ == "p_a"@
    &&& c[3] is Column && c[3]->Column_0@ == "p_b"@
    &&& c[4] is Reference && c[4]->Reference_0.column@ == "c"@ && c[4]->Reference_0.table@ == "deep_c"@ && c[4]->Reference_0.key@ == "id"@ && deepc_columns(c[4]->Reference_0.columns@)
}
%fn <DeepB as ModelData>::TABLE as deepb_table
    ensures r@ == DeepBMapping::table()
%fn <DeepB as ModelData>::TABLE_WITH_POINT as deepb_table_dot
    ensures r@ == dotted(DeepBMapping::table())
%at tail
    proof { reveal_strlit("deep_b"); reveal_strlit("deep_b."); assert("deep_b."@ =~= dotted("deep_b"@)); }
%fn <DeepB as Model>::PRIMARY as deepb_primary
    ensures r@ == "id"@
%fn <DeepB as IntoQuery>::COLUMNS as deepb_columns_
    ensures deepb_columns(r@)
%rw <DeepC as mysql_connector::model::ModelData> ::TABLE => deepc_table()
%rw <DeepC as mysql_connector::model::Model> ::PRIMARY => deepc_primary()
%rw <DeepC as mysql_connector::model::IntoQuery> ::COLUMNS => deepc_columns_()
%fn <DeepBMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw c: ::core::default::Default::default() => c: DeepCMapping::vx_fresh()
%rw ::core::default::Default::default() => None
%fn <DeepBMapping as FromQueryResultMapping<DeepB>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%rw table.starts_with("c.") => vx_starts_with(table, "c.")
%rw &table[2usize..] => vx_str_after(table, 2usize, Ghost(2))
%rw self.c.set_mapping_inner => self.c.vx_set
%attr #[verifier::spinoff_prover]
%at entry
    proof {
        reveal_strlit("");  assert(""@ =~= seq![]);
        reveal_strlit("c"); reveal_strlit("c."); assert("c."@ =~= dotted("c"@)); vstd::utf8::is_ascii_chars_encode_utf8("c."@);
        if dotted("c"@).is_prefix_of(table@) { assert(table@.take(2) =~= "c."@); assert(bytes_of(table@.take(2)) == 2); }
    }
%fn <DeepB as FromQueryResult>::from_mapping_and_row as vx_deepb
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && deepb_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || deepb_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%rw <DeepC> ::from_mapping_and_row => DeepC::vx_deepc
%at entry
    proof {
        DeepBMapping::sized(); DeepCMapping::sized();
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.name);
        assert(mapping.got(2) == mapping.p_a);
        assert(mapping.got(3) == mapping.p_b);
        assert(mapping.got(4) == mapping.c.id);
        assert(mapping.got(5) == mapping.c.name);
        assert forall|k: int| 0 <= k < 2 implies #[trigger] mapping.c.got(k) == mapping.got(4 + k) by { }
        assert(usable(mapping.c, row@.len())) by {
            assert forall|k: int| 0 <= k < 2 && (#[trigger] mapping.c.got(k)) is Some implies mapping.c.got(k)->Some_0 < row@.len() by { assert(mapping.got(4 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 2 && (#[trigger] mapping.c.got(j)) is Some implies mapping.c.got(j) != #[trigger] mapping.c.got(k) by { assert(mapping.got(4 + j) is Some); assert(mapping.got(4 + k) != mapping.got(4 + j)); }
        }
        assert forall|i: int| meant(mapping.c, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 2 && (#[trigger] mapping.c.got(k)) is Some && mapping.c.got(k)->Some_0 == i; assert(mapping.got(4 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 2 implies (#[trigger] mapping.c.got(k)) is Some by { assert(mapping.got(4 + k) is Some); } }
    }
%type DeepA
%type DeepAMapping
%raw
impl VxMaps for DeepAMapping {
    open spec fn table() -> Seq<char> { "deep_a"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("name"@)] + below("b"@, DeepBMapping::leaves()) }
    open spec fn size() -> nat { 8 }
    proof fn sized() { DeepBMapping::sized(); }
    open spec fn fresh() -> Self { DeepAMapping { id: None, name: None, b: DeepBMapping::fresh() } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if path == "b"@ { DeepAMapping { b: self.b.stepped(name, seq![], i), ..self } } else if dotted("b"@).is_prefix_of(path) { DeepAMapping { b: self.b.stepped(name, path.skip(2), i), ..self } }
        else if name == "id"@ { DeepAMapping { id: Some(i), ..self } } else if name == "name"@ { DeepAMapping { name: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.name } else if 2 <= k < 8 { self.b.got(k - 2) } else { None }
    }
    proof fn none() {
        Self::sized(); DeepBMapping::sized(); DeepBMapping::none();
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("b"); assert("b"@.len() == 1); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("name"); assert("name"@.len() == 4);   assert(no_dot("b"@));
        DeepBMapping::sized();
        lemma_top("b"@);
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == DeepAMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("name"@)); assert(m.stepped("name"@, seq![], i) == DeepAMapping { name: Some(i), ..m }); }
        else if k < 8 {
            let l = DeepBMapping::leaves()[k - 2];
            assert(Self::leaves()[k] == below("b"@, DeepBMapping::leaves())[k - 2]);
            lemma_under("b"@, l.path);
            DeepBMapping::one(m.b, k - 2, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == DeepAMapping { b: m.b.stepped(l.name, l.path, i), ..m });
        }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn deepa_filled(m: DeepAMapping, row: Seq<Value>, v: DeepA) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u32, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.name is Some && call_ensures(Value::vx_into_string, (row[m.name->Some_0 as int],), Ok(v.name))
    &&& deepb_filled(m.b, row, v.b)
}
/// One of the values is not one of its field.
pub open spec fn deepa_unread(m: DeepAMapping, row: Seq<Value>) -> bool {
    ||| no_u32(row[m.id->Some_0 as int])
    ||| no_string(row[m.name->Some_0 as int])
    ||| deepb_unread(m.b, row)
}
pub open spec fn deepa_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 3
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "name"@
    &&& c[2] is Reference && c[2]->Reference_0.column@ == "b"@ && c[2]->Reference_0.table@ == "deep_b"@ && c[2]->Reference_0.key@ == "id"@ && deepb_columns(c[2]->Reference_0.columns@)
}
%fn <DeepA as ModelData>::TABLE as deepa_table
    ensures r@ == DeepAMapping::table()
%fn <DeepA as ModelData>::TABLE_WITH_POINT as deepa_table_dot
    ensures r@ == dotted(DeepAMapping::table())
%at tail
    proof { reveal_strlit("deep_a"); reveal_strlit("deep_a."); assert("deep_a."@ =~= dotted("deep_a"@)); }
%fn <DeepA as Model>::PRIMARY as deepa_primary
    ensures r@ == "id"@
%fn <DeepA as IntoQuery>::COLUMNS as deepa_columns_
    ensures deepa_columns(r@)
%rw <DeepB as mysql_connector::model::ModelData> ::TABLE => deepb_table()
%rw <DeepB as mysql_connector::model::Model> ::PRIMARY => deepb_primary()
%rw <DeepB as mysql_connector::model::IntoQuery> ::COLUMNS => deepb_columns_()
%fn <DeepAMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw b: ::core::default::Default::default() => b: DeepBMapping::vx_fresh()
%rw ::core::default::Default::default() => None
%fn <DeepAMapping as FromQueryResultMapping<DeepA>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%rw table.starts_with("b.") => vx_starts_with(table, "b.")
%rw &table[2usize..] => vx_str_after(table, 2usize, Ghost(2))
%rw self.b.set_mapping_inner => self.b.vx_set
%attr #[verifier::spinoff_prover]
%at entry
    proof {
        reveal_strlit("");  assert(""@ =~= seq![]);
        reveal_strlit("b"); reveal_strlit("b."); assert("b."@ =~= dotted("b"@)); vstd::utf8::is_ascii_chars_encode_utf8("b."@);
        if dotted("b"@).is_prefix_of(table@) { assert(table@.take(2) =~= "b."@); assert(bytes_of(table@.take(2)) == 2); }
    }
%fn <DeepA as FromQueryResult>::from_mapping_and_row as vx_deepa
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && deepa_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || deepa_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%rw <DeepB> ::from_mapping_and_row => DeepB::vx_deepb
%at entry
    proof {
        DeepAMapping::sized(); DeepBMapping::sized();
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.name);
        assert(mapping.got(2) == mapping.b.id);
        assert(mapping.got(3) == mapping.b.name);
        assert(mapping.got(4) == mapping.b.p_a);
        assert(mapping.got(5) == mapping.b.p_b);
        assert(mapping.got(6) == mapping.b.c.id);
        assert(mapping.got(7) == mapping.b.c.name);
        assert forall|k: int| 0 <= k < 6 implies #[trigger] mapping.b.got(k) == mapping.got(2 + k) by { }
        assert(usable(mapping.b, row@.len())) by {
            assert forall|k: int| 0 <= k < 6 && (#[trigger] mapping.b.got(k)) is Some implies mapping.b.got(k)->Some_0 < row@.len() by { assert(mapping.got(2 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 6 && (#[trigger] mapping.b.got(j)) is Some implies mapping.b.got(j) != #[trigger] mapping.b.got(k) by { assert(mapping.got(2 + j) is Some); assert(mapping.got(2 + k) != mapping.got(2 + j)); }
        }
        assert forall|i: int| meant(mapping.b, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 6 && (#[trigger] mapping.b.got(k)) is Some && mapping.b.got(k)->Some_0 == i; assert(mapping.got(2 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 6 implies (#[trigger] mapping.b.got(k)) is Some by { assert(mapping.got(2 + k) is Some); } }
    }
%type Deep
%type DeepMapping
%raw
impl VxMaps for DeepMapping {
    open spec fn table() -> Seq<char> { "deep"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("name"@)] + below("a"@, DeepAMapping::leaves()) + below("b"@, DeepBMapping::leaves()) }
    open spec fn size() -> nat { 16 }
    proof fn sized() { DeepAMapping::sized(); DeepBMapping::sized(); }
    open spec fn fresh() -> Self { DeepMapping { id: None, name: None, a: DeepAMapping::fresh(), b: DeepBMapping::fresh() } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if path == "a"@ { DeepMapping { a: self.a.stepped(name, seq![], i), ..self } } else if dotted("a"@).is_prefix_of(path) { DeepMapping { a: self.a.stepped(name, path.skip(2), i), ..self } }
        else if path == "b"@ { DeepMapping { b: self.b.stepped(name, seq![], i), ..self } } else if dotted("b"@).is_prefix_of(path) { DeepMapping { b: self.b.stepped(name, path.skip(2), i), ..self } }
        else if name == "id"@ { DeepMapping { id: Some(i), ..self } } else if name == "name"@ { DeepMapping { name: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.name } else if 2 <= k < 10 { self.a.got(k - 2) } else if 10 <= k < 16 { self.b.got(k - 10) } else { None }
    }
    proof fn none() {
        Self::sized(); DeepAMapping::sized(); DeepAMapping::none(); DeepBMapping::sized(); DeepBMapping::none();
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("a"); assert("a"@.len() == 1); reveal_strlit("b"); assert("b"@.len() == 1); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("name"); assert("name"@.len() == 4);  assert("b"@[0] != "a"@[0]); assert(no_dot("a"@)); assert(no_dot("b"@));
        DeepAMapping::sized(); DeepBMapping::sized();
        lemma_top("a"@); lemma_top("b"@);
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == DeepMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("name"@)); assert(m.stepped("name"@, seq![], i) == DeepMapping { name: Some(i), ..m }); }
        else if k < 10 {
            let l = DeepAMapping::leaves()[k - 2];
            assert(Self::leaves()[k] == below("a"@, DeepAMapping::leaves())[k - 2]);
            lemma_under("a"@, l.path);
            DeepAMapping::one(m.a, k - 2, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == DeepMapping { a: m.a.stepped(l.name, l.path, i), ..m });
        }
        else if k < 16 {
            let l = DeepBMapping::leaves()[k - 10];
            assert(Self::leaves()[k] == below("b"@, DeepBMapping::leaves())[k - 10]);
            lemma_under("b"@, l.path);
            assert("b"@ != "a"@); lemma_other("b"@, "a"@, l.path);
            DeepBMapping::one(m.b, k - 10, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == DeepMapping { b: m.b.stepped(l.name, l.path, i), ..m });
        }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn deep_filled(m: DeepMapping, row: Seq<Value>, v: Deep) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u32, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.name is Some && call_ensures(Value::vx_into_string, (row[m.name->Some_0 as int],), Ok(v.name))
    &&& deepa_filled(m.a, row, v.a)
    &&& deepb_filled(m.b, row, v.b)
}
/// One of the values is not one of its field.
pub open spec fn deep_unread(m: DeepMapping, row: Seq<Value>) -> bool {
    ||| no_u32(row[m.id->Some_0 as int])
    ||| no_string(row[m.name->Some_0 as int])
    ||| deepa_unread(m.a, row)
    ||| deepb_unread(m.b, row)
}
pub open spec fn deep_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 4
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "name"@
    &&& c[2] is Reference && c[2]->Reference_0.column@ == "a"@ && c[2]->Reference_0.table@ == "deep_a"@ && c[2]->Reference_0.key@ == "id"@ && deepa_columns(c[2]->Reference_0.columns@)
    &&& c[3] is Reference && c[3]->Reference_0.column@ == "b"@ && c[3]->Reference_0.table@ == "deep_b"@ && c[3]->Reference_0.key@ == "id"@ && deepb_columns(c[3]->Reference_0.columns@)
}
%fn <Deep as ModelData>::TABLE as deep_table
    ensures r@ == DeepMapping::table()
%fn <Deep as ModelData>::TABLE_WITH_POINT as deep_table_dot
    ensures r@ == dotted(DeepMapping::table())
%at tail
    proof { reveal_strlit("deep"); reveal_strlit("deep."); assert("deep."@ =~= dotted("deep"@)); }
%fn <Deep as Model>::PRIMARY as deep_primary
    ensures r@ == "id"@
%fn <Deep as IntoQuery>::COLUMNS as deep_columns_
    ensures deep_columns(r@)
%rw <DeepA as mysql_connector::model::ModelData> ::TABLE => deepa_table()
%rw <DeepA as mysql_connector::model::Model> ::PRIMARY => deepa_primary()
%rw <DeepA as mysql_connector::model::IntoQuery> ::COLUMNS => deepa_columns_()
%rw <DeepB as mysql_connector::model::ModelData> ::TABLE => deepb_table()
%rw <DeepB as mysql_connector::model::Model> ::PRIMARY => deepb_primary()
%rw <DeepB as mysql_connector::model::IntoQuery> ::COLUMNS => deepb_columns_()
%fn <DeepMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw a: ::core::default::Default::default() => a: DeepAMapping::vx_fresh()
%rw b: ::core::default::Default::default() => b: DeepBMapping::vx_fresh()
%rw ::core::default::Default::default() => None
%fn <DeepMapping as FromQueryResultMapping<Deep>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%rw table.starts_with("a.") => vx_starts_with(table, "a.")
%rw table.starts_with("b.") => vx_starts_with(table, "b.")
%rw &table[2usize..] => vx_str_after(table, 2usize, Ghost(2))
%rw self.a.set_mapping_inner => self.a.vx_set
%rw self.b.set_mapping_inner => self.b.vx_set
%attr #[verifier::spinoff_prover]
%at entry
    proof {
        reveal_strlit("");  assert(""@ =~= seq![]);
        reveal_strlit("a"); reveal_strlit("a."); assert("a."@ =~= dotted("a"@)); vstd::utf8::is_ascii_chars_encode_utf8("a."@);
        if dotted("a"@).is_prefix_of(table@) { assert(table@.take(2) =~= "a."@); assert(bytes_of(table@.take(2)) == 2); }
        reveal_strlit("b"); reveal_strlit("b."); assert("b."@ =~= dotted("b"@)); vstd::utf8::is_ascii_chars_encode_utf8("b."@);
        if dotted("b"@).is_prefix_of(table@) { assert(table@.take(2) =~= "b."@); assert(bytes_of(table@.take(2)) == 2); }
    }
%fn <Deep as FromQueryResult>::from_mapping_and_row as vx_deep
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && deep_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || deep_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%rw <DeepA> ::from_mapping_and_row => DeepA::vx_deepa
%rw <DeepB> ::from_mapping_and_row => DeepB::vx_deepb
%at entry
    proof {
        DeepMapping::sized(); DeepAMapping::sized(); DeepBMapping::sized();
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.name);
        assert(mapping.got(2) == mapping.a.id);
        assert(mapping.got(3) == mapping.a.name);
        assert(mapping.got(4) == mapping.a.b.id);
        assert(mapping.got(5) == mapping.a.b.name);
        assert(mapping.got(6) == mapping.a.b.p_a);
        assert(mapping.got(7) == mapping.a.b.p_b);
        assert(mapping.got(8) == mapping.a.b.c.id);
        assert(mapping.got(9) == mapping.a.b.c.name);
        assert(mapping.got(10) == mapping.b.id);
        assert(mapping.got(11) == mapping.b.name);
        assert(mapping.got(12) == mapping.b.p_a);
        assert(mapping.got(13) == mapping.b.p_b);
        assert(mapping.got(14) == mapping.b.c.id);
        assert(mapping.got(15) == mapping.b.c.name);
        assert forall|k: int| 0 <= k < 8 implies #[trigger] mapping.a.got(k) == mapping.got(2 + k) by { }
        assert(usable(mapping.a, row@.len())) by {
            assert forall|k: int| 0 <= k < 8 && (#[trigger] mapping.a.got(k)) is Some implies mapping.a.got(k)->Some_0 < row@.len() by { assert(mapping.got(2 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 8 && (#[trigger] mapping.a.got(j)) is Some implies mapping.a.got(j) != #[trigger] mapping.a.got(k) by { assert(mapping.got(2 + j) is Some); assert(mapping.got(2 + k) != mapping.got(2 + j)); }
        }
        assert forall|i: int| meant(mapping.a, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 8 && (#[trigger] mapping.a.got(k)) is Some && mapping.a.got(k)->Some_0 == i; assert(mapping.got(2 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 8 implies (#[trigger] mapping.a.got(k)) is Some by { assert(mapping.got(2 + k) is Some); } }
        assert forall|k: int| 0 <= k < 6 implies #[trigger] mapping.b.got(k) == mapping.got(10 + k) by { }
        assert(usable(mapping.b, row@.len())) by {
            assert forall|k: int| 0 <= k < 6 && (#[trigger] mapping.b.got(k)) is Some implies mapping.b.got(k)->Some_0 < row@.len() by { assert(mapping.got(10 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 6 && (#[trigger] mapping.b.got(j)) is Some implies mapping.b.got(j) != #[trigger] mapping.b.got(k) by { assert(mapping.got(10 + j) is Some); assert(mapping.got(10 + k) != mapping.got(10 + j)); }
        }
        assert forall|i: int| meant(mapping.b, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 6 && (#[trigger] mapping.b.got(k)) is Some && mapping.b.got(k)->Some_0 == i; assert(mapping.got(10 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 6 implies (#[trigger] mapping.b.got(k)) is Some by { assert(mapping.got(10 + k) is Some); } }
    }
%type Kid
%type KidMapping
%raw
impl VxMaps for KidMapping {
    open spec fn table() -> Seq<char> { "kid"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("name"@)] + below("pet"@, LeafMapping::leaves()) }
    open spec fn size() -> nat { 4 }
    proof fn sized() { LeafMapping::sized(); }
    open spec fn fresh() -> Self { KidMapping { id: None, name: None, pet: LeafMapping::fresh() } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if path == "pet"@ { KidMapping { pet: self.pet.stepped(name, seq![], i), ..self } } else if dotted("pet"@).is_prefix_of(path) { KidMapping { pet: self.pet.stepped(name, path.skip(4), i), ..self } }
        else if name == "id"@ { KidMapping { id: Some(i), ..self } } else if name == "name"@ { KidMapping { name: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.name } else if 2 <= k < 4 { self.pet.got(k - 2) } else { None }
    }
    proof fn none() {
        Self::sized(); LeafMapping::sized(); LeafMapping::none();
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("name"); assert("name"@.len() == 4); reveal_strlit("pet"); assert("pet"@.len() == 3);   assert(no_dot("pet"@));
        LeafMapping::sized();
        lemma_top("pet"@);
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == KidMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("name"@)); assert(m.stepped("name"@, seq![], i) == KidMapping { name: Some(i), ..m }); }
        else if k < 4 {
            let l = LeafMapping::leaves()[k - 2];
            assert(Self::leaves()[k] == below("pet"@, LeafMapping::leaves())[k - 2]);
            lemma_under("pet"@, l.path);
            LeafMapping::one(m.pet, k - 2, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == KidMapping { pet: m.pet.stepped(l.name, l.path, i), ..m });
        }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn kid_filled(m: KidMapping, row: Seq<Value>, v: Kid) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u16, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.name is Some && call_ensures(Value::vx_into_string, (row[m.name->Some_0 as int],), Ok(v.name))
    &&& leaf_filled(m.pet, row, v.pet)
}
/// One of the values is not one of its field.
pub open spec fn kid_unread(m: KidMapping, row: Seq<Value>) -> bool {
    ||| no_u16(row[m.id->Some_0 as int])
    ||| no_string(row[m.name->Some_0 as int])
    ||| leaf_unread(m.pet, row)
}
pub open spec fn kid_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 3
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "name"@
    &&& c[2] is Reference && c[2]->Reference_0.column@ == "pet"@ && c[2]->Reference_0.table@ == "leaf"@ && c[2]->Reference_0.key@ == "id"@ && leaf_columns(c[2]->Reference_0.columns@)
}
%fn <Kid as ModelData>::TABLE as kid_table
    ensures r@ == KidMapping::table()
%fn <Kid as ModelData>::TABLE_WITH_POINT as kid_table_dot
    ensures r@ == dotted(KidMapping::table())
%at tail
    proof { reveal_strlit("kid"); reveal_strlit("kid."); assert("kid."@ =~= dotted("kid"@)); }
%fn <Kid as Model>::PRIMARY as kid_primary
    ensures r@ == "id"@
%fn <Kid as IntoQuery>::COLUMNS as kid_columns_
    ensures kid_columns(r@)
%rw <Leaf as mysql_connector::model::ModelData> ::TABLE => leaf_table()
%rw <Leaf as mysql_connector::model::Model> ::PRIMARY => leaf_primary()
%rw <Leaf as mysql_connector::model::IntoQuery> ::COLUMNS => leaf_columns_()
%fn <KidMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw pet: ::core::default::Default::default() => pet: LeafMapping::vx_fresh()
%rw ::core::default::Default::default() => None
%fn <KidMapping as FromQueryResultMapping<Kid>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%rw table.starts_with("pet.") => vx_starts_with(table, "pet.")
%rw &table[4usize..] => vx_str_after(table, 4usize, Ghost(4))
%rw self.pet.set_mapping_inner => self.pet.vx_set
%attr #[verifier::spinoff_prover]
%at entry
    proof {
        reveal_strlit("");  assert(""@ =~= seq![]);
        reveal_strlit("pet"); reveal_strlit("pet."); assert("pet."@ =~= dotted("pet"@)); vstd::utf8::is_ascii_chars_encode_utf8("pet."@);
        if dotted("pet"@).is_prefix_of(table@) { assert(table@.take(4) =~= "pet."@); assert(bytes_of(table@.take(4)) == 4); }
    }
%fn <Kid as FromQueryResult>::from_mapping_and_row as vx_kid
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && kid_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || kid_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%rw <Leaf> ::from_mapping_and_row => Leaf::vx_leaf
%at entry
    proof {
        KidMapping::sized(); LeafMapping::sized();
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.name);
        assert(mapping.got(2) == mapping.pet.id);
        assert(mapping.got(3) == mapping.pet.name);
        assert forall|k: int| 0 <= k < 2 implies #[trigger] mapping.pet.got(k) == mapping.got(2 + k) by { }
        assert(usable(mapping.pet, row@.len())) by {
            assert forall|k: int| 0 <= k < 2 && (#[trigger] mapping.pet.got(k)) is Some implies mapping.pet.got(k)->Some_0 < row@.len() by { assert(mapping.got(2 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 2 && (#[trigger] mapping.pet.got(j)) is Some implies mapping.pet.got(j) != #[trigger] mapping.pet.got(k) by { assert(mapping.got(2 + j) is Some); assert(mapping.got(2 + k) != mapping.got(2 + j)); }
        }
        assert forall|i: int| meant(mapping.pet, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 2 && (#[trigger] mapping.pet.got(k)) is Some && mapping.pet.got(k)->Some_0 == i; assert(mapping.got(2 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 2 implies (#[trigger] mapping.pet.got(k)) is Some by { assert(mapping.got(2 + k) is Some); } }
    }
%type Parent
%type ParentMapping
%raw
impl VxMaps for ParentMapping {
    open spec fn table() -> Seq<char> { "parent"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("name"@)] + below("parent"@, KidMapping::leaves()) }
    open spec fn size() -> nat { 6 }
    proof fn sized() { KidMapping::sized(); }
    open spec fn fresh() -> Self { ParentMapping { id: None, name: None, parent: KidMapping::fresh() } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if path == "parent"@ { ParentMapping { parent: self.parent.stepped(name, seq![], i), ..self } } else if dotted("parent"@).is_prefix_of(path) { ParentMapping { parent: self.parent.stepped(name, path.skip(7), i), ..self } }
        else if name == "id"@ { ParentMapping { id: Some(i), ..self } } else if name == "name"@ { ParentMapping { name: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.name } else if 2 <= k < 6 { self.parent.got(k - 2) } else { None }
    }
    proof fn none() {
        Self::sized(); KidMapping::sized(); KidMapping::none();
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("name"); assert("name"@.len() == 4); reveal_strlit("parent"); assert("parent"@.len() == 6);   assert(no_dot("parent"@));
        KidMapping::sized();
        lemma_top("parent"@);
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == ParentMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("name"@)); assert(m.stepped("name"@, seq![], i) == ParentMapping { name: Some(i), ..m }); }
        else if k < 6 {
            let l = KidMapping::leaves()[k - 2];
            assert(Self::leaves()[k] == below("parent"@, KidMapping::leaves())[k - 2]);
            lemma_under("parent"@, l.path);
            KidMapping::one(m.parent, k - 2, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == ParentMapping { parent: m.parent.stepped(l.name, l.path, i), ..m });
        }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn parent_filled(m: ParentMapping, row: Seq<Value>, v: Parent) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u32, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.name is Some && call_ensures(Value::vx_into_string, (row[m.name->Some_0 as int],), Ok(v.name))
    &&& kid_filled(m.parent, row, v.parent)
}
/// One of the values is not one of its field.
pub open spec fn parent_unread(m: ParentMapping, row: Seq<Value>) -> bool {
    ||| no_u32(row[m.id->Some_0 as int])
    ||| no_string(row[m.name->Some_0 as int])
    ||| kid_unread(m.parent, row)
}
pub open spec fn parent_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 3
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "name"@
    &&& c[2] is Reference && c[2]->Reference_0.column@ == "parent"@ && c[2]->Reference_0.table@ == "kid"@ && c[2]->Reference_0.key@ == "id"@ && kid_columns(c[2]->Reference_0.columns@)
}
%fn <Parent as ModelData>::TABLE as parent_table
    ensures r@ == ParentMapping::table()
%fn <Parent as ModelData>::TABLE_WITH_POINT as parent_table_dot
    ensures r@ == dotted(ParentMapping::table())
%at tail
    proof { reveal_strlit("parent"); reveal_strlit("parent."); assert("parent."@ =~= dotted("parent"@)); }
%fn <Parent as Model>::PRIMARY as parent_primary
    ensures r@ == "id"@
%fn <Parent as IntoQuery>::COLUMNS as parent_columns_
    ensures parent_columns(r@)
%rw <Kid as mysql_connector::model::ModelData> ::TABLE => kid_table()
%rw <Kid as mysql_connector::model::Model> ::PRIMARY => kid_primary()
%rw <Kid as mysql_connector::model::IntoQuery> ::COLUMNS => kid_columns_()
%fn <ParentMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw parent: ::core::default::Default::default() => parent: KidMapping::vx_fresh()
%rw ::core::default::Default::default() => None
%fn <ParentMapping as FromQueryResultMapping<Parent>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%rw table.starts_with("parent.") => vx_starts_with(table, "parent.")
%rw &table[7usize..] => vx_str_after(table, 7usize, Ghost(7))
%rw self.parent.set_mapping_inner => self.parent.vx_set
%attr #[verifier::spinoff_prover]
%at entry
    proof {
        reveal_strlit("");  assert(""@ =~= seq![]);
        reveal_strlit("parent"); reveal_strlit("parent."); assert("parent."@ =~= dotted("parent"@)); vstd::utf8::is_ascii_chars_encode_utf8("parent."@);
        if dotted("parent"@).is_prefix_of(table@) { assert(table@.take(7) =~= "parent."@); assert(bytes_of(table@.take(7)) == 7); }
    }
%fn <Parent as FromQueryResult>::from_mapping_and_row as vx_parent
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && parent_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || parent_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%rw <Kid> ::from_mapping_and_row => Kid::vx_kid
%at entry
    proof {
        ParentMapping::sized(); KidMapping::sized();
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.name);
        assert(mapping.got(2) == mapping.parent.id);
        assert(mapping.got(3) == mapping.parent.name);
        assert(mapping.got(4) == mapping.parent.pet.id);
        assert(mapping.got(5) == mapping.parent.pet.name);
        assert forall|k: int| 0 <= k < 4 implies #[trigger] mapping.parent.got(k) == mapping.got(2 + k) by { }
        assert(usable(mapping.parent, row@.len())) by {
            assert forall|k: int| 0 <= k < 4 && (#[trigger] mapping.parent.got(k)) is Some implies mapping.parent.got(k)->Some_0 < row@.len() by { assert(mapping.got(2 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 4 && (#[trigger] mapping.parent.got(j)) is Some implies mapping.parent.got(j) != #[trigger] mapping.parent.got(k) by { assert(mapping.got(2 + j) is Some); assert(mapping.got(2 + k) != mapping.got(2 + j)); }
        }
        assert forall|i: int| meant(mapping.parent, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 4 && (#[trigger] mapping.parent.got(k)) is Some && mapping.parent.got(k)->Some_0 == i; assert(mapping.got(2 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 4 implies (#[trigger] mapping.parent.got(k)) is Some by { assert(mapping.got(2 + k) is Some); } }
    }
%type Chain
%type ChainMapping
%raw
impl VxMaps for ChainMapping {
    open spec fn table() -> Seq<char> { "link"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@)] + below("link"@, KidMapping::leaves()) }
    open spec fn size() -> nat { 5 }
    proof fn sized() { KidMapping::sized(); }
    open spec fn fresh() -> Self { ChainMapping { id: None, link: KidMapping::fresh() } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if path == "link"@ { ChainMapping { link: self.link.stepped(name, seq![], i), ..self } } else if dotted("link"@).is_prefix_of(path) { ChainMapping { link: self.link.stepped(name, path.skip(5), i), ..self } }
        else if name == "id"@ { ChainMapping { id: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if 1 <= k < 5 { self.link.got(k - 1) } else { None }
    }
    proof fn none() {
        Self::sized(); KidMapping::sized(); KidMapping::none();
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("link"); assert("link"@.len() == 4);   assert(no_dot("link"@));
        KidMapping::sized();
        lemma_top("link"@);
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == ChainMapping { id: Some(i), ..m }); }
        else if k < 5 {
            let l = KidMapping::leaves()[k - 1];
            assert(Self::leaves()[k] == below("link"@, KidMapping::leaves())[k - 1]);
            lemma_under("link"@, l.path);
            KidMapping::one(m.link, k - 1, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == ChainMapping { link: m.link.stepped(l.name, l.path, i), ..m });
        }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn chain_filled(m: ChainMapping, row: Seq<Value>, v: Chain) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u32, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& kid_filled(m.link, row, v.link)
}
/// One of the values is not one of its field.
pub open spec fn chain_unread(m: ChainMapping, row: Seq<Value>) -> bool {
    ||| no_u32(row[m.id->Some_0 as int])
    ||| kid_unread(m.link, row)
}
pub open spec fn chain_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 2
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Reference && c[1]->Reference_0.column@ == "link"@ && c[1]->Reference_0.table@ == "kid"@ && c[1]->Reference_0.key@ == "id"@ && kid_columns(c[1]->Reference_0.columns@)
}
%fn <Chain as ModelData>::TABLE as chain_table
    ensures r@ == ChainMapping::table()
%fn <Chain as ModelData>::TABLE_WITH_POINT as chain_table_dot
    ensures r@ == dotted(ChainMapping::table())
%at tail
    proof { reveal_strlit("link"); reveal_strlit("link."); assert("link."@ =~= dotted("link"@)); }
%fn <Chain as Model>::PRIMARY as chain_primary
    ensures r@ == "id"@
%fn <Chain as IntoQuery>::COLUMNS as chain_columns_
    ensures chain_columns(r@)
%rw <Kid as mysql_connector::model::ModelData> ::TABLE => kid_table()
%rw <Kid as mysql_connector::model::Model> ::PRIMARY => kid_primary()
%rw <Kid as mysql_connector::model::IntoQuery> ::COLUMNS => kid_columns_()
%fn <ChainMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw link: ::core::default::Default::default() => link: KidMapping::vx_fresh()
%rw ::core::default::Default::default() => None
%fn <ChainMapping as FromQueryResultMapping<Chain>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%rw table.starts_with("link.") => vx_starts_with(table, "link.")
%rw &table[5usize..] => vx_str_after(table, 5usize, Ghost(5))
%rw self.link.set_mapping_inner => self.link.vx_set
%attr #[verifier::spinoff_prover]
%at entry
    proof {
        reveal_strlit("");  assert(""@ =~= seq![]);
        reveal_strlit("link"); reveal_strlit("link."); assert("link."@ =~= dotted("link"@)); vstd::utf8::is_ascii_chars_encode_utf8("link."@);
        if dotted("link"@).is_prefix_of(table@) { assert(table@.take(5) =~= "link."@); assert(bytes_of(table@.take(5)) == 5); }
    }
%fn <Chain as FromQueryResult>::from_mapping_and_row as vx_chain
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && chain_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || chain_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%rw <Kid> ::from_mapping_and_row => Kid::vx_kid
%at entry
    proof {
        ChainMapping::sized(); KidMapping::sized();
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.link.id);
        assert(mapping.got(2) == mapping.link.name);
        assert(mapping.got(3) == mapping.link.pet.id);
        assert(mapping.got(4) == mapping.link.pet.name);
        assert forall|k: int| 0 <= k < 4 implies #[trigger] mapping.link.got(k) == mapping.got(1 + k) by { }
        assert(usable(mapping.link, row@.len())) by {
            assert forall|k: int| 0 <= k < 4 && (#[trigger] mapping.link.got(k)) is Some implies mapping.link.got(k)->Some_0 < row@.len() by { assert(mapping.got(1 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 4 && (#[trigger] mapping.link.got(j)) is Some implies mapping.link.got(j) != #[trigger] mapping.link.got(k) by { assert(mapping.got(1 + j) is Some); assert(mapping.got(1 + k) != mapping.got(1 + j)); }
        }
        assert forall|i: int| meant(mapping.link, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 4 && (#[trigger] mapping.link.got(k)) is Some && mapping.link.got(k)->Some_0 == i; assert(mapping.got(1 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 4 implies (#[trigger] mapping.link.got(k)) is Some by { assert(mapping.got(1 + k) is Some); } }
    }
%type Chained
%type ChainedMapping
%raw
impl VxMaps for ChainedMapping {
    open spec fn table() -> Seq<char> { "chained"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@)] + below("chain"@, ChainMapping::leaves()) + below("link"@, LeafMapping::leaves()) }
    open spec fn size() -> nat { 8 }
    proof fn sized() { ChainMapping::sized(); LeafMapping::sized(); }
    open spec fn fresh() -> Self { ChainedMapping { id: None, chain: ChainMapping::fresh(), link: LeafMapping::fresh() } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if path == "chain"@ { ChainedMapping { chain: self.chain.stepped(name, seq![], i), ..self } } else if dotted("chain"@).is_prefix_of(path) { ChainedMapping { chain: self.chain.stepped(name, path.skip(6), i), ..self } }
        else if path == "link"@ { ChainedMapping { link: self.link.stepped(name, seq![], i), ..self } } else if dotted("link"@).is_prefix_of(path) { ChainedMapping { link: self.link.stepped(name, path.skip(5), i), ..self } }
        else if name == "id"@ { ChainedMapping { id: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if 1 <= k < 6 { self.chain.got(k - 1) } else if 6 <= k < 8 { self.link.got(k - 6) } else { None }
    }
    proof fn none() {
        Self::sized(); ChainMapping::sized(); ChainMapping::none(); LeafMapping::sized(); LeafMapping::none();
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("chain"); assert("chain"@.len() == 5); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("link"); assert("link"@.len() == 4);   assert(no_dot("chain"@)); assert(no_dot("link"@));
        ChainMapping::sized(); LeafMapping::sized();
        lemma_top("chain"@); lemma_top("link"@);
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == ChainedMapping { id: Some(i), ..m }); }
        else if k < 6 {
            let l = ChainMapping::leaves()[k - 1];
            assert(Self::leaves()[k] == below("chain"@, ChainMapping::leaves())[k - 1]);
            lemma_under("chain"@, l.path);
            ChainMapping::one(m.chain, k - 1, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == ChainedMapping { chain: m.chain.stepped(l.name, l.path, i), ..m });
        }
        else if k < 8 {
            let l = LeafMapping::leaves()[k - 6];
            assert(Self::leaves()[k] == below("link"@, LeafMapping::leaves())[k - 6]);
            lemma_under("link"@, l.path);
            assert("link"@ != "chain"@); lemma_other("link"@, "chain"@, l.path);
            LeafMapping::one(m.link, k - 6, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == ChainedMapping { link: m.link.stepped(l.name, l.path, i), ..m });
        }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn chained_filled(m: ChainedMapping, row: Seq<Value>, v: Chained) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u32, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& chain_filled(m.chain, row, v.chain)
    &&& leaf_filled(m.link, row, v.link)
}
/// One of the values is not one of its field.
pub open spec fn chained_unread(m: ChainedMapping, row: Seq<Value>) -> bool {
    ||| no_u32(row[m.id->Some_0 as int])
    ||| chain_unread(m.chain, row)
    ||| leaf_unread(m.link, row)
}
pub open spec fn chained_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 3
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Reference && c[1]->Reference_0.column@ == "chain"@ && c[1]->Reference_0.table@ == "link"@ && c[1]->Reference_0.key@ == "id"@ && chain_columns(c[1]->Reference_0.columns@)
    &&& c[2] is Reference && c[2]->Reference_0.column@ == "link"@ && c[2]->Reference_0.table@ == "leaf"@ && c[2]->Reference_0.key@ == "id"@ && leaf_columns(c[2]->Reference_0.columns@)
}
%fn <Chained as ModelData>::TABLE as chained_table
    ensures r@ == ChainedMapping::table()
%fn <Chained as ModelData>::TABLE_WITH_POINT as chained_table_dot
    ensures r@ == dotted(ChainedMapping::table())
%at tail
    proof { reveal_strlit("chained"); reveal_strlit("chained."); assert("chained."@ =~= dotted("chained"@)); }
%fn <Chained as Model>::PRIMARY as chained_primary
    ensures r@ == "id"@
%fn <Chained as IntoQuery>::COLUMNS as chained_columns_
    ensures chained_columns(r@)
%rw <Chain as mysql_connector::model::ModelData> ::TABLE => chain_table()
%rw <Chain as mysql_connector::model::Model> ::PRIMARY => chain_primary()
%rw <Chain as mysql_connector::model::IntoQuery> ::COLUMNS => chain_columns_()
%rw <Leaf as mysql_connector::model::ModelData> ::TABLE => leaf_table()
%rw <Leaf as mysql_connector::model::Model> ::PRIMARY => leaf_primary()
%rw <Leaf as mysql_connector::model::IntoQuery> ::COLUMNS => leaf_columns_()
%fn <ChainedMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw chain: ::core::default::Default::default() => chain: ChainMapping::vx_fresh()
%rw link: ::core::default::Default::default() => link: LeafMapping::vx_fresh()
%rw ::core::default::Default::default() => None
%fn <ChainedMapping as FromQueryResultMapping<Chained>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%rw table.starts_with("chain.") => vx_starts_with(table, "chain.")
%rw table.starts_with("link.") => vx_starts_with(table, "link.")
%rw &table[5usize..] => vx_str_after(table, 5usize, Ghost(5))
%rw &table[6usize..] => vx_str_after(table, 6usize, Ghost(6))
%rw self.chain.set_mapping_inner => self.chain.vx_set
%rw self.link.set_mapping_inner => self.link.vx_set
%attr #[verifier::spinoff_prover]
%at entry
    proof {
        reveal_strlit("");  assert(""@ =~= seq![]);
        reveal_strlit("chain"); reveal_strlit("chain."); assert("chain."@ =~= dotted("chain"@)); vstd::utf8::is_ascii_chars_encode_utf8("chain."@);
        if dotted("chain"@).is_prefix_of(table@) { assert(table@.take(6) =~= "chain."@); assert(bytes_of(table@.take(6)) == 6); }
        reveal_strlit("link"); reveal_strlit("link."); assert("link."@ =~= dotted("link"@)); vstd::utf8::is_ascii_chars_encode_utf8("link."@);
        if dotted("link"@).is_prefix_of(table@) { assert(table@.take(5) =~= "link."@); assert(bytes_of(table@.take(5)) == 5); }
    }
%fn <Chained as FromQueryResult>::from_mapping_and_row as vx_chained
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && chained_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || chained_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%rw <Chain> ::from_mapping_and_row => Chain::vx_chain
%rw <Leaf> ::from_mapping_and_row => Leaf::vx_leaf
%at entry
    proof {
        ChainedMapping::sized(); ChainMapping::sized(); LeafMapping::sized();
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.chain.id);
        assert(mapping.got(2) == mapping.chain.link.id);
        assert(mapping.got(3) == mapping.chain.link.name);
        assert(mapping.got(4) == mapping.chain.link.pet.id);
        assert(mapping.got(5) == mapping.chain.link.pet.name);
        assert(mapping.got(6) == mapping.link.id);
        assert(mapping.got(7) == mapping.link.name);
        assert forall|k: int| 0 <= k < 5 implies #[trigger] mapping.chain.got(k) == mapping.got(1 + k) by { }
        assert(usable(mapping.chain, row@.len())) by {
            assert forall|k: int| 0 <= k < 5 && (#[trigger] mapping.chain.got(k)) is Some implies mapping.chain.got(k)->Some_0 < row@.len() by { assert(mapping.got(1 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 5 && (#[trigger] mapping.chain.got(j)) is Some implies mapping.chain.got(j) != #[trigger] mapping.chain.got(k) by { assert(mapping.got(1 + j) is Some); assert(mapping.got(1 + k) != mapping.got(1 + j)); }
        }
        assert forall|i: int| meant(mapping.chain, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 5 && (#[trigger] mapping.chain.got(k)) is Some && mapping.chain.got(k)->Some_0 == i; assert(mapping.got(1 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 5 implies (#[trigger] mapping.chain.got(k)) is Some by { assert(mapping.got(1 + k) is Some); } }
        assert forall|k: int| 0 <= k < 2 implies #[trigger] mapping.link.got(k) == mapping.got(6 + k) by { }
        assert(usable(mapping.link, row@.len())) by {
            assert forall|k: int| 0 <= k < 2 && (#[trigger] mapping.link.got(k)) is Some implies mapping.link.got(k)->Some_0 < row@.len() by { assert(mapping.got(6 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 2 && (#[trigger] mapping.link.got(j)) is Some implies mapping.link.got(j) != #[trigger] mapping.link.got(k) by { assert(mapping.got(6 + j) is Some); assert(mapping.got(6 + k) != mapping.got(6 + j)); }
        }
        assert forall|i: int| meant(mapping.link, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 2 && (#[trigger] mapping.link.got(k)) is Some && mapping.link.got(k)->Some_0 == i; assert(mapping.got(6 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 2 implies (#[trigger] mapping.link.got(k)) is Some by { assert(mapping.got(6 + k) is Some); } }
    }
%type Raw
%type RawMapping
%raw
impl VxMaps for RawMapping {
    open spec fn table() -> Seq<char> { "with space"@ }
    open spec fn leaves() -> Seq<Leaf_> { seq![own("id"@), own("type"@), own("in"@), own("mod_x"@), own("mod_yy"@), own("mod_z"@), own("mo_x"@), own("mo_yy"@), own("mo_z"@)] + below("match"@, LeafMapping::leaves()) }
    open spec fn size() -> nat { 11 }
    proof fn sized() { LeafMapping::sized(); }
    open spec fn fresh() -> Self { RawMapping { id: None, vx_type: None, vx_in: None, mod_x: None, mod_yy: None, mod_z: None, mo_x: None, mo_yy: None, mo_z: None, vx_match: LeafMapping::fresh() } }
    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {
        if path == "match"@ { RawMapping { vx_match: self.vx_match.stepped(name, seq![], i), ..self } } else if dotted("match"@).is_prefix_of(path) { RawMapping { vx_match: self.vx_match.stepped(name, path.skip(6), i), ..self } }
        else if name == "id"@ { RawMapping { id: Some(i), ..self } } else if name == "type"@ { RawMapping { vx_type: Some(i), ..self } } else if name == "in"@ { RawMapping { vx_in: Some(i), ..self } } else if name == "mod_x"@ { RawMapping { mod_x: Some(i), ..self } } else if name == "mod_yy"@ { RawMapping { mod_yy: Some(i), ..self } } else if name == "mod_z"@ { RawMapping { mod_z: Some(i), ..self } } else if name == "mo_x"@ { RawMapping { mo_x: Some(i), ..self } } else if name == "mo_yy"@ { RawMapping { mo_yy: Some(i), ..self } } else if name == "mo_z"@ { RawMapping { mo_z: Some(i), ..self } } else { self }
    }
    open spec fn got(self, k: int) -> Option<usize> {
        if k == 0 { self.id } else if k == 1 { self.vx_type } else if k == 2 { self.vx_in } else if k == 3 { self.mod_x } else if k == 4 { self.mod_yy } else if k == 5 { self.mod_z } else if k == 6 { self.mo_x } else if k == 7 { self.mo_yy } else if k == 8 { self.mo_z } else if 9 <= k < 11 { self.vx_match.got(k - 9) } else { None }
    }
    proof fn none() {
        Self::sized(); LeafMapping::sized(); LeafMapping::none();
    }
    #[verifier::spinoff_prover]
    proof fn one(m: Self, k: int, i: usize) {
        Self::sized(); reveal_strlit("id"); assert("id"@.len() == 2); reveal_strlit("in"); assert("in"@.len() == 2); reveal_strlit("match"); assert("match"@.len() == 5); reveal_strlit("mo_x"); assert("mo_x"@.len() == 4); reveal_strlit("mo_yy"); assert("mo_yy"@.len() == 5); reveal_strlit("mo_z"); assert("mo_z"@.len() == 4); reveal_strlit("mod_x"); assert("mod_x"@.len() == 5); reveal_strlit("mod_yy"); assert("mod_yy"@.len() == 6); reveal_strlit("mod_z"); assert("mod_z"@.len() == 5); reveal_strlit("type"); assert("type"@.len() == 4); assert("in"@[1] != "id"@[1]); assert("mod_z"@[4] != "mod_x"@[4]); assert("mo_x"@[0] != "type"@[0]); assert("mo_yy"@[2] != "mod_x"@[2]); assert("mo_yy"@[2] != "mod_z"@[2]); assert("mo_z"@[0] != "type"@[0]); assert("mo_z"@[3] != "mo_x"@[3]);  assert(no_dot("match"@));
        LeafMapping::sized();
        lemma_top("match"@);
        if k == 0 { assert(Self::leaves()[0] == own("id"@)); assert(m.stepped("id"@, seq![], i) == RawMapping { id: Some(i), ..m }); }
        else if k == 1 { assert(Self::leaves()[1] == own("type"@)); assert(m.stepped("type"@, seq![], i) == RawMapping { vx_type: Some(i), ..m }); }
        else if k == 2 { assert(Self::leaves()[2] == own("in"@)); assert(m.stepped("in"@, seq![], i) == RawMapping { vx_in: Some(i), ..m }); }
        else if k == 3 { assert(Self::leaves()[3] == own("mod_x"@)); assert(m.stepped("mod_x"@, seq![], i) == RawMapping { mod_x: Some(i), ..m }); }
        else if k == 4 { assert(Self::leaves()[4] == own("mod_yy"@)); assert(m.stepped("mod_yy"@, seq![], i) == RawMapping { mod_yy: Some(i), ..m }); }
        else if k == 5 { assert(Self::leaves()[5] == own("mod_z"@)); assert(m.stepped("mod_z"@, seq![], i) == RawMapping { mod_z: Some(i), ..m }); }
        else if k == 6 { assert(Self::leaves()[6] == own("mo_x"@)); assert(m.stepped("mo_x"@, seq![], i) == RawMapping { mo_x: Some(i), ..m }); }
        else if k == 7 { assert(Self::leaves()[7] == own("mo_yy"@)); assert(m.stepped("mo_yy"@, seq![], i) == RawMapping { mo_yy: Some(i), ..m }); }
        else if k == 8 { assert(Self::leaves()[8] == own("mo_z"@)); assert(m.stepped("mo_z"@, seq![], i) == RawMapping { mo_z: Some(i), ..m }); }
        else if k < 11 {
            let l = LeafMapping::leaves()[k - 9];
            assert(Self::leaves()[k] == below("match"@, LeafMapping::leaves())[k - 9]);
            lemma_under("match"@, l.path);
            LeafMapping::one(m.vx_match, k - 9, i);
            if l.path.len() == 0 { assert(l.path =~= seq![]); }
            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == RawMapping { vx_match: m.vx_match.stepped(l.name, l.path, i), ..m });
        }
    }
}
/// What the model holds is what the row's values for its fields convert to.
pub open spec fn raw_filled(m: RawMapping, row: Seq<Value>, v: Raw) -> bool {
    &&& m.id is Some && call_ensures(Value::vx_into_u32, (row[m.id->Some_0 as int],), Ok(v.id))
    &&& m.vx_type is Some && call_ensures(Value::vx_into_string, (row[m.vx_type->Some_0 as int],), Ok(v.vx_type))
    &&& m.vx_in is Some && call_ensures(Value::vx_into_bool, (row[m.vx_in->Some_0 as int],), Ok(v.vx_in))
    &&& m.mod_x is Some && call_ensures(Value::vx_into_f32, (row[m.mod_x->Some_0 as int],), Ok(v.vx_mod.x))
    &&& m.mod_yy is Some && call_ensures(Value::vx_into_f64, (row[m.mod_yy->Some_0 as int],), Ok(v.vx_mod.y))
    &&& m.mod_z is Some && call_ensures(Value::vx_into_i16, (row[m.mod_z->Some_0 as int],), Ok(v.vx_mod.z))
    &&& m.mo_x is Some && call_ensures(Value::vx_into_f32, (row[m.mo_x->Some_0 as int],), Ok(v.mo.x))
    &&& m.mo_yy is Some && call_ensures(Value::vx_into_f64, (row[m.mo_yy->Some_0 as int],), Ok(v.mo.y))
    &&& m.mo_z is Some && call_ensures(Value::vx_into_i16, (row[m.mo_z->Some_0 as int],), Ok(v.mo.z))
    &&& leaf_filled(m.vx_match, row, v.vx_match)
}
/// One of the values is not one of its field.
pub open spec fn raw_unread(m: RawMapping, row: Seq<Value>) -> bool {
    ||| no_u32(row[m.id->Some_0 as int])
    ||| no_string(row[m.vx_type->Some_0 as int])
    ||| no_bool(row[m.vx_in->Some_0 as int])
    ||| no_f32(row[m.mod_x->Some_0 as int])
    ||| no_f64(row[m.mod_yy->Some_0 as int])
    ||| no_i16(row[m.mod_z->Some_0 as int])
    ||| no_f32(row[m.mo_x->Some_0 as int])
    ||| no_f64(row[m.mo_yy->Some_0 as int])
    ||| no_i16(row[m.mo_z->Some_0 as int])
    ||| leaf_unread(m.vx_match, row)
}
pub open spec fn raw_columns(c: Seq<QueryColumn>) -> bool {
    &&& c.len() == 10
    &&& c[0] is Column && c[0]->Column_0@ == "id"@
    &&& c[1] is Column && c[1]->Column_0@ == "type"@
    &&& c[2] is Column && c[2]->Column_0@ == "in"@
    &&& c[3] is Column && c[3]->Column_0@ == "mod_x"@
    &&& c[4] is Column && c[4]->Column_0@ == "mod_yy"@
    &&& c[5] is Column && c[5]->Column_0@ == "mod_z"@
    &&& c[6] is Column && c[6]->Column_0@ == "mo_x"@
    &&& c[7] is Column && c[7]->Column_0@ == "mo_yy"@
    &&& c[8] is Column && c[8]->Column_0@ == "mo_z"@
    &&& c[9] is Reference && c[9]->Reference_0.column@ == "match"@ && c[9]->Reference_0.table@ == "leaf"@ && c[9]->Reference_0.key@ == "id"@ && leaf_columns(c[9]->Reference_0.columns@)
}
%fn <Raw as ModelData>::TABLE as raw_table
    ensures r@ == RawMapping::table()
%fn <Raw as ModelData>::TABLE_WITH_POINT as raw_table_dot
    ensures r@ == dotted(RawMapping::table())
%at tail
    proof { reveal_strlit("with space"); reveal_strlit("with space."); assert("with space."@ =~= dotted("with space"@)); }
%fn <Raw as Model>::PRIMARY as raw_primary
    ensures r@ == "id"@
%fn <Raw as IntoQuery>::COLUMNS as raw_columns_
    ensures raw_columns(r@)
%rw <Leaf as mysql_connector::model::ModelData> ::TABLE => leaf_table()
%rw <Leaf as mysql_connector::model::Model> ::PRIMARY => leaf_primary()
%rw <Leaf as mysql_connector::model::IntoQuery> ::COLUMNS => leaf_columns_()
%fn <RawMapping as Default>::default as vx_fresh
    ensures r == Self::fresh()
%rw r#match: ::core::default::Default::default() => r#match: LeafMapping::vx_fresh()
%rw ::core::default::Default::default() => None
%fn <RawMapping as FromQueryResultMapping<Raw>>::set_mapping_inner as vx_set
    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)
%rw table.starts_with("match.") => vx_starts_with(table, "match.")
%rw &table[6usize..] => vx_str_after(table, 6usize, Ghost(6))
%rw self.r#match.set_mapping_inner => self.r#match.vx_set
%attr #[verifier::spinoff_prover]
%at entry
    proof {
        reveal_strlit("");  assert(""@ =~= seq![]);
        reveal_strlit("match"); reveal_strlit("match."); assert("match."@ =~= dotted("match"@)); vstd::utf8::is_ascii_chars_encode_utf8("match."@);
        if dotted("match"@).is_prefix_of(table@) { assert(table@.take(6) =~= "match."@); assert(bytes_of(table@.take(6)) == 6); }
    }
%fn <Raw as FromQueryResult>::from_mapping_and_row as vx_raw
    requires usable(*mapping, old(row)@.len())
    ensures r is Ok ==> complete(*mapping) && raw_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),
        r is Err ==> !complete(*mapping) || raw_unread(*mapping, old(row)@),
%attr #[verifier::spinoff_prover]
%rw .try_into() => .vx_try()
%rw <Leaf> ::from_mapping_and_row => Leaf::vx_leaf
%at entry
    proof {
        RawMapping::sized(); LeafMapping::sized();
        assert(mapping.got(0) == mapping.id);
        assert(mapping.got(1) == mapping.vx_type);
        assert(mapping.got(2) == mapping.vx_in);
        assert(mapping.got(3) == mapping.mod_x);
        assert(mapping.got(4) == mapping.mod_yy);
        assert(mapping.got(5) == mapping.mod_z);
        assert(mapping.got(6) == mapping.mo_x);
        assert(mapping.got(7) == mapping.mo_yy);
        assert(mapping.got(8) == mapping.mo_z);
        assert(mapping.got(9) == mapping.vx_match.id);
        assert(mapping.got(10) == mapping.vx_match.name);
        assert forall|k: int| 0 <= k < 2 implies #[trigger] mapping.vx_match.got(k) == mapping.got(9 + k) by { }
        assert(usable(mapping.vx_match, row@.len())) by {
            assert forall|k: int| 0 <= k < 2 && (#[trigger] mapping.vx_match.got(k)) is Some implies mapping.vx_match.got(k)->Some_0 < row@.len() by { assert(mapping.got(9 + k) is Some); }
            assert forall|j: int, k: int| 0 <= j < k < 2 && (#[trigger] mapping.vx_match.got(j)) is Some implies mapping.vx_match.got(j) != #[trigger] mapping.vx_match.got(k) by { assert(mapping.got(9 + j) is Some); assert(mapping.got(9 + k) != mapping.got(9 + j)); }
        }
        assert forall|i: int| meant(mapping.vx_match, i) implies #[trigger] meant(*mapping, i) by { let k = choose|k: int| 0 <= k < 2 && (#[trigger] mapping.vx_match.got(k)) is Some && mapping.vx_match.got(k)->Some_0 == i; assert(mapping.got(9 + k) is Some); }
        if complete(*mapping) { assert forall|k: int| 0 <= k < 2 implies (#[trigger] mapping.vx_match.got(k)) is Some by { assert(mapping.got(9 + k) is Some); } }
    }
