%# Conversions between Rust values and database values.
%use bin
%path Box::new => vx_debug
%raw
pub use vstd::std_specs::cmp::*;
#[verifier::external_body]
pub fn vx_debug<T>(t: T) -> VxDebug { unimplemented!() }
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub assume_specification [String::into_bytes] (s: String) -> (r: Vec<u8>)
    ensures r@ == vstd::utf8::encode_utf8(s@);
pub assume_specification [i64::abs] (x: i64) -> (r: i64)
    requires x != i64::MIN
    ensures r == if x < 0 { -x } else { x as int };
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32)
    ensures r == if x < 0 { -x } else { x as int };

pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn month_days(y: int, m: int) -> int {
    if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
/// The dates chrono knows.
pub open spec fn date_ok(y: int, m: int, d: int) -> bool { -262143 <= y <= 262142 && 1 <= m <= 12 && 1 <= d <= month_days(y, m) }
/// The times of day chrono's constructors make: a leap second is the second 59 with a billion nanoseconds or more.
pub open spec fn time_ok(h: int, m: int, s: int, nano: int) -> bool {
    0 <= h < 24 && 0 <= m < 60 && 0 <= s < 60 && 0 <= nano && (nano < 1_000_000_000 || s == 59 && nano < 2_000_000_000)
}
/// chrono (assumed from its documentation).
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NaiveDate { x: () }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NaiveTime { x: () }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NaiveDateTime { x: () }
pub struct VYmd { pub y: int, pub m: int, pub d: int }
pub struct VHms { pub h: int, pub m: int, pub s: int, pub nano: int }
impl NaiveDate {
    pub uninterp spec fn v(self) -> VYmd;
    #[verifier::external_body]
    pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>)
        ensures r is Some <==> date_ok(y as int, m as int, d as int), r is Some ==> r->Some_0.v() == (VYmd { y: y as int, m: m as int, d: d as int })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn year(&self) -> (r: i32) ensures r == self.v().y, date_ok(self.v().y, self.v().m, self.v().d) { unimplemented!() }
    #[verifier::external_body]
    pub fn month(&self) -> (r: u32) ensures r == self.v().m, date_ok(self.v().y, self.v().m, self.v().d) { unimplemented!() }
    #[verifier::external_body]
    pub fn day(&self) -> (r: u32) ensures r == self.v().d, date_ok(self.v().y, self.v().m, self.v().d) { unimplemented!() }
}
impl NaiveTime {
    pub uninterp spec fn v(self) -> VHms;
    #[verifier::external_body]
    pub fn from_hms_micro_opt(h: u32, m: u32, s: u32, micro: u32) -> (r: Option<NaiveTime>)
        ensures r is Some <==> time_ok(h as int, m as int, s as int, micro * 1000),
            r is Some ==> r->Some_0.v() == (VHms { h: h as int, m: m as int, s: s as int, nano: micro * 1000 })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_hms_nano_opt(h: u32, m: u32, s: u32, nano: u32) -> (r: Option<NaiveTime>)
        ensures r is Some <==> time_ok(h as int, m as int, s as int, nano as int),
            r is Some ==> r->Some_0.v() == (VHms { h: h as int, m: m as int, s: s as int, nano: nano as int })
    { unimplemented!() }
}
impl NaiveDateTime {
    pub uninterp spec fn date_v(self) -> VYmd;
    pub uninterp spec fn time_v(self) -> VHms;
    pub open spec fn ok(self) -> bool { date_ok(self.date_v().y, self.date_v().m, self.date_v().d) && time_ok(self.time_v().h, self.time_v().m, self.time_v().s, self.time_v().nano) }
    #[verifier::external_body]
    pub fn new(d: NaiveDate, t: NaiveTime) -> (r: NaiveDateTime) ensures r.date_v() == d.v(), r.time_v() == t.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn year(&self) -> (r: i32) ensures r == self.date_v().y, self.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn month(&self) -> (r: u32) ensures r == self.date_v().m, self.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn day(&self) -> (r: u32) ensures r == self.date_v().d, self.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn hour(&self) -> (r: u32) ensures r == self.time_v().h, self.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn minute(&self) -> (r: u32) ensures r == self.time_v().m, self.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn second(&self) -> (r: u32) ensures r == self.time_v().s, self.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn nanosecond(&self) -> (r: u32) ensures r == self.time_v().nano, self.ok() { unimplemented!() }
}
/// A span of time in nanoseconds; its seconds and what is left of them both carry its sign.
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
pub open spec fn span_max() -> int { 0x7fff_ffff_ffff_ffff_int * 1_000_000 }
pub open spec fn span_ok(n: int) -> bool { -span_max() <= n <= span_max() }
pub open spec fn abs(n: int) -> int { if n < 0 { -n } else { n } }
/// Division towards zero.
pub open spec fn towards_zero(n: int, k: int) -> int { if n < 0 { -((-n) / k) } else { n / k } }
impl VDuration {
    pub uninterp spec fn v(self) -> int;
    #[verifier::external_body]
    pub fn new(secs: i64, nanos: u32) -> (r: Option<VDuration>)
        ensures r is Some <==> nanos < 1_000_000_000 && span_ok(secs * 1_000_000_000 + nanos), r is Some ==> r->Some_0.v() == secs * 1_000_000_000 + nanos
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: VDuration) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn num_seconds(&self) -> (r: i64) ensures span_ok(self.v()), r == towards_zero(self.v(), 1_000_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_nanos(&self) -> (r: i32) ensures span_ok(self.v()), r == self.v() - 1_000_000_000 * towards_zero(self.v(), 1_000_000_000) { unimplemented!() }
}
impl PartialEqSpecImpl for VDuration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VDuration) -> bool { self.v() == o.v() }
}
impl PartialEq for VDuration { #[verifier::external_body] fn eq(&self, o: &VDuration) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for VDuration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &VDuration) -> Option<core::cmp::Ordering> {
        if self.v() < o.v() { Some(core::cmp::Ordering::Less) } else if self.v() == o.v() { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for VDuration { #[verifier::external_body] fn partial_cmp(&self, o: &VDuration) -> Option<core::cmp::Ordering> { unimplemented!() } }

impl FromSpecImpl<bool> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: bool) -> Self { Value::Tiny(if v { 1 } else { 0 }) } }
impl FromSpecImpl<Vec<u8>> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Vec<u8>) -> Self { Value::Bytes(v) } }
%fn <Value as From<{{bool,Vec<u8>}}>>::from
%fn <Value as From<String>>::from as vx_from_string
    ensures r is Bytes, r->Bytes_0@ == utf8(value@)
%fn <Value as TryInto<{{i8:Tiny,i16:Short,i32:Int,i64:Long,u8:UTiny,u16:UShort,u32:UInt,u64:ULong,f32:Float,f64:Double}}>>::try_into as vx_into_{@}
    ensures r is Ok <==> self is {@2}, r is Ok ==> r->Ok_0 == self->{@2}_0
%raw
/// The truth value of a number: 0 is false and every positive number true.
pub open spec fn truth(v: Value, b: bool) -> bool {
    match v {
        Value::Tiny(x) => (x == 0 ==> !b) && (x > 0 ==> b), Value::Short(x) => (x == 0 ==> !b) && (x > 0 ==> b),
        Value::Int(x) => (x == 0 ==> !b) && (x > 0 ==> b), Value::Long(x) => (x == 0 ==> !b) && (x > 0 ==> b),
        Value::UTiny(x) => b == (x > 0), Value::UShort(x) => b == (x > 0), Value::UInt(x) => b == (x > 0), Value::ULong(x) => b == (x > 0),
        _ => false,
    }
}
pub open spec fn whole_number(v: Value) -> bool { v is Tiny || v is Short || v is Int || v is Long || v is UTiny || v is UShort || v is UInt || v is ULong }
%fn <Value as TryInto<bool>>::try_into as vx_into_bool
    ensures r is Ok <==> whole_number(self), r is Ok ==> truth(self, r->Ok_0)
%fn <Value as TryInto<String>>::try_into as vx_into_string
    ensures r is Ok <==> self is Bytes && vstd::utf8::valid_utf8(self->Bytes_0@), r is Ok ==> utf8(r->Ok_0@) == self->Bytes_0@
%fn <Value as TryInto<Vec<u8>>>::try_into as vx_into_bytes
    ensures r is Ok <==> self is Bytes, r is Ok ==> r->Ok_0 == self->Bytes_0
%raw
pub open spec fn date_value(d: VYmd) -> Value { Value::Date(d.y as u16, d.m as u8, d.d as u8) }
pub open spec fn value_date(v: Value) -> Option<VYmd> {
    match v {
        Value::Date(y, m, d) => if date_ok(y as int, m as int, d as int) { Some(VYmd { y: y as int, m: m as int, d: d as int }) } else { None },
        Value::Datetime(y, m, d, _, _, _, _) => if date_ok(y as int, m as int, d as int) { Some(VYmd { y: y as int, m: m as int, d: d as int }) } else { None },
        _ => None,
    }
}
pub open spec fn datetime_value(d: VYmd, t: VHms) -> Value { Value::Datetime(d.y as u16, d.m as u8, d.d as u8, t.h as u8, t.m as u8, t.s as u8, (t.nano / 1000) as u32) }
pub open spec fn value_datetime(v: Value) -> Option<(VYmd, VHms)> {
    match v {
        Value::Datetime(y, m, d, h, i, s, u) => if date_ok(y as int, m as int, d as int) && time_ok(h as int, i as int, s as int, u * 1000) {
            Some((VYmd { y: y as int, m: m as int, d: d as int }, VHms { h: h as int, m: i as int, s: s as int, nano: u * 1000 }))
        } else { None },
        _ => None,
    }
}
pub open spec fn fits(y: int) -> bool { 0 <= y <= 65535 }
#[verifier::external_body]
pub fn vx_u16_from_i32(x: i32) -> (r: Result<u16, VxDebug>)
    ensures r is Ok <==> 0 <= x <= 65535, r is Ok ==> r->Ok_0 == x
{ unimplemented!() }
%fn <Value as TryFrom<NaiveDate>>::try_from as vx_from_date
    ensures r is Ok <==> fits(value.v().y), r is Ok ==> r->Ok_0 == date_value(value.v())
%rw value.year().try_into() => vx_u16_from_i32(value.year())
%fn <Value as TryFrom<NaiveDateTime>>::try_from as vx_from_datetime
    ensures r is Ok <==> fits(value.date_v().y), r is Ok ==> r->Ok_0 == datetime_value(value.date_v(), value.time_v())
%rw value.year().try_into() => vx_u16_from_i32(value.year())
%fn <Value as TryInto<NaiveDate>>::try_into as vx_into_date
    ensures r is Ok <==> value_date(self) is Some, r is Ok ==> r->Ok_0.v() == value_date(self)->Some_0
%fn <Value as TryInto<NaiveDateTime>>::try_into as vx_into_datetime
    ensures r is Ok <==> value_datetime(self) is Some, r is Ok ==> value_datetime(self)->Some_0 == (r->Ok_0.date_v(), r->Ok_0.time_v())
%raw
/// The microseconds of a database time.
pub open spec fn time_micros(v: Value) -> int {
    match v {
        Value::Time(n, d, h, m, s, u) => { let x = (((d * 24 + h) * 60 + m) * 60 + s) * 1_000_000 + u; if n { -x } else { x } },
        _ => 0,
    }
}
pub broadcast proof fn bc_minus(x: int)
    ensures #[trigger] (x * (-1)) == -x
{ assert(x * (-1) == -x) by(nonlinear_arith); }
pub open spec fn days_fit(n: int) -> bool { abs(n) / 1000 / 1_000_000 / 86400 <= 0xffff_ffff }
%fn <Value as From<Duration>>::from as vx_from_duration
    ensures days_fit(value.v()) ==> r is Time && time_micros(r) == towards_zero(value.v(), 1000) && r->Time_2 < 24 && r->Time_3 < 60 && r->Time_4 < 60 && r->Time_5 < 1_000_000
        && (r->Time_0 <==> value.v() < 0)
%attr #[verifier::spinoff_prover]
%fn <Value as TryInto<Duration>>::try_into as vx_into_duration
    ensures r is Ok <==> self is Time && self->Time_5 < 1_000_000 , r is Ok ==> r->Ok_0.v() == time_micros(self) * 1000
%attr #[verifier::spinoff_prover]
%at entry
    broadcast use bc_minus;
%fn <Value as TryInto<Option<{{i8,i16,i32,i64,u8,u16,u32,u64,f32,f64}}>>>::try_into as vx_into_opt_{@}
    ensures self is Null ==> r == Ok::<Option<{@}>, ParseError>(None),
        !(self is Null) && r is Ok ==> r->Ok_0 is Some && call_ensures(Value::vx_into_{@}, (self,), Ok(r->Ok_0->Some_0)),
        !(self is Null) && r is Err ==> call_ensures(Value::vx_into_{@}, (self,), Err(r->Err_0)),
%rw x.try_into() => x.vx_into_{@}()
%fn <Value as TryInto<Option<{{bool:bool,String:string,NaiveDate:date,NaiveDateTime:datetime,Duration:duration,Vec<u8>:bytes}}>>>::try_into as vx_into_opt_{@2}
    ensures self is Null ==> r is Ok && r->Ok_0 is None,
        !(self is Null) && r is Ok ==> r->Ok_0 is Some && call_ensures(Value::vx_into_{@2}, (self,), Ok(r->Ok_0->Some_0)),
        !(self is Null) && r is Err ==> call_ensures(Value::vx_into_{@2}, (self,), Err(r->Err_0)),
%rw x.try_into() => x.vx_into_{@2}()
%raw
/// There and back: what a Rust value becomes reads as that value again.
pub proof fn lemma_date_and_back(d: VYmd)
    requires date_ok(d.y, d.m, d.d), fits(d.y)
    ensures value_date(date_value(d)) == Some(d)
{ }
pub proof fn lemma_datetime_and_back(d: VYmd, t: VHms)
    requires date_ok(d.y, d.m, d.d), fits(d.y), time_ok(t.h, t.m, t.s, t.nano)
    ensures value_datetime(datetime_value(d, t)) == Some((d, VHms { h: t.h, m: t.m, s: t.s, nano: t.nano / 1000 * 1000 })),
        value_date(datetime_value(d, t)) == Some(d)
{ }
pub proof fn lemma_span_and_back(n: int)
    ensures abs(n - towards_zero(n, 1000) * 1000) < 1000, towards_zero(towards_zero(n, 1000) * 1000, 1000) == towards_zero(n, 1000)
{ }
pub proof fn lemma_text_and_back(s: Seq<char>)
    ensures vstd::utf8::valid_utf8(utf8(s)), forall|t: Seq<char>| utf8(t) == utf8(s) ==> t == s
{
    vstd::utf8::encode_utf8_valid_utf8(s);
    vstd::utf8::encode_utf8_decode_utf8(s);
    assert forall|t: Seq<char>| utf8(t) == utf8(s) implies t == s by { vstd::utf8::encode_utf8_decode_utf8(t); }
}
%fn <Value as TryFrom<Option<T>>>::try_from as vx_from_option
    ensures value is None ==> r is Ok && r->Ok_0 is Null, value is Some ==> call_ensures(<T as TryInto<Value>>::try_into, (value->Some_0,), r)
%raw
pub assume_specification<T> [std::mem::replace::<T>] (x: &mut T, y: T) -> (r: T)
    ensures r == *old(x), *final(x) == y;
%fn Value::take
    ensures r == *old(self), *final(self) is Null
