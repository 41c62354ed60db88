%# Values of the binary protocol: encoding, decoding, NULL bitmaps, rows.
%use results
%raw
/// What a value is to a server: floats by their bits, byte strings by their bytes.
pub open spec fn same_value(v: Value, w: Value) -> bool {
    match (v, w) {
        (Value::Float(x), Value::Float(y)) => f32_bits(x) == f32_bits(y),
        (Value::Double(x), Value::Double(y)) => f64_bits(x) == f64_bits(y),
        (Value::Bytes(x), Value::Bytes(y)) => x@ == y@,
        (Value::Time(n, a, b, c, d, e), Value::Time(m, f, g, h, i, j)) => (n == m || a + b + c + d + e == 0) && a == f && b == g && c == h && d == i && e == j,
        _ => v == w,
    }
}
/// The type a value is announced with.
pub open spec fn value_type(v: Value) -> ColumnType {
    match v {
        Value::Null => ColumnType::Null,
        Value::Tiny(_) | Value::UTiny(_) => ColumnType::Tiny,
        Value::Short(_) | Value::UShort(_) => ColumnType::Short,
        Value::Int(_) | Value::UInt(_) => ColumnType::Long,
        Value::Long(_) | Value::ULong(_) => ColumnType::LongLong,
        Value::Float(_) => ColumnType::Float,
        Value::Double(_) => ColumnType::Double,
        Value::Bytes(_) => ColumnType::VarString,
        Value::Date(..) => ColumnType::Date,
        Value::Time(..) => ColumnType::Time,
        Value::Datetime(..) => ColumnType::Datetime,
    }
}
pub open spec fn value_unsigned(v: Value) -> bool { v is UTiny || v is UShort || v is UInt || v is ULong }
pub open spec fn bin_date(y: u16, m: u8, d: u8) -> Seq<u8> { le(y as nat, 2) + seq![m, d] }
/// The binary form of a value: the shortest form that loses nothing.
pub open spec fn bin(v: Value) -> Seq<u8> {
    match v {
        Value::Null => Seq::empty(),
        Value::Tiny(x) => le(twos(x as int, 1), 1),
        Value::Short(x) => le(twos(x as int, 2), 2),
        Value::Int(x) => le(twos(x as int, 4), 4),
        Value::Long(x) => le(twos(x as int, 8), 8),
        Value::UTiny(x) => seq![x],
        Value::UShort(x) => le(x as nat, 2),
        Value::UInt(x) => le(x as nat, 4),
        Value::ULong(x) => le(x as nat, 8),
        Value::Float(x) => le(f32_bits(x), 4),
        Value::Double(x) => le(f64_bits(x), 8),
        Value::Bytes(x) => ls_enc(x@),
        Value::Date(y, m, d) => if y == 0 && m == 0 && d == 0 { seq![0u8] } else { seq![4u8] + bin_date(y, m, d) },
        Value::Datetime(y, m, d, h, i, s, u) =>
            if u != 0 { seq![11u8] + bin_date(y, m, d) + seq![h, i, s] + le(u as nat, 4) }
            else if h != 0 || i != 0 || s != 0 { seq![7u8] + bin_date(y, m, d) + seq![h, i, s] }
            else if y == 0 && m == 0 && d == 0 { seq![0u8] }
            else { seq![4u8] + bin_date(y, m, d) },
        Value::Time(n, d, h, i, s, u) =>
            if u != 0 { seq![12u8, if n { 1u8 } else { 0 }] + le(d as nat, 4) + seq![h, i, s] + le(u as nat, 4) }
            else if d != 0 || h != 0 || i != 0 || s != 0 { seq![8u8, if n { 1u8 } else { 0 }] + le(d as nat, 4) + seq![h, i, s] }
            else { seq![0u8] },
    }
}
pub open spec fn is_bytes_type(t: ColumnType) -> bool {
    match t {
        ColumnType::String | ColumnType::VarString | ColumnType::Varchar | ColumnType::Blob | ColumnType::TinyBlob | ColumnType::MediumBlob
        | ColumnType::LongBlob | ColumnType::Set | ColumnType::Enum | ColumnType::Decimal | ColumnType::Bit | ColumnType::NewDecimal
        | ColumnType::Geometry | ColumnType::Json => true,
        _ => false,
    }
}
pub open spec fn is_date_type(t: ColumnType) -> bool {
    t is Date || t is Timestamp || t is Datetime || t is Time
}
/// The size of the fixed-size types.
pub open spec fn fixed_size(t: ColumnType) -> Option<nat> {
    match t {
        ColumnType::Tiny => Some(1),
        ColumnType::Short | ColumnType::Year => Some(2),
        ColumnType::Long | ColumnType::Int24 | ColumnType::Float => Some(4),
        ColumnType::LongLong | ColumnType::Double => Some(8),
        ColumnType::Null => Some(0),
        _ => None,
    }
}
/// The size of the value of type `t` at the front of `s`.
pub open spec fn bin_size(t: ColumnType, s: Seq<u8>) -> nat {
    match fixed_size(t) {
        Some(n) => n,
        None => if is_bytes_type(t) { ls_len(s) } else { 1 + s[0] as nat },
    }
}
/// Whether there is a whole value of type `t` at the front of `s`.
pub open spec fn bin_whole(t: ColumnType, s: Seq<u8>) -> bool {
    match fixed_size(t) {
        Some(n) => s.len() >= n,
        None => if is_bytes_type(t) { ls_ok(s) } else { is_date_type(t) && s.len() >= 1 && s.len() >= 1 + s[0] },
    }
}
/// `v` is the value of type `t` at the front of `s`. Lengths of dates and times the protocol does not know say nothing about the fields.
pub open spec fn bin_reads(t: ColumnType, unsigned: bool, s: Seq<u8>, v: Value) -> bool {
    let n = s[0];
    match t {
        ColumnType::Tiny => if unsigned { v is UTiny && v->UTiny_0 == le_val(s.take(1)) } else { v is Tiny && v->Tiny_0 == untwos(le_val(s.take(1)), 1) },
        ColumnType::Short | ColumnType::Year => if unsigned { v is UShort && v->UShort_0 == le_val(s.take(2)) } else { v is Short && v->Short_0 == untwos(le_val(s.take(2)), 2) },
        ColumnType::Long | ColumnType::Int24 => if unsigned { v is UInt && v->UInt_0 == le_val(s.take(4)) } else { v is Int && v->Int_0 == untwos(le_val(s.take(4)), 4) },
        ColumnType::LongLong => if unsigned { v is ULong && v->ULong_0 == le_val(s.take(8)) } else { v is Long && v->Long_0 == untwos(le_val(s.take(8)), 8) },
        ColumnType::Float => v is Float && f32_bits(v->Float_0) == le_val(s.take(4)),
        ColumnType::Double => v is Double && f64_bits(v->Double_0) == le_val(s.take(8)),
        ColumnType::Null => v is Null,
        ColumnType::Date => v matches Value::Date(y, m, d) && bin_reads_date(s, n, y, m, d),
        ColumnType::Timestamp | ColumnType::Datetime => v matches Value::Datetime(y, m, d, h, i, x, u) && bin_reads_date(s, n, y, m, d)
            && (n == 0 || n == 4 ==> h == 0 && i == 0 && x == 0 && u == 0)
            && (n == 7 || n == 11 ==> h == s[5] && i == s[6] && x == s[7])
            && (n == 7 ==> u == 0) && (n == 11 ==> u == le_val(s.subrange(8, 12))),
        ColumnType::Time => v matches Value::Time(g, d, h, i, x, u)
            && (n == 0 ==> !g && d == 0 && h == 0 && i == 0 && x == 0 && u == 0)
            && (n == 8 || n == 12 ==> (s[1] <= 1 ==> g == (s[1] == 1)) && d == le_val(s.subrange(2, 6)) && h == s[6] && i == s[7] && x == s[8])
            && (n == 8 ==> u == 0) && (n == 12 ==> u == le_val(s.subrange(9, 13))),
        _ => v is Bytes && v->Bytes_0@ == ls_val(s),
    }
}
pub open spec fn bin_reads_date(s: Seq<u8>, n: u8, y: u16, m: u8, d: u8) -> bool {
    &&& n == 0 ==> y == 0 && m == 0 && d == 0
    &&& n == 4 || n == 7 || n == 11 ==> y == le_val(s.subrange(1, 3)) && m == s[3] && d == s[4]
}
/// A value decoded from the front of `before`.
pub open spec fn bin_decoded(t: ColumnType, unsigned: bool, before: Seq<u8>, after: Seq<u8>, r: Result<Value, ProtocolError>) -> bool {
    &&& r is Ok <==> bin_whole(t, before)
    &&& r is Ok ==> bin_reads(t, unsigned, before, r->Ok_0) && took(before, after, bin_size(t, before))
}
impl FromSpecImpl<i8> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i8) -> Self { Value::Tiny(v) } }
impl FromSpecImpl<i16> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i16) -> Self { Value::Short(v) } }
impl FromSpecImpl<i32> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i32) -> Self { Value::Int(v) } }
impl FromSpecImpl<i64> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i64) -> Self { Value::Long(v) } }
impl FromSpecImpl<u8> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u8) -> Self { Value::UTiny(v) } }
impl FromSpecImpl<u16> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u16) -> Self { Value::UShort(v) } }
impl FromSpecImpl<u32> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u32) -> Self { Value::UInt(v) } }
impl FromSpecImpl<u64> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u64) -> Self { Value::ULong(v) } }
impl FromSpecImpl<f32> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: f32) -> Self { Value::Float(v) } }
impl FromSpecImpl<f64> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: f64) -> Self { Value::Double(v) } }
%fn <Value as From<{{i8,i16,i32,i64,u8,u16,u32,u64,f32,f64}}>>::from
%fn Value::column_type
    ensures r == value_type(*self)
%fn Value::is_unsigned
    ensures r == value_unsigned(*self)
%fn Value::bin_len
    ensures r == bin(*self).len()
%at entry
    proof { lemma_bin_len(*self); }
%raw
pub proof fn lemma_bin_len(v: Value)
    ensures forall|n: nat, k: nat| #[trigger] le(n, k).len() == k
{
    assert forall|n: nat, k: nat| #[trigger] le(n, k).len() == k by { lemma_le_len(n, k); }
}
/// The pieces of a date or a time, appended one after the other.
pub proof fn lemma_bin_parts(b: Seq<u8>, v: Value)
    ensures
        forall|x: u8| #[trigger] le(x as nat, 1) == seq![x],
        v matches Value::Tiny(x) ==> le(twos(x as int, 1), 1).len() == 1,
        b + bin(v) == match v {
            Value::Date(y, m, d) => if y == 0 && m == 0 && d == 0 { b + seq![0u8] } else { b + seq![4u8] + le(y as nat, 2) + seq![m] + seq![d] },
            Value::Datetime(y, m, d, h, i, s, u) =>
                if u != 0 { b + seq![11u8] + le(y as nat, 2) + seq![m] + seq![d] + seq![h] + seq![i] + seq![s] + le(u as nat, 4) }
                else if h != 0 || i != 0 || s != 0 { b + seq![7u8] + le(y as nat, 2) + seq![m] + seq![d] + seq![h] + seq![i] + seq![s] }
                else if y == 0 && m == 0 && d == 0 { b + seq![0u8] }
                else { b + seq![4u8] + le(y as nat, 2) + seq![m] + seq![d] },
            Value::Time(n, d, h, i, s, u) =>
                if u != 0 { b + seq![12u8] + seq![if n { 1u8 } else { 0 }] + le(d as nat, 4) + seq![h] + seq![i] + seq![s] + le(u as nat, 4) }
                else if d != 0 || h != 0 || i != 0 || s != 0 { b + seq![8u8] + seq![if n { 1u8 } else { 0 }] + le(d as nat, 4) + seq![h] + seq![i] + seq![s] }
                else { b + seq![0u8] },
            Value::Null => b,
            _ => b + bin(v),
        },
{
    assert forall|x: u8| #[trigger] le(x as nat, 1) == seq![x] by { lemma_le_one(x); }
    match v {
        Value::Tiny(x) => { lemma_le_len(twos(x as int, 1), 1); }
        Value::Null => { assert(b + bin(v) =~= b); }
        Value::Date(y, m, d) => {
            if !(y == 0 && m == 0 && d == 0) {
                assert(b + bin(v) =~= b + seq![4u8] + le(y as nat, 2) + seq![m] + seq![d]);
            }
        }
        Value::Datetime(y, m, d, h, i, s, u) => {
            if u != 0 { assert(b + bin(v) =~= b + seq![11u8] + le(y as nat, 2) + seq![m] + seq![d] + seq![h] + seq![i] + seq![s] + le(u as nat, 4)); }
            else if h != 0 || i != 0 || s != 0 { assert(b + bin(v) =~= b + seq![7u8] + le(y as nat, 2) + seq![m] + seq![d] + seq![h] + seq![i] + seq![s]); }
            else if !(y == 0 && m == 0 && d == 0) { assert(b + bin(v) =~= b + seq![4u8] + le(y as nat, 2) + seq![m] + seq![d]); }
        }
        Value::Time(n, d, h, i, s, u) => {
            let g = if n { 1u8 } else { 0 };
            if u != 0 { assert(b + bin(v) =~= b + seq![12u8] + seq![g] + le(d as nat, 4) + seq![h] + seq![i] + seq![s] + le(u as nat, 4)); }
            else if d != 0 || h != 0 || i != 0 || s != 0 { assert(b + bin(v) =~= b + seq![8u8] + seq![g] + le(d as nat, 4) + seq![h] + seq![i] + seq![s]); }
        }
        _ => {}
    }
}
%impl <Value as Serialize>
    open spec fn wire(&self) -> Seq<u8> { bin(*self) }
%fn <Value as Serialize>::serialize
%attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
%at entry
    proof { lemma_bin_parts(buf@, *self); }
%fn Value::deserialize_{{tiny:Tiny,short:Short,int:Long,long:LongLong}}
    ensures bin_decoded(ColumnType::{@2}, unsigned, old(buf).0@, final(buf).0@, r)
%fn Value::deserialize_date
    ensures bin_decoded(ColumnType::Date, true, old(buf).0@, final(buf).0@, r)
%at entry
    broadcast use {vx_lemmas::bc_skip_skip, vx_lemmas::bc_sub_take, vx_lemmas::bc_sub_sub};
%fn Value::deserialize_datetime
    ensures bin_decoded(ColumnType::Datetime, true, old(buf).0@, final(buf).0@, r)
%at entry
    broadcast use {vx_lemmas::bc_skip_skip, vx_lemmas::bc_sub_take, vx_lemmas::bc_sub_sub};
%fn Value::deserialize_time
    ensures bin_decoded(ColumnType::Time, true, old(buf).0@, final(buf).0@, r)
%at entry
    broadcast use {vx_lemmas::bc_skip_skip, vx_lemmas::bc_sub_take, vx_lemmas::bc_sub_sub};
%fn Value::deserialize_bin
    ensures bin_decoded(column_type, column_flags.has(ColumnFlags::UNSIGNED_FLAG), old(buf).0@, final(buf).0@, r)
%raw
/// A bound value survives the trip: what a server decodes from its bytes is the value, and exactly its bytes are consumed.
pub proof fn c05_roundtrip(v: Value, rest: Seq<u8>, w: Value)
    requires bin_reads(value_type(v), value_unsigned(v), bin(v) + rest, w)
    ensures
        bin_whole(value_type(v), bin(v) + rest),
        bin_size(value_type(v), bin(v) + rest) == bin(v).len(),
        (bin(v) + rest).skip(bin(v).len() as int) == rest,
        same_value(v, w),
{
    let s = bin(v) + rest;
    lemma_pow256();
    lemma_bin_len(v);
    assert(s.skip(bin(v).len() as int) =~= rest);
    match v {
        Value::Null => {}
        Value::Tiny(x) => { lemma_le_roundtrip(twos(x as int, 1), 1); assert(s.take(1) =~= bin(v)); }
        Value::Short(x) => { lemma_le_roundtrip(twos(x as int, 2), 2); assert(s.take(2) =~= bin(v)); }
        Value::Int(x) => { lemma_le_roundtrip(twos(x as int, 4), 4); assert(s.take(4) =~= bin(v)); }
        Value::Long(x) => { lemma_le_roundtrip(twos(x as int, 8), 8); assert(s.take(8) =~= bin(v)); }
        Value::UTiny(x) => { assert(s.take(1) =~= seq![x]); }
        Value::UShort(x) => { lemma_le_roundtrip(x as nat, 2); assert(s.take(2) =~= bin(v)); }
        Value::UInt(x) => { lemma_le_roundtrip(x as nat, 4); assert(s.take(4) =~= bin(v)); }
        Value::ULong(x) => { lemma_le_roundtrip(x as nat, 8); assert(s.take(8) =~= bin(v)); }
        Value::Float(x) => { ax_float_bits(x, 0.0f64); lemma_le_roundtrip(f32_bits(x), 4); assert(s.take(4) =~= bin(v)); }
        Value::Double(x) => { ax_float_bits(0.0f32, x); lemma_le_roundtrip(f64_bits(x), 8); assert(s.take(8) =~= bin(v)); }
        Value::Bytes(x) => { ax_vec_len(&x); c03_lenenc_slice_roundtrip(x@, rest); }
        Value::Date(y, m, d) => { lemma_c05_date(s, y, m, d); }
        Value::Datetime(y, m, d, h, i, x, u) => {
            lemma_c05_date(s, y, m, d);
            if u != 0 { lemma_le_roundtrip(u as nat, 4); assert(s.subrange(8, 12) =~= le(u as nat, 4)); }
        }
        Value::Time(n, d, h, i, x, u) => {
            if bin(v).len() > 1 { lemma_le_roundtrip(d as nat, 4); assert(s.subrange(2, 6) =~= le(d as nat, 4)); }
            if u != 0 { lemma_le_roundtrip(u as nat, 4); assert(s.subrange(9, 13) =~= le(u as nat, 4)); }
        }
    }
}
/// The bits of a float fit its size (definition of the encoding).
#[verifier::external_body]
pub proof fn ax_float_bits(x: f32, y: f64)
    ensures f32_bits(x) < 0x1_0000_0000, f64_bits(y) < 0x1_0000_0000_0000_0000
{ }
proof fn lemma_c05_date(s: Seq<u8>, y: u16, m: u8, d: u8)
    ensures s.len() >= 5 && s.subrange(1, 3) == le(y as nat, 2) ==> le_val(s.subrange(1, 3)) == y,
        s.len() >= 3 && s[1] == le(y as nat, 2)[0] && s[2] == le(y as nat, 2)[1] ==> le_val(s.subrange(1, 3)) == y
{
    lemma_pow256();
    lemma_le_roundtrip(y as nat, 2);
    if s.len() >= 3 && s[1] == le(y as nat, 2)[0] && s[2] == le(y as nat, 2)[1] { assert(s.subrange(1, 3) =~= le(y as nat, 2)); }
}
/// Bit `i + off` of a bitmap, lowest bit of the first byte first.
pub open spec fn bit_at(s: Seq<u8>, i: int) -> bool { (s[i / 8] & (1u8 << ((i % 8) as u8))) != 0 }
pub open spec fn bitmap_off(client: bool) -> int { if client { 0 } else { 2 } }
pub open spec fn bitmap_size(client: bool, n: int) -> int { (n + 7 + bitmap_off(client)) / 8 }
proof fn lemma_bit_set(b: u8, i: u8, j: u8)
    requires i < 8, j < 8
    ensures
        ((b | (1u8 << i)) & (1u8 << j) != 0) == (i == j || b & (1u8 << j) != 0),
        ((b & !(1u8 << i)) & (1u8 << j) != 0) == (i != j && b & (1u8 << j) != 0),
{
    assert(((b | (1u8 << i)) & (1u8 << j) != 0) == (i == j || b & (1u8 << j) != 0)) by (bit_vector) requires i < 8, j < 8;
    assert(((b & !(1u8 << i)) & (1u8 << j) != 0) == (i != j && b & (1u8 << j) != 0)) by (bit_vector) requires i < 8, j < 8;
}
pub open spec fn bit_mask(k: int) -> u8 { 1u8 << ((k % 8) as u8) }
proof fn lemma_bits(s: Seq<u8>, k: int)
    requires 0 <= k < 8 * s.len()
    ensures
        bit_at(s.update(k / 8, s[k / 8] | bit_mask(k)), k),
        !bit_at(s.update(k / 8, s[k / 8] & !bit_mask(k)), k),
        forall|i: int| 0 <= i < 8 * s.len() && i != k ==> #[trigger] bit_at(s.update(k / 8, s[k / 8] | bit_mask(k)), i) == bit_at(s, i),
        forall|i: int| 0 <= i < 8 * s.len() && i != k ==> #[trigger] bit_at(s.update(k / 8, s[k / 8] & !bit_mask(k)), i) == bit_at(s, i),
        forall|i: int| 0 <= i < 8 * s.len() && i != k ==> bit_at(s.update(k / 8, s[k / 8] | bit_mask(k)), i) == #[trigger] bit_at(s, i),
        forall|i: int| 0 <= i < 8 * s.len() && i != k ==> bit_at(s.update(k / 8, s[k / 8] & !bit_mask(k)), i) == #[trigger] bit_at(s, i),
{
    let a = s.update(k / 8, s[k / 8] | bit_mask(k));
    let b = s.update(k / 8, s[k / 8] & !bit_mask(k));
    assert forall|i: int| 0 <= i < 8 * s.len() implies #[trigger] bit_at(a, i) == (i == k || bit_at(s, i)) by {
        lemma_bit_set(s[k / 8], (k % 8) as u8, (i % 8) as u8);
    }
    assert forall|i: int| 0 <= i < 8 * s.len() implies #[trigger] bit_at(b, i) == (i != k && bit_at(s, i)) by {
        lemma_bit_set(s[k / 8], (k % 8) as u8, (i % 8) as u8);
    }
}
%type NullBitmap
%fn NullBitmap::offset
    ensures r == bitmap_off(CLIENT_SIDE)
%fn NullBitmap::bitmap_len
    requires num_columns <= usize::MAX - 9
    ensures r == bitmap_size(CLIENT_SIDE, num_columns as int)
%fn NullBitmap::byte_and_bit
    requires column_index <= usize::MAX - 2, (column_index + bitmap_off(CLIENT_SIDE)) / 8 < self.0.vx_bytes().len()
    ensures r.0 == (column_index + bitmap_off(CLIENT_SIDE)) / 8, r.1 == 1u8 << (((column_index + bitmap_off(CLIENT_SIDE)) % 8) as u8)
%fn NullBitmap::is_null
    requires column_index <= usize::MAX - 2, (column_index + bitmap_off(CLIENT_SIDE)) / 8 < self.0.vx_bytes().len()
    ensures r == bit_at(self.0.vx_bytes(), column_index + bitmap_off(CLIENT_SIDE))
%fn NullBitmap::len
    ensures r == self.0.vx_bytes().len()
%fn NullBitmap::from_bytes
    ensures r.0 == bytes
%fn NullBitmap::into_bytes
    ensures r == self.0
%fn NullBitmap::new
    requires num_columns <= usize::MAX - 9
    ensures r.0@ == Seq::new(bitmap_size(CLIENT_SIDE, num_columns as int) as nat, |i: int| 0u8)
%fn NullBitmap::set
    requires column_index <= usize::MAX - 2, (column_index + bitmap_off(CLIENT_SIDE)) / 8 < old(self).0.vx_bytes().len()
    ensures
        final(self).0.vx_bytes().len() == old(self).0.vx_bytes().len(),
        bit_at(final(self).0.vx_bytes(), column_index + bitmap_off(CLIENT_SIDE)) == is_null,
        forall|i: int| #![trigger bit_at(final(self).0.vx_bytes(), i)] #![trigger bit_at(old(self).0.vx_bytes(), i)]
            0 <= i < 8 * old(self).0.vx_bytes().len() && i != column_index + bitmap_off(CLIENT_SIDE) ==> bit_at(final(self).0.vx_bytes(), i) == bit_at(old(self).0.vx_bytes(), i),
%rw self.0.as_mut() => self.0.vx_bytes_mut()
%at entry
    proof { lemma_bits(self.0.vx_bytes(), column_index + bitmap_off(CLIENT_SIDE)); }
%impl <NullBitmap<CLIENT_SIDE,Vec<u8>> as Deserialize>
    /// Any number of columns that exist in memory.
    open spec fn de_pre(ctx: usize, before: Seq<u8>) -> bool { ctx <= usize::MAX - 9 }
    open spec fn de(ctx: usize, before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        {
            let n = bitmap_size(CLIENT_SIDE, ctx as int);
            &&& r is Ok <==> before.len() >= n
            &&& r is Ok ==> r->Ok_0.0@ == before.take(n) && took(before, after, n as nat)
        }
    }
%fn <NullBitmap<CLIENT_SIDE,Vec<u8>> as Deserialize>::deserialize
%raw
#[verifier::external_body]
pub proof fn ax_columns_len(s: &[Column])
    ensures s@.len() <= isize::MAX / 2
{ }
pub open spec fn col_unsigned(c: Column) -> bool { c.flags.has(ColumnFlags::UNSIGNED_FLAG) }
/// The bytes in front of column `i` of a binary row, or None when a column before it is cut short.
pub open spec fn bin_at(bitmap: Seq<u8>, s: Seq<u8>, cols: Seq<Column>, i: nat) -> Option<Seq<u8>>
    decreases i
{
    if i == 0 { Some(s) } else {
        match bin_at(bitmap, s, cols, (i - 1) as nat) {
            Some(t) => {
                let c = cols[i - 1];
                if bit_at(bitmap, i - 1 + 2) { Some(t) }
                else if bin_whole(c.vx_type, t) { Some(t.skip(bin_size(c.vx_type, t) as int)) }
                else { None }
            }
            None => None,
        }
    }
}
pub open spec fn bin_row_bitmap(packet: Seq<u8>, n: int) -> Seq<u8> { packet.subrange(1, 1 + bitmap_size(false, n)) }
pub open spec fn bin_row_body(packet: Seq<u8>, n: int) -> Seq<u8> { packet.skip(1 + bitmap_size(false, n)) }
/// The packet holds a whole row.
pub open spec fn bin_row_whole(packet: Seq<u8>, cols: Seq<Column>) -> bool {
    packet.len() >= 1 + bitmap_size(false, cols.len() as int)
        && bin_at(bin_row_bitmap(packet, cols.len() as int), bin_row_body(packet, cols.len() as int), cols, cols.len()) is Some
}
/// `v` is the row.
pub open spec fn bin_row(packet: Seq<u8>, cols: Seq<Column>, v: Seq<Value>) -> bool {
    let n = cols.len() as int;
    v.len() == n && forall|i: int| 0 <= i < n ==> bin_cell(bin_row_bitmap(packet, n), bin_row_body(packet, n), cols, i, #[trigger] v[i])
}
pub open spec fn bin_cell(bitmap: Seq<u8>, s: Seq<u8>, cols: Seq<Column>, i: int, v: Value) -> bool {
    if bit_at(bitmap, i + 2) { v is Null } else {
        bin_at(bitmap, s, cols, i as nat) matches Some(t) && bin_reads(cols[i].vx_type, col_unsigned(cols[i]), t, v)
    }
}
proof fn lemma_bin_at_none(bitmap: Seq<u8>, s: Seq<u8>, cols: Seq<Column>, i: nat, n: nat)
    requires i <= n, bin_at(bitmap, s, cols, i) is None
    ensures bin_at(bitmap, s, cols, n) is None
    decreases n
{
    if i < n { lemma_bin_at_none(bitmap, s, cols, i, (n - 1) as nat); }
}
%type BinaryProtocol
%impl <BinaryProtocol as Protocol>
    open spec fn row(packet: Seq<u8>, columns: Seq<Column>, r: Result<Vec<Value>, ProtocolError>) -> bool {
        &&& r is Ok <==> bin_row_whole(packet, columns)
        &&& r is Ok ==> bin_row(packet, columns, r->Ok_0@)
    }
%fn <BinaryProtocol as Protocol>::read_result_set_row
%attr #[verifier::loop_isolation(false)]
%at entry
    broadcast use {vx_lemmas::bc_skip_skip};
    proof { ax_columns_len(columns); }
%at loop 0 before
    let ghost bm = bin_row_bitmap(packet@, columns@.len() as int);
    let ghost body = bin_row_body(packet@, columns@.len() as int);
    proof { assert(bitmap.0@ =~= bm); assert(buf.0@ =~= body); }
%loop 0
    invariant
        values@.len() == i,
        bin_at(bm, body, columns@, i as nat) == Some(buf.0@),
        forall|j: int| 0 <= j < i ==> bin_cell(bm, body, columns@, j, #[trigger] values@[j]),
%at loop 0 start
    proof {
        if bin_at(bm, body, columns@, (i + 1) as nat) is None { lemma_bin_at_none(bm, body, columns@, (i + 1) as nat, columns@.len()); }
    }
