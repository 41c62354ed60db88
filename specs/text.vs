%# Values of the text protocol, text rows, text queries.
%use bin
%use results
%path btoi::btou => vx_btou
%path btoi::btoi => vx_btoi
%path f32::from_str => vx_f32_from_str
%path f64::from_str => vx_f64_from_str
%raw
pub struct VxParseIntegerError { x: () }
pub struct VxParseFloatError { x: () }
pub open spec fn digit(b: u8) -> bool { 0x30 <= b <= 0x39 }
pub open spec fn digits(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
/// The number a sequence of decimal digits denotes.
pub open spec fn dec(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 10 * dec(s.drop_last()) + (s.last() - 0x30) as nat }
}
pub trait VxInt: Sized {
    spec fn lo() -> int;
    spec fn hi() -> int;
    spec fn v(self) -> int;
}
impl VxInt for u8 { open spec fn lo() -> int { 0 } open spec fn hi() -> int { u8::MAX as int } open spec fn v(self) -> int { self as int } }
impl VxInt for u16 { open spec fn lo() -> int { 0 } open spec fn hi() -> int { u16::MAX as int } open spec fn v(self) -> int { self as int } }
impl VxInt for u32 { open spec fn lo() -> int { 0 } open spec fn hi() -> int { u32::MAX as int } open spec fn v(self) -> int { self as int } }
impl VxInt for u64 { open spec fn lo() -> int { 0 } open spec fn hi() -> int { u64::MAX as int } open spec fn v(self) -> int { self as int } }
impl VxInt for i8 { open spec fn lo() -> int { i8::MIN as int } open spec fn hi() -> int { i8::MAX as int } open spec fn v(self) -> int { self as int } }
impl VxInt for i16 { open spec fn lo() -> int { i16::MIN as int } open spec fn hi() -> int { i16::MAX as int } open spec fn v(self) -> int { self as int } }
impl VxInt for i32 { open spec fn lo() -> int { i32::MIN as int } open spec fn hi() -> int { i32::MAX as int } open spec fn v(self) -> int { self as int } }
impl VxInt for i64 { open spec fn lo() -> int { i64::MIN as int } open spec fn hi() -> int { i64::MAX as int } open spec fn v(self) -> int { self as int } }
/// The number a decimal text with an optional sign denotes.
pub open spec fn int_text(s: Seq<u8>) -> Option<int> {
    if digits(s) { Some(dec(s) as int) }
    else if s.len() > 0 && s[0] == 0x2b && digits(s.skip(1)) { Some(dec(s.skip(1)) as int) }
    else if s.len() > 0 && s[0] == 0x2d && digits(s.skip(1)) { Some(-(dec(s.skip(1)) as int)) }
    else { None }
}
/// The contract of the crate btoi (checked against the documentation; the crate itself is not verified here).
#[verifier::external_body]
pub fn vx_btou<T: VxInt>(s: &[u8]) -> (r: Result<T, VxParseIntegerError>)
    ensures
        r is Ok <==> digits(s@) && dec(s@) <= T::hi(),
        r is Ok ==> r->Ok_0.v() == dec(s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_btoi<T: VxInt>(s: &[u8]) -> (r: Result<T, VxParseIntegerError>)
    ensures
        r is Ok <==> int_text(s@) is Some && T::lo() <= int_text(s@)->Some_0 <= T::hi(),
        r is Ok ==> r->Ok_0.v() == int_text(s@)->Some_0,
{ unimplemented!() }
/// The float the standard library reads from a text (given by its UTF-8 bytes).
pub uninterp spec fn f32_text(s: Seq<u8>) -> Option<f32>;
pub uninterp spec fn f64_text(s: Seq<u8>) -> Option<f64>;
#[verifier::external_body]
pub fn vx_f32_from_str(s: &str) -> (r: Result<f32, VxParseFloatError>)
    ensures r is Ok <==> f32_text(vstd::utf8::encode_utf8(s@)) is Some, r is Ok ==> r->Ok_0 == f32_text(vstd::utf8::encode_utf8(s@))->Some_0
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_from_str(s: &str) -> (r: Result<f64, VxParseFloatError>)
    ensures r is Ok <==> f64_text(vstd::utf8::encode_utf8(s@)) is Some, r is Ok ==> r->Ok_0 == f64_text(vstd::utf8::encode_utf8(s@))->Some_0
{ unimplemented!() }
pub open spec fn pow10(k: nat) -> nat
    decreases k
{ if k == 0 { 1 } else { 10 * pow10((k - 1) as nat) } }
#[verifier::external_body]
pub fn vx_pow10(k: u32) -> (r: u32)
    requires k <= 9
    ensures r == pow10(k as nat)
{ 10u32.pow(k) }
pub proof fn lemma_pow10()
    ensures pow10(0) == 1, pow10(1) == 10, pow10(2) == 100, pow10(3) == 1000, pow10(4) == 10000, pow10(5) == 100000, pow10(6) == 1000000
{ reveal_with_fuel(pow10, 7); }
pub proof fn lemma_dec_bound(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i])
    ensures dec(s) < pow10(s.len())
    decreases s.len()
{
    if s.len() > 0 {
        lemma_dec_bound(s.drop_last());
        assert(digit(s[s.len() - 1]));
    }
}
pub open spec fn two(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(i, i + 2) }
/// `s` reads h…:mm:ss or h…:mm:ss.f…, `c` being where its first colon is.
pub open spec fn time_form(s: Seq<u8>, c: int) -> bool {
    &&& 0 <= c && s.len() >= c + 6 && s[c] == 0x3a && s[c + 3] == 0x3a
    &&& digits(s.take(c)) && digits(two(s, c + 1)) && digits(two(s, c + 4))
    &&& s.len() > c + 6 ==> s[c + 6] == 0x2e && digits(s.skip(c + 7)) && s.len() <= c + 13
}
pub open spec fn time_fields(s: Seq<u8>, c: int, d: u32, h: u8, m: u8, x: u8, u: u32) -> bool {
    &&& h < 24 && d * 24 + h == dec(s.take(c))
    &&& m == dec(two(s, c + 1)) && x == dec(two(s, c + 4))
    &&& u == (if s.len() > c + 6 { dec(s.skip(c + 7)) * pow10((c + 13 - s.len()) as nat) } else { 0 })
}
/// The time of day or span that a text denotes.
pub open spec fn time_reads(s: Seq<u8>, d: u32, h: u8, m: u8, x: u8, u: u32) -> bool {
    exists|c: int| #[trigger] time_form(s, c) && time_fields(s, c, d, h, m, x, u)
}
/// Whether a text surely denotes one.
pub open spec fn time_good(s: Seq<u8>) -> bool {
    exists|c: int| #[trigger] time_form(s, c) && dec(s.take(c)) <= u32::MAX && dec(two(s, c + 1)) < 60 && dec(two(s, c + 4)) < 60
}
pub open spec fn date_form(s: Seq<u8>) -> bool {
    s.len() == 10 && s[4] == 0x2d && s[7] == 0x2d && digits(s.take(4)) && digits(two(s, 5)) && digits(two(s, 8))
}
pub open spec fn date_reads(s: Seq<u8>, y: u16, m: u8, d: u8) -> bool {
    date_form(s) && y == dec(s.take(4)) && m == dec(two(s, 5)) && d == dec(two(s, 8))
}
pub open spec fn date_good(s: Seq<u8>) -> bool { date_form(s) && dec(two(s, 5)) <= 12 && dec(two(s, 8)) <= 31 }
pub open spec fn unsigned_time(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s[0] == 0x2d { s.skip(1) } else { s } }
/// `v` is the value of type `t` that the text denotes.
pub open spec fn text_reads(t: ColumnType, unsigned: bool, s: Seq<u8>, v: Value) -> bool {
    match t {
        ColumnType::Tiny => if unsigned { v is UTiny && digits(s) && v->UTiny_0 == dec(s) } else { v is Tiny && int_text(s) == Some(v->Tiny_0 as int) },
        ColumnType::Short | ColumnType::Year => if unsigned { v is UShort && digits(s) && v->UShort_0 == dec(s) } else { v is Short && int_text(s) == Some(v->Short_0 as int) },
        ColumnType::Long | ColumnType::Int24 => if unsigned { v is UInt && digits(s) && v->UInt_0 == dec(s) } else { v is Int && int_text(s) == Some(v->Int_0 as int) },
        ColumnType::LongLong => if unsigned { v is ULong && digits(s) && v->ULong_0 == dec(s) } else { v is Long && int_text(s) == Some(v->Long_0 as int) },
        ColumnType::Float => v is Float && f32_text(s) == Some(v->Float_0),
        ColumnType::Double => v is Double && f64_text(s) == Some(v->Double_0),
        ColumnType::Date => v matches Value::Date(y, m, d) && date_reads(s, y, m, d),
        ColumnType::Timestamp | ColumnType::Datetime => v matches Value::Datetime(y, m, d, h, i, x, u)
            && s.len() >= 19 && s[10] == 0x20 && date_reads(s.take(10), y, m, d) && time_reads(s.skip(11), 0, h, i, x, u),
        ColumnType::Time => v matches Value::Time(n, d, h, i, x, u)
            && (n <==> s.len() > 0 && s[0] == 0x2d) && time_reads(unsigned_time(s), d, h, i, x, u),
        _ => is_bytes_type(t) && v is Bytes && v->Bytes_0@ == s,
    }
}
/// Texts that must be read: the ones a server writes.
pub open spec fn text_good(t: ColumnType, unsigned: bool, s: Seq<u8>) -> bool {
    match t {
        ColumnType::Tiny => if unsigned { digits(s) && dec(s) <= u8::MAX } else { int_text(s) is Some && i8::MIN <= int_text(s)->Some_0 <= i8::MAX },
        ColumnType::Short | ColumnType::Year => if unsigned { digits(s) && dec(s) <= u16::MAX } else { int_text(s) is Some && i16::MIN <= int_text(s)->Some_0 <= i16::MAX },
        ColumnType::Long | ColumnType::Int24 => if unsigned { digits(s) && dec(s) <= u32::MAX } else { int_text(s) is Some && i32::MIN <= int_text(s)->Some_0 <= i32::MAX },
        ColumnType::LongLong => if unsigned { digits(s) && dec(s) <= u64::MAX } else { int_text(s) is Some && i64::MIN <= int_text(s)->Some_0 <= i64::MAX },
        ColumnType::Float => vstd::utf8::valid_utf8(s) && f32_text(s) is Some,
        ColumnType::Double => vstd::utf8::valid_utf8(s) && f64_text(s) is Some,
        ColumnType::Date => date_good(s),
        ColumnType::Timestamp | ColumnType::Datetime => s.len() >= 19 && s[10] == 0x20 && date_good(s.take(10)) && time_good(s.skip(11)) && s[13] == 0x3a && dec(s.subrange(11, 13)) < 24,
        ColumnType::Time => time_good(unsigned_time(s)),
        _ => is_bytes_type(t),
    }
}
/// The cell at the front of `s`: its size, or none.
pub open spec fn cell_whole(s: Seq<u8>) -> bool { s.len() > 0 && (s[0] == 0xfb || ls_ok(s)) }
pub open spec fn cell_size(s: Seq<u8>) -> nat { if s[0] == 0xfb { 1 } else { ls_len(s) } }
pub open spec fn cell_reads(t: ColumnType, unsigned: bool, s: Seq<u8>, v: Value) -> bool {
    if s[0] == 0xfb { v is Null } else { text_reads(t, unsigned, ls_val(s), v) }
}
pub open spec fn cell_good(t: ColumnType, unsigned: bool, s: Seq<u8>) -> bool {
    cell_whole(s) && (s[0] == 0xfb || text_good(t, unsigned, ls_val(s)))
}
pub open spec fn text_decoded(t: ColumnType, unsigned: bool, before: Seq<u8>, after: Seq<u8>, r: Result<Value, ProtocolError>) -> bool {
    &&& r is Ok ==> cell_whole(before) && cell_reads(t, unsigned, before, r->Ok_0) && took(before, after, cell_size(before))
    &&& cell_good(t, unsigned, before) ==> r is Ok
}
proof fn lemma_scale(d: nat, k: nat)
    requires 1 <= k <= 6, d < pow10(k)
    ensures d * pow10((6 - k) as nat) < 1000000
{
    lemma_pow10();
    if k == 1 { assert(d * pow10(5) < 1000000); } else if k == 2 { assert(d * pow10(4) < 1000000); }
    else if k == 3 { assert(d * pow10(3) < 1000000); } else if k == 4 { assert(d * pow10(2) < 1000000); }
    else if k == 5 { assert(d * pow10(1) < 1000000); } else { assert(d * pow10(0) < 1000000); }
}
proof fn lemma_colon_unique(s: Seq<u8>, a: int, b: int)
    requires time_form(s, a), time_form(s, b)
    ensures a == b
{
    if a < b { assert(s.take(b)[a] == 0x3a); assert(digit(s.take(b)[a])); }
    if b < a { assert(s.take(a)[b] == 0x3a); assert(digit(s.take(a)[b])); }
}
pub open spec fn first_colon_at(s: Seq<u8>, f: int) -> bool { 0 <= f < s.len() && s[f] == 0x3a && forall|j: int| 0 <= j < f ==> s[j] != 0x3a }
proof fn lemma_first_colon(s: Seq<u8>, c: int, f: int)
    requires time_form(s, c), 0 <= f < s.len(), s[f] == 0x3a, forall|j: int| 0 <= j < f ==> s[j] != 0x3a
    ensures c == f
{
    if f < c { assert(s.take(c)[f] == 0x3a); assert(digit(s.take(c)[f])); }
}
%fn Value::deserialize_time_text_inner
    ensures
        r is Ok ==> time_reads(value@, r->Ok_0.0, r->Ok_0.1, r->Ok_0.2, r->Ok_0.3, r->Ok_0.4),
        time_good(value@) ==> r is Ok
%rw value.iter().position(|x| *x == b':') => vx_position(value, b':')
%rw 10u32.pow(6 - buf.len() as u32) => vx_pow10(6 - buf.len() as u32)
%at entry
    proof {
        ax_slice_len(value); lemma_pow10();
        assert forall|c: int| #[trigger] time_form(value@, c) implies dec(two(value@, c + 1)) < 100 && dec(two(value@, c + 4)) < 100 by {
            lemma_dec_bound(two(value@, c + 1)); lemma_dec_bound(two(value@, c + 4));
        }
        assert forall|c: int, f: int| #[trigger] time_form(value@, c) && #[trigger] first_colon_at(value@, f) implies c == f by {
            lemma_first_colon(value@, c, f);
        }
        assert forall|c: int| #[trigger] time_form(value@, c) && value@.len() > c + 6 implies dec(value@.skip(c + 7)) < pow10((value@.len() - c - 7) as nat) by {
            lemma_dec_bound(value@.skip(c + 7));
        }
    }
%at let first_colon
    proof { assert(first_colon_at(value@, first_colon as int)); }
%at let buf
    proof { assert(buf@ =~= value@.skip(first_colon + 7)); if digits(buf@) { lemma_dec_bound(buf@); } }
%at before call vx_pow10
    proof { lemma_scale(microseconds as nat, buf@.len()); }
%at tail
    proof {
        assert(time_form(value@, first_colon as int));
        assert(time_fields(value@, first_colon as int, hours / 24, (hours % 24) as u8, minutes, seconds, microseconds));
    }
%fn Value::deserialize_date_text_inner
    ensures
        r is Ok ==> date_reads(value@, r->Ok_0.0, r->Ok_0.1, r->Ok_0.2),
        date_good(value@) ==> r is Ok
%at entry
    proof {
        lemma_pow10();
        if date_form(value@) { lemma_dec_bound(value@.take(4)); lemma_dec_bound(two(value@, 5)); lemma_dec_bound(two(value@, 8)); }
    }
%fn Value::deserialize_time_text
    ensures
        r is Ok ==> text_reads(ColumnType::Time, false, value@, r->Ok_0),
        text_good(ColumnType::Time, false, value@) ==> r is Ok
%fn Value::deserialize_date_text
    ensures
        r is Ok ==> text_reads(ColumnType::Date, false, value@, r->Ok_0),
        text_good(ColumnType::Date, false, value@) ==> r is Ok
%fn Value::deserialize_datetime_text
    ensures
        r is Ok ==> text_reads(ColumnType::Datetime, false, value@, r->Ok_0),
        text_good(ColumnType::Datetime, false, value@) ==> r is Ok
%at entry
    proof {
        let t = value@.skip(11);
        if text_good(ColumnType::Datetime, false, value@) {
            let c = choose|c: int| #[trigger] time_form(t, c) && dec(t.take(c)) <= u32::MAX && dec(two(t, c + 1)) < 60 && dec(two(t, c + 4)) < 60;
            assert(t[2] == value@[13]);
            if c < 2 { assert(t[c] == 0x3a); assert(t[c + 3] == 0x3a); assert(digit(two(t, c + 1)[1 - c])); }
            if c > 2 { assert(digit(t.take(c)[2])); }
            assert(t.take(2) =~= value@.subrange(11, 13));
            assert forall|k: int| #[trigger] time_form(t, k) implies k == 2 by { lemma_colon_unique(t, k, c); }
        }
    }
%fn Value::deserialize_text
    ensures text_decoded(column_type, column_flags.has(ColumnFlags::UNSIGNED_FLAG), old(buf).0@, final(buf).0@, r)

%raw
pub open spec fn unsigned_column(c: Column) -> bool { c.flags.has(ColumnFlags::UNSIGNED_FLAG) }
/// The bytes in front of column `i` of a text row, or None when a column before it is cut short.
pub open spec fn text_at(s: Seq<u8>, i: nat) -> Option<Seq<u8>>
    decreases i
{
    if i == 0 { Some(s) } else {
        match text_at(s, (i - 1) as nat) {
            Some(t) => if cell_whole(t) { Some(t.skip(cell_size(t) as int)) } else { None },
            None => None,
        }
    }
}
pub open spec fn text_cell(s: Seq<u8>, cols: Seq<Column>, i: int, v: Value) -> bool {
    text_at(s, i as nat) matches Some(t) && cell_whole(t) && cell_reads(cols[i].vx_type, unsigned_column(cols[i]), t, v)
}
/// `v` is the row.
pub open spec fn text_row(s: Seq<u8>, cols: Seq<Column>, v: Seq<Value>) -> bool {
    v.len() == cols.len() && forall|i: int| 0 <= i < cols.len() ==> text_cell(s, cols, i, #[trigger] v[i])
}
/// A row that must be read.
pub open spec fn text_row_good(s: Seq<u8>, cols: Seq<Column>) -> bool {
    forall|i: int| 0 <= i < cols.len() ==> (text_at(s, i as nat) matches Some(t) && cell_good((#[trigger] cols[i]).vx_type, unsigned_column(cols[i]), t))
}
%type TextProtocol
%impl <TextProtocol as Protocol>
    open spec fn row(packet: Seq<u8>, columns: Seq<Column>, r: Result<Vec<Value>, ProtocolError>) -> bool {
        &&& r is Ok ==> text_row(packet, columns, r->Ok_0@)
        &&& text_row_good(packet, columns) ==> r is Ok
    }
%fn <TextProtocol as Protocol>::read_result_set_row
%attr #[verifier::loop_isolation(false)]
%at entry
    proof { ax_columns_len(columns); }
%loop 0
    invariant
        values@.len() == it0.index@,
        text_at(packet@, it0.index@ as nat) == Some(buf.0@),
        forall|j: int| 0 <= j < it0.index@ ==> text_cell(packet@, columns@, j, #[trigger] values@[j]),
%at loop 0 start
    proof { assert(columns@[it0.index@] == *column); assert(text_at(packet@, (it0.index@ + 1) as nat) == text_at(packet@, (it0.index@ + 1) as nat)); }
%raw
/// The packet was written, or a part of it, or nothing.
pub open spec fn said_at_most(a: Connection, b: Connection, p: Seq<u8>) -> bool {
    is_prefix(a.stream.out(), b.stream.out()) && is_prefix(b.stream.out(), a.stream.out() + frames(p, 0))
}
pub proof fn lemma_said(a: Connection, b: Connection, p: Seq<u8>)
    ensures
        command_sent(a, b, p) ==> said_at_most(a, b, p),
        command_partly_sent(a, b, p) ==> said_at_most(a, b, p),
{
    let f = a.stream.out() + frames(p, 0);
    assert(f.take(a.stream.out().len() as int) =~= a.stream.out());
    assert(f.take(f.len() as int) =~= f);
    assert(a.stream.out().take(a.stream.out().len() as int) =~= a.stream.out());
}
%fn Connection::query
    ensures
        r is Ok ==> exists|m: Connection| #[trigger] commanded(*old(self), m, seq![3u8] + vstd::utf8::encode_utf8(query@)) && set_read::<TextProtocol, R>(m, r->Ok_0)
            && same_but_io(*old(self), *r->Ok_0.conn) && r->Ok_0.conn.stream.out() == m.stream.out() && *final(r->Ok_0.conn) == *final(self),
        r is Err && r->Err_0 is Server ==> exists|m: Connection| #[trigger] commanded(*old(self), m, seq![3u8] + vstd::utf8::encode_utf8(query@)) && server_error(m, *final(self), r->Err_0),
        r is Err ==> same_but_io(*old(self), *final(self)) && said_at_most(*old(self), *final(self), seq![3u8] + vstd::utf8::encode_utf8(query@)),
%at entry
    proof { assert forall|b: Connection| #[trigger] command_partly_sent(*self, b, seq![3u8] + vstd::utf8::encode_utf8(query@)) implies said_at_most(*self, b, seq![3u8] + vstd::utf8::encode_utf8(query@)) by { lemma_said(*self, b, seq![3u8] + vstd::utf8::encode_utf8(query@)); } }
%at after call execute_command
    let ghost m = *self;
    proof { assert(commanded(*old(self), m, seq![3u8] + vstd::utf8::encode_utf8(query@))); lemma_said(*old(self), m, seq![3u8] + vstd::utf8::encode_utf8(query@)); }
