%# Hex text.
%use fmt
%use errors
%use io
%path hex::encode => vx_hex_encode
%path hex::decode => vx_hex_decode
%path hex::FromHexError => VxFromHexError
%type Hex
%raw
#[verifier::external_body]
pub struct VxFromHexError { x: () }
pub open spec fn hex_digit(n: int) -> u8 { if n < 10 { (0x30 + n) as u8 } else { (0x57 + n) as u8 } }
/// What one hex digit of either case stands for.
pub open spec fn nibble(b: u8) -> Option<int> {
    if 0x30 <= b <= 0x39 { Some(b - 0x30) } else if 0x61 <= b <= 0x66 { Some(b - 0x57) } else if 0x41 <= b <= 0x46 { Some(b - 0x37) } else { None }
}
/// Two lower-case digits per byte.
#[verifier::opaque]
pub open spec fn hex_of(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { s } else { hex_of(s.drop_last()).push(hex_digit((s.last() / 16) as int)).push(hex_digit((s.last() % 16) as int)) } }
/// The bytes a hex text of either case denotes.
#[verifier::opaque]
pub open spec fn unhex(s: Seq<u8>) -> Option<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { Some(s) } else if s.len() == 1 { None }
    else { match (unhex(s.take(s.len() - 2)), nibble(s[s.len() - 2]), nibble(s.last())) {
        (Some(t), Some(h), Some(l)) => Some(t.push((16 * h + l) as u8)),
        _ => None,
    } }
}
/// Hex text with or without one of its prefixes.
pub open spec fn unhex_text(s: Seq<u8>) -> Option<Seq<u8>> {
    if s.len() >= 2 && s[0] == 0x30 && (s[1] == 0x78 || s[1] == 0x58) { unhex(s.skip(2)) } else { unhex(s) }
}
pub proof fn lemma_hex(s: Seq<u8>)
    ensures unhex(hex_of(s)) == Some(s), hex_of(s).len() == 2 * s.len()
    decreases s.len()
{
    reveal(hex_of); reveal(unhex);
    if s.len() > 0 {
        lemma_hex(s.drop_last());
        let t = hex_of(s);
        assert(t.take(t.len() - 2) =~= hex_of(s.drop_last()));
        assert(s.drop_last().push(s.last()) =~= s);
        let b = s.last();
        assert(16 * (b / 16) + b % 16 == b);
    } else { assert(hex_of(s) =~= s); }
}
/// What is printed reads back, with its prefix and without.
pub proof fn lemma_hex_text(s: Seq<u8>)
    ensures unhex_text(seq![0x30u8, 0x78] + hex_of(s)) == Some(s), unhex_text(seq![0x30u8, 0x58] + hex_of(s)) == Some(s), unhex_text(hex_of(s)) == Some(s)
{
    lemma_hex(s);
    assert((seq![0x30u8, 0x78] + hex_of(s)).skip(2) =~= hex_of(s));
    assert((seq![0x30u8, 0x58] + hex_of(s)).skip(2) =~= hex_of(s));
    lemma_hex_digits(s);
}
pub proof fn lemma_hex_digits(s: Seq<u8>)
    ensures forall|i: int| 0 <= i < hex_of(s).len() ==> nibble(#[trigger] hex_of(s)[i]) is Some
    decreases s.len()
{ reveal(hex_of); if s.len() > 0 { lemma_hex_digits(s.drop_last()); } }
/// The crate `hex` (assumed from its documentation).
#[verifier::external_body]
pub fn vx_hex_encode(b: &Vec<u8>) -> (r: String)
    ensures vstd::utf8::encode_utf8(r@) == hex_of(b@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_hex_decode<T: VxBytes>(s: T) -> (r: Result<Vec<u8>, VxFromHexError>)
    ensures r is Ok <==> unhex(s.vx_bytes()) is Some, r is Ok ==> r->Ok_0@ == unhex(s.vx_bytes())->Some_0
{ unimplemented!() }
impl Display for String {
    open spec fn prints(&self, t: Seq<char>) -> bool { t == self@ }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VxFmt<'_>) -> (r: VxFmtResult)
    { unimplemented!() }
}
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
/// Slicing off the front of a text needs the position to be between two characters.
#[verifier::external_body]
pub fn vx_str_from(s: &str, n: usize) -> (r: &str)
    requires n <= utf8(s@).len(), vstd::utf8::valid_utf8(utf8(s@).take(n as int))
    ensures utf8(r@) == utf8(s@).skip(n as int)
{ &s[n..] }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool)
    ensures r == utf8(p@).is_prefix_of(utf8(s@))
{ s.starts_with(p) }
pub proof fn lemma_prefix()
    ensures utf8("0x"@) == seq![0x30u8, 0x78], utf8("0X"@) == seq![0x30u8, 0x58],
        vstd::utf8::valid_utf8(seq![0x30u8, 0x78]), vstd::utf8::valid_utf8(seq![0x30u8, 0x58]),
{
    reveal_strlit("0x"); reveal_strlit("0X");
    vstd::utf8::is_ascii_chars_encode_utf8("0x"@);
    vstd::utf8::is_ascii_chars_encode_utf8("0X"@);
    assert(utf8("0x"@) =~= seq![0x30u8, 0x78]);
    assert(utf8("0X"@) =~= seq![0x30u8, 0x58]);
    vstd::utf8::encode_utf8_valid_utf8("0x"@);
    vstd::utf8::encode_utf8_valid_utf8("0X"@);
}
%fn Hex::new
    ensures r.0@ == bytes@
%fn Hex::into_bytes
    ensures r@ == self.0@
%fn Hex::try_from_hex
    ensures r is Ok <==> unhex_text(data.vx_bytes()) is Some, r is Ok ==> r->Ok_0.0@ == unhex_text(data.vx_bytes())->Some_0
%fn <Hex as FromStr>::from_str as vx_from_str
    ensures r is Ok <==> unhex_text(utf8(s@)) is Some, r is Ok ==> r->Ok_0.0@ == unhex_text(utf8(s@))->Some_0
%rw s.starts_with("0x") => vx_starts_with(s, "0x")
%rw s.starts_with("0X") => vx_starts_with(s, "0X")
%rw &s[2..] => vx_str_from(s, 2)
%at entry
    proof {
        lemma_prefix();
        if utf8("0x"@).is_prefix_of(utf8(s@)) { assert(utf8(s@).take(2) =~= utf8("0x"@)); assert(utf8(s@)[1] == utf8("0x"@)[1]); }
        if utf8("0X"@).is_prefix_of(utf8(s@)) { assert(utf8(s@).take(2) =~= utf8("0X"@)); assert(utf8(s@)[1] == utf8("0X"@)[1]); }
        if utf8(s@).len() >= 2 && utf8(s@)[0] == 0x30 && utf8(s@)[1] == 0x78 { assert(utf8(s@).take(2) =~= utf8("0x"@)); }
        if utf8(s@).len() >= 2 && utf8(s@)[0] == 0x30 && utf8(s@)[1] == 0x58 { assert(utf8(s@).take(2) =~= utf8("0X"@)); }
    }
%impl <Hex as Display>
    open spec fn prints(&self, t: Seq<char>) -> bool { utf8(t) == seq![0x30u8, 0x78] + hex_of(self.0@) }
%fn <Hex as Display>::fmt
%at entry
    proof { lemma_prefix(); }
%at tail
    let ghost o1 = f.out();
    proof {
        assert(o1 == old(f).out() + "0x"@);
        assert forall|w: Seq<char>| w.len() >= o1.len() && w.take(o1.len() as int) == o1 && utf8(#[trigger] w.skip(o1.len() as int)) == hex_of(self.0@) implies w.take(old(f).out().len() as int) == old(f).out() && w.len() >= old(f).out().len()
            && utf8(w.skip(old(f).out().len() as int)) == seq![0x30u8, 0x78] + hex_of(self.0@) by {
            let o = old(f).out();
            let t = w.skip(o1.len() as int);
            vstd::utf8::encode_utf8_concat("0x"@, t);
            assert(w =~= o1 + t);
            assert(w.skip(o.len() as int) =~= "0x"@ + t);
            assert(w.take(o.len() as int) =~= o);
        }
    }
%raw
impl FromSpecImpl<Hex> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Hex) -> Self { Value::Bytes(v.0) } }
impl FromSpecImpl<Hex> for Vec<u8> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Hex) -> Self { v.0 } }
%fn <Value as From<Hex>>::from
%fn <Vec<u8> as From<Hex>>::from
%fn <Value as TryInto<Hex>>::try_into as vx_into_hex
    ensures r is Ok <==> self is Bytes, r is Ok ==> r->Ok_0.0 == self->Bytes_0
%fn <Value as TryInto<Option<Hex>>>::try_into as vx_into_hex_opt
    ensures r is Ok <==> self is Bytes || self is Null, r is Ok ==> r->Ok_0 == match self { Value::Null => None, Value::Bytes(b) => Some(Hex(b)), _ => r->Ok_0 }
%rw x.try_into() => x.vx_into_hex()
