%# RSA-OAEP padding and key parsing.
%use scramble errors
%lpath Error => CryptError
%path BigUint => VBig
%path STANDARD => VX_STANDARD
%path Rng => VxRng
%path CryptoRng => VxAny
%type PublicKey
%type OaepPadding
%raw
/// The number whose bytes, most significant first, are `s`.
pub open spec fn be_val(s: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { 256 * be_val(s.drop_last()) + s.last() as nat } }
pub open spec fn nbits(n: nat) -> nat
    decreases n
{ if n == 0 { 0 } else { 1 + nbits(n / 2) } }
/// How many bytes the number needs.
pub open spec fn octets_of(n: nat) -> nat
    decreases n
{ if n == 0 { 0 } else { 1 + octets_of(n / 256) } }
pub open spec fn powmod(b: nat, e: nat, m: nat) -> nat { (pow(b as int, e) % (m as int)) as nat }
/// Arbitrary precision numbers (crate num, assumed).
#[verifier::external_body]
pub struct VBig { x: () }
impl VBig {
    pub uninterp spec fn n(&self) -> nat;
    #[verifier::external_body]
    pub fn from_bytes_be(b: &[u8]) -> (r: VBig) ensures r.n() == be_val(b@) { unimplemented!() }
    /// A number that fits into memory.
    #[verifier::external_body]
    pub fn bits(&self) -> (r: u64) ensures r == nbits(self.n()), r <= 0x7fff_ffff_ffff_ff00 { unimplemented!() }
    #[verifier::external_body]
    pub fn modpow(&self, e: &VBig, m: &VBig) -> (r: VBig)
        requires m.n() != 0
        ensures r.n() == powmod(self.n(), e.n(), m.n())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes_be(&self) -> (r: Vec<u8>)
        ensures be_val(r@) == self.n(), r@.len() == if self.n() == 0 { 1 } else { octets_of(self.n()) }
    { unimplemented!() }
}
pub trait VxAny {}
/// A random generator: whatever it gives.
pub trait VxRng {
    fn gen(&mut self) -> u8;
}
/// Standard base64 (crate base64, assumed to be a function).
pub uninterp spec fn unb64(s: Seq<u8>) -> Option<Seq<u8>>;
pub struct VxB64 {}
#[verifier::external_body]
pub struct VxB64Error { x: () }
pub exec const VX_STANDARD: VxB64 ensures true { VxB64 {} }
impl VxB64 {
    #[verifier::external_body]
    pub fn decode(&self, s: &[u8]) -> (r: Result<Vec<u8>, VxB64Error>)
        ensures r is Ok <==> unb64(s@) is Some, r is Ok ==> r->Ok_0@ == unb64(s@)->Some_0
    { unimplemented!() }
}
pub open spec fn not_in(x: Seq<u8>) -> spec_fn(u8) -> bool { |b: u8| !x.contains(b) }
#[verifier::external_body]
pub fn vx_filter_out(s: &[u8], x: &[u8]) -> (r: Vec<u8>)
    ensures r@ == s@.filter(not_in(x@))
{ unimplemented!() }
pub proof fn lemma_be_val_zeros(k: nat, s: Seq<u8>)
    ensures be_val(Seq::new(k, |i: int| 0u8) + s) == be_val(s)
    decreases s.len() + k
{
    let z = Seq::new(k, |i: int| 0u8);
    if s.len() > 0 {
        assert((z + s).drop_last() =~= z + s.drop_last());
        lemma_be_val_zeros(k, s.drop_last());
    } else if k > 0 {
        assert(z + s =~= z);
        assert(z.drop_last() =~= Seq::new((k - 1) as nat, |i: int| 0u8));
        lemma_be_val_zeros((k - 1) as nat, s);
        assert(Seq::new((k - 1) as nat, |i: int| 0u8) + s =~= z.drop_last());
    }
}
pub proof fn lemma_be_le(s: Seq<u8>)
    ensures be_val(s) == le_val(s.reverse())
    decreases s.len()
{
    reveal(le_val);
    if s.len() > 0 {
        lemma_be_le(s.drop_last());
        assert(s.reverse().drop_first() =~= s.drop_last().reverse());
    }
}
pub proof fn lemma_be_val_bound(s: Seq<u8>)
    ensures be_val(s) < pow256(s.len())
    decreases s.len()
{ if s.len() > 0 { lemma_be_val_bound(s.drop_last()); } }
pub proof fn lemma_octets(n: nat)
    ensures octets_of(n) == (nbits(n) + 7) / 8
    decreases n
{
    reveal_with_fuel(nbits, 9);
    if n >= 256 {
        lemma_octets(n / 256);
        assert(n / 2 / 2 / 2 / 2 / 2 / 2 / 2 / 2 == n / 256);
        assert(nbits(n) == 8 + nbits(n / 256));
    } else if n > 0 { assert(octets_of(n / 256) == 0); }
}
pub proof fn lemma_octets_mono(a: nat, b: nat)
    requires a <= b
    ensures octets_of(a) <= octets_of(b)
    decreases b
{ if a > 0 { lemma_octets_mono(a / 256, b / 256); } }

// DER
/// A length and what follows it.
pub open spec fn der_len(s: Seq<u8>) -> Option<(nat, Seq<u8>)> {
    if s.len() == 0 { None }
    else if s[0] < 0x80 { Some((s[0] as nat, s.skip(1))) }
    else {
        let l = s[0] - 0x80;
        if l > 8 || s.len() <= l { None } else { Some((be_val(s.subrange(1, 1 + l)), s.skip(1 + l))) }
    }
}
/// The content of an element of this type and what follows it.
#[verifier::opaque]
pub open spec fn der_tlv(tag: u8, s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    if s.len() == 0 || s[0] != tag { None } else {
        match der_len(s.skip(1)) {
            None => None,
            Some((n, t)) => if t.len() < n { None } else { Some((t.take(n as int), t.skip(n as int))) }
        }
    }
}
pub open spec fn pkcs1(s: Seq<u8>) -> Option<(nat, nat)> {
    match der_tlv(0x30, s) {
        None => None,
        Some((body, _)) => match der_tlv(0x02, body) {
            None => None,
            Some((m, rest)) => match der_tlv(0x02, rest) {
                None => None,
                Some((e, _)) => Some((be_val(m), be_val(e))),
            }
        }
    }
}
pub open spec fn pkcs8(s: Seq<u8>) -> Option<(nat, nat)> {
    match der_tlv(0x30, s) {
        None => None,
        Some((body, _)) => match der_tlv(0x30, body) {
            None => None,
            Some((_, rest)) => match der_tlv(0x03, rest) {
                None => None,
                Some((bits, _)) => if bits.len() == 0 || bits[0] != 0 { None } else { pkcs1(bits.skip(1)) }
            }
        }
    }
}
pub open spec fn is_space(b: u8) -> bool { b == 0x20 || b == 0x0a || b == 0x09 || b == 0x0d || b == 0x0b || b == 0x0c }
pub open spec fn not_space() -> spec_fn(u8) -> bool { |b: u8| !is_space(b) }
pub open spec fn wrapped(a: Seq<u8>, s: Seq<u8>, b: Seq<u8>) -> bool {
    s.len() >= a.len() + b.len() && s.take(a.len() as int) == a && s.skip(s.len() - b.len()) == b
}
pub proof fn lemma_wrapped(a: Seq<u8>, s: Seq<u8>, b: Seq<u8>)
    ensures wrapped(a, s, b) <==> s.len() >= a.len() + b.len() && a.is_prefix_of(s) && b.is_suffix_of(s)
{
    if s.len() >= a.len() + b.len() {
        assert(s.take(a.len() as int) =~= s.subrange(0, a.len() as int));
        assert(s.skip(s.len() - b.len()) =~= s.subrange(s.len() - b.len(), s.len() as int));
        if wrapped(a, s, b) { assert(a.is_prefix_of(s)); assert(b.is_suffix_of(s)); }
    }
}
pub open spec fn begin1() -> Seq<u8> { seq![45u8, 45, 45, 45, 45, 66, 69, 71, 73, 78, 82, 83, 65, 80, 85, 66, 76, 73, 67, 75, 69, 89, 45, 45, 45, 45, 45] }
pub open spec fn end1() -> Seq<u8> { seq![45u8, 45, 45, 45, 45, 69, 78, 68, 82, 83, 65, 80, 85, 66, 76, 73, 67, 75, 69, 89, 45, 45, 45, 45, 45] }
pub open spec fn begin8() -> Seq<u8> { seq![45u8, 45, 45, 45, 45, 66, 69, 71, 73, 78, 80, 85, 66, 76, 73, 67, 75, 69, 89, 45, 45, 45, 45, 45] }
pub open spec fn end8() -> Seq<u8> { seq![45u8, 45, 45, 45, 45, 69, 78, 68, 80, 85, 66, 76, 73, 67, 75, 69, 89, 45, 45, 45, 45, 45] }
pub open spec fn pem_key(text: Seq<u8>) -> Option<(nat, nat)> {
    let s = text.filter(not_space());
    if wrapped(begin1(), s, end1()) {
        match unb64(s.subrange(27, s.len() - 25)) { None => None, Some(d) => pkcs1(d) }
    } else if wrapped(begin8(), s, end8()) {
        match unb64(s.subrange(24, s.len() - 22)) { None => None, Some(d) => pkcs8(d) }
    } else { None }
}
impl PublicKey {
    pub open spec fn key(&self) -> (nat, nat) { (self.modulus.n(), self.exponent.n()) }
}
pub open spec fn opt_u8x(x: Option<(Seq<u8>, Seq<u8>)>) -> Option<(nat, Seq<u8>)> { match x { None => None, Some((c, t)) => Some((be_val(c), t)) } }
%fn eat_len
    ensures r is Ok <==> der_len(old(der)@) is Some, r is Ok ==> Some((r->Ok_0 as nat, final(der)@)) == der_len(old(der)@)
%at entry
    let ghost d0 = der@;
    proof {
        assert(forall|b: u8| (#[trigger] (b & 0x80) == 0x80) == (b >= 0x80)) by (bit_vector);
        assert(forall|b: u8| b >= 0x80 ==> #[trigger] (b & !0x80u8) == b - 0x80) by (bit_vector);
    }
%at before call vx_usize_from_be_bytes
    proof {
        let l = len as int;
        assert(bytes@ =~= Seq::new((8 - l) as nat, |i: int| 0u8) + d0.subrange(1, 1 + l));
        lemma_be_val_zeros((8 - l) as nat, d0.subrange(1, 1 + l));
        lemma_be_le(bytes@);
    }
%fn eat_uint
    ensures r is Ok <==> der_tlv(2, old(der)@) is Some, r is Ok ==> Some((r->Ok_0.n(), final(der)@)) == opt_u8x(der_tlv(2, old(der)@))
%at entry
    reveal(der_tlv);
%fn eat_sequence
    ensures r is Ok <==> der_tlv(0x30, old(der)@) is Some, r is Ok ==> Some((r->Ok_0@, final(der)@)) == der_tlv(0x30, old(der)@)
%at entry
    reveal(der_tlv);
%fn eat_bit_string
    ensures
        r is Ok <==> (der_tlv(3, old(der)@) matches Some(x) && x.0.len() > 0),
        r is Ok ==> Some((seq![r->Ok_0.0] + r->Ok_0.1@, final(der)@)) == der_tlv(3, old(der)@),
%at entry
    reveal(der_tlv);
    let ghost d0 = der@;
%at tail
    proof {
        let n = len as int;
        let t = der_len(d0.skip(1))->Some_0.1;
        assert(t.take(n) =~= seq![unused_bits] + bit_string@);
    }
%fn PublicKey::try_from_pkcs1
    ensures r is Ok <==> pkcs1(der@) is Some, r is Ok ==> Some(r->Ok_0.key()) == pkcs1(der@)
%fn PublicKey::try_from_pkcs8
    ensures r is Ok <==> pkcs8(der@) is Some, r is Ok ==> Some(r->Ok_0.key()) == pkcs8(der@)
%at tail
    proof { assert((seq![unused_bits] + pub_key@).skip(1) =~= pub_key@); assert((seq![unused_bits] + pub_key@)[0] == unused_bits); }
%fn PublicKey::try_from_pem
    ensures r is Ok <==> pem_key(pem@) is Some, r is Ok ==> Some(r->Ok_0.key()) == pem_key(pem@)
%at entry
    let ghost text = pem@;
    proof {
        let x = seq![0x20u8, 0x0a, 0x09, 0x0d, 0x0b, 0x0c];
        assert forall|b: u8| #[trigger] x.contains(b) == is_space(b) by {
            assert(x[0] == 0x20 && x[1] == 0x0a && x[2] == 9 && x[3] == 13 && x[4] == 11 && x[5] == 12);
        }
        assert(not_in(x) =~= not_space());
    }
%at let pem
    assert(pem@ == text.filter(not_space()));
    proof { lemma_wrapped(begin1(), pem@, end1()); lemma_wrapped(begin8(), pem@, end8()); }
    let ghost p = pem@;
    assert(PKCS1.0@ =~= begin1() && PKCS1.1@ =~= end1() && PKCS8.0@ =~= begin8() && PKCS8.1@ =~= end8());
%at tail
    assert(is_pkcs_1 ==> wrapped(begin1(), p, end1()));
    assert(!is_pkcs_1 ==> wrapped(begin8(), p, end8()));
    assert(!is_pkcs_1 ==> !wrapped(begin1(), p, end1()));
    assert(is_pkcs_1 ==> unb64(p.subrange(27, p.len() - 25)) == Some(body@));
    assert(!is_pkcs_1 ==> unb64(p.subrange(24, p.len() - 22)) == Some(body@));
%fn PublicKey::num_octets
    ensures r == octets_of(self.modulus.n())
%at entry
    proof {
        lemma_octets(self.modulus.n());
        assert(forall|x: usize| #[trigger] (x >> 3) == x / 8) by (bit_vector);
    }
%fn PublicKey::modulus
    ensures *r == self.modulus
%fn PublicKey::exponent
    ensures *r == self.exponent
%fn PublicKey::new
    ensures r.modulus == modulus, r.exponent == exponent
%raw
/// A number in four bytes, most significant first.
pub open spec fn be32(i: nat) -> Seq<u8> { le(i, 4).reverse() }
/// The first `k` blocks of the mask generation function MGF1 with SHA-1.
pub open spec fn mgf_blocks(seed: Seq<u8>, k: nat) -> Seq<u8>
    decreases k
{ if k == 0 { Seq::empty() } else { mgf_blocks(seed, (k - 1) as nat) + sha1_of(seed + be32((k - 1) as nat)) } }
pub open spec fn mgf(seed: Seq<u8>, len: nat) -> Seq<u8> { mgf_blocks(seed, (len + 19) / 20).take(len as int) }
/// SHA-1 of nothing, zeros, a one, the message.
pub open spec fn oaep_block(data: Seq<u8>, n: nat) -> Seq<u8> {
    sha1_of(Seq::empty()) + Seq::new((n - 42 - data.len()) as nat, |i: int| 0u8) + seq![1u8] + data
}
/// RFC 8017, 7.1.1, with SHA-1 and no label.
pub open spec fn oaep(seed: Seq<u8>, data: Seq<u8>, n: nat) -> Seq<u8> {
    let masked = xored(oaep_block(data, n), mgf(seed, (n - 21) as nat));
    seq![0u8] + xored(seed, mgf(masked, 20)) + masked
}
/// RFC 8017, 7.1.2.
pub open spec fn oaep_message(db: Seq<u8>) -> Option<Seq<u8>>
    decreases db.len()
{ if db.len() == 0 { None } else if db[0] == 0 { oaep_message(db.skip(1)) } else if db[0] == 1 { Some(db.skip(1)) } else { None } }
pub open spec fn oaep_decode(em: Seq<u8>) -> Option<Seq<u8>> {
    if em.len() < 42 || em[0] != 0 { None } else {
        let masked = em.skip(21);
        let seed = xored(em.subrange(1, 21), mgf(masked, 20));
        let db = xored(masked, mgf(seed, masked.len()));
        if db.take(20) != sha1_of(Seq::empty()) { None } else { oaep_message(db.skip(20)) }
    }
}
/// SHA-1 is 20 bytes long.
#[verifier::external_body]
pub broadcast proof fn ax_sha1_len(b: Seq<u8>)
    ensures #[trigger] sha1_of(b).len() == 20
{ }
pub proof fn lemma_mgf_len(seed: Seq<u8>, k: nat)
    ensures mgf_blocks(seed, k).len() == 20 * k
    decreases k
{ broadcast use ax_sha1_len; if k > 0 { lemma_mgf_len(seed, (k - 1) as nat); } }
pub proof fn lemma_xored(a: Seq<u8>, b: Seq<u8>)
    ensures xored(xored(a, b), b) == a, xored(a, b).len() == a.len()
{
    assert(forall|x: u8, y: u8| #[trigger] ((x ^ y) ^ y) == x) by (bit_vector);
    assert(xored(xored(a, b), b) =~= a);
}
pub proof fn lemma_message(k: nat, data: Seq<u8>)
    ensures oaep_message(Seq::new(k, |i: int| 0u8) + seq![1u8] + data) == Some(data)
    decreases k
{
    let s = Seq::new(k, |i: int| 0u8) + seq![1u8] + data;
    if k > 0 {
        lemma_message((k - 1) as nat, data);
        assert(s.skip(1) =~= Seq::new((k - 1) as nat, |i: int| 0u8) + seq![1u8] + data);
    } else { assert(s.skip(1) =~= data); }
}
/// Whatever the seed, the receiver gets the message back.
pub proof fn lemma_oaep(seed: Seq<u8>, data: Seq<u8>, n: nat)
    requires n >= 42 + data.len(), seed.len() == 20
    ensures oaep(seed, data, n).len() == n, oaep_decode(oaep(seed, data, n)) == Some(data)
{
    broadcast use ax_sha1_len;
    let db = oaep_block(data, n);
    let m = mgf(seed, (n - 21) as nat);
    let masked = xored(db, m);
    let ms = xored(seed, mgf(masked, 20));
    let em = oaep(seed, data, n);
    assert(db.len() == n - 21);
    lemma_xored(db, m);
    lemma_xored(seed, mgf(masked, 20));
    assert(em.skip(21) =~= masked);
    assert(em.subrange(1, 21) =~= ms);
    assert(db.take(20) =~= sha1_of(Seq::empty()));
    assert(db.skip(20) =~= Seq::new((n - 42 - data.len()) as nat, |i: int| 0u8) + seq![1u8] + data);
    lemma_message((n - 42 - data.len()) as nat, data);
}
%fn OaepPadding::new
    ensures r.rng == rng
%fn OaepPadding::mgf1
    ensures r is Ok <==> len <= 20 * 0x1_0000_0000, r is Ok ==> r->Ok_0@ == mgf(seed@, len as nat), r is Ok ==> r->Ok_0@.len() == len
%at entry
    broadcast use ax_sha1_len;
    proof { ax_slice_len(seed); assert(20usize << 32 == 85899345920usize) by (bit_vector); }
%loop 0
    invariant
        len <= 85899345920, seed@.len() <= isize::MAX, output@.len() == len, hash_source@.len() == seed@.len() + 4, hash_source@.take(seed@.len() as int) == seed@,
        output@.take(20 * i as int) == mgf_blocks(seed@, i as nat),
%at loop 0 start
    broadcast use ax_sha1_len;
    proof { lemma_mgf_len(seed@, i as nat); }
    let ghost o0 = output@;
%at loop 0 end
    proof {
        assert(hash_source@ =~= seed@ + be32(i as nat));
        assert(hash_source@.take(seed@.len() as int) =~= seed@);
        assert(output@.take(20 * (i + 1) as int) =~= o0.take(20 * i as int) + sha1_of(seed@ + be32(i as nat)));
    }
%at loop 0 after
    let ghost o1 = output@;
    proof { lemma_mgf_len(seed@, (len / 20) as nat); lemma_mgf_len(seed@, ((len + 19) / 20) as nat); }
%at tail
    proof {
        let k = (len / 20) as nat;
        if remaining > 0 {
            assert((len + 19) / 20 == k + 1);
            assert(hash_source@ =~= seed@ + be32(k));
            assert(output@ =~= (mgf_blocks(seed@, k) + sha1_of(seed@ + be32(k))).take(len as int));
        } else {
            assert((len + 19) / 20 == k);
            assert(o1.take(20 * k as int) =~= o1);
            assert(output@ =~= mgf(seed@, len as nat));
        }
    }
%fn OaepPadding::pad
    ensures
        r is Ok ==> n >= 42 + data@.len() && exists|seed: Seq<u8>| seed.len() == 20 && r->Ok_0@ == #[trigger] oaep(seed, data@, n as nat),
        n >= 42 + data@.len() && n <= 0x1_0000_0000 ==> r is Ok,
%at entry
    broadcast use ax_sha1_len;
    proof { ax_slice_len(data); }
%attr #[verifier::loop_isolation(false)]
%loop 0
    invariant seed@.len() == 20
%loop 1
    invariant msg@.len() == m0.len(), msg_mask@.len() == m0.len(), forall|k: int| 0 <= k < m0.len() ==> #[trigger] msg@[k] == if k < i { m0[k] ^ msg_mask@[k] } else { m0[k] }
%at let msg_mask
    let ghost m0 = msg@;
    let ghost s0 = seed@;
    proof {
        broadcast use vstd::array::group_array_axioms;
        let h = sha1_of(Seq::empty());
        assert forall|a: [u8; 0]| #[trigger] a.vx_bytes() == Seq::<u8>::empty() by { assert(a@ =~= Seq::<u8>::empty()); }
        assert(m0.take(20) =~= h);
        assert(m0 =~= oaep_block(data@, n as nat));
    }
%at loop 1 after
    assert(msg@ =~= xored(m0, msg_mask@));
%loop 2
    invariant seed@.len() == 20, seed_mask@.len() == 20, seed_len == 20, s0.len() == 20, forall|k: int| 0 <= k < 20 ==> #[trigger] seed@[k] == if k < i { s0[k] ^ seed_mask@[k] } else { s0[k] }
%at loop 2 after
    assert(seed@ =~= xored(s0, seed_mask@));
%at tail
    proof { assert(padded@ =~= oaep(s0, data@, n as nat)); }
%fn PublicKey::encrypt_padded
    ensures
        r is Ok ==> r->Ok_0@.len() == octets_of(self.modulus.n()),
        r is Ok ==> exists|seed: Seq<u8>| seed.len() == 20 && be_val(r->Ok_0@) == powmod(be_val(#[trigger] oaep(seed, data@, octets_of(self.modulus.n()))), self.exponent.n(), self.modulus.n()),
%at entry
    proof { lemma_octets(self.modulus.n()); assert(octets_of(0) == 0); }
%at let encrypted
    let ghost x = encrypted@;
    proof {
        let m = self.modulus.n();
        assert(m != 0);
        lemma_fundamental_div_mod(pow(padded.n() as int, self.exponent.n()), m as int);
        lemma_mod_bound(pow(padded.n() as int, self.exponent.n()), m as int);
        lemma_octets_mono(be_val(x), m);
    }
%at tail
    proof {
        lemma_be_val_zeros(fill as nat, x);
        assert(encrypted@ =~= Seq::new(fill as nat, |i: int| 0u8) + x);
    }
