%# Password scrambles.
%use prelude
%path Sha1 => VSha1
%path sha1::Sha1 => VSha1
%path sha2::Sha256 => VSha256
%path Sha256 => VSha256
%raw
/// The hash functions themselves (crates sha1 and sha2) are assumed to be functions of the bytes fed.
pub uninterp spec fn sha1_of(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn sha256_of(b: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub struct VSha1 { x: () }
#[verifier::external_body]
pub struct VSha256 { x: () }
impl VSha1 {
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.fed().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn update<T: VxBytes>(&mut self, b: T) ensures final(self).fed() == old(self).fed() + b.vx_bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: [u8; 20]) ensures r@ == sha1_of(self.fed()), r@.len() == 20 { unimplemented!() }
    #[verifier::external_body]
    pub fn digest<T: VxBytes>(b: T) -> (r: [u8; 20]) ensures r@ == sha1_of(b.vx_bytes()), r@.len() == 20 { unimplemented!() }
}
impl VSha256 {
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.fed().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn update<T: VxBytes>(&mut self, b: T) ensures final(self).fed() == old(self).fed() + b.vx_bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: [u8; 32]) ensures r@ == sha256_of(self.fed()), r@.len() == 32 { unimplemented!() }
    #[verifier::external_body]
    pub fn digest<T: VxBytes>(b: T) -> (r: [u8; 32]) ensures r@ == sha256_of(b.vx_bytes()), r@.len() == 32 { unimplemented!() }
}
/// All pieces after one another.
pub open spec fn flat<T: VxBytes>(s: Seq<T>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last().vx_bytes() } }
pub broadcast proof fn bc_flat1<T: VxBytes>(s: Seq<T>)
    requires s.len() == 1
    ensures #[trigger] flat(s) == s[0].vx_bytes()
{ reveal_with_fuel(flat, 2); assert(flat(s) =~= s[0].vx_bytes()); }
pub broadcast proof fn bc_flat2<T: VxBytes>(s: Seq<T>)
    requires s.len() == 2
    ensures #[trigger] flat(s) == s[0].vx_bytes() + s[1].vx_bytes()
{ reveal_with_fuel(flat, 3); assert(flat(s) =~= s[0].vx_bytes() + s[1].vx_bytes()); }
/// Byte by byte as far as both reach; the rest of `a` stays.
pub open spec fn xored(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| if i < b.len() { a[i] ^ b[i] } else { a[i] }) }
/// mysql_native_password
pub open spec fn native_scramble(nonce: Seq<u8>, pw: Seq<u8>) -> Seq<u8> { xored(sha1_of(pw), sha1_of(nonce + sha1_of(sha1_of(pw)))) }
/// caching_sha2_password
pub open spec fn sha2_scramble(nonce: Seq<u8>, pw: Seq<u8>) -> Seq<u8> { xored(sha256_of(pw), sha256_of(sha256_of(sha256_of(pw)) + nonce)) }
%fn xor
    ensures r.vx_bytes() == xored(left.vx_bytes(), right.vx_bytes())
%rw left.as_mut() => left.vx_bytes_mut()
%loop 0
    invariant vx_s1@.len() == l0.len(), vx_n4 == if vx_s1@.len() < vx_s2@.len() { vx_s1@.len() } else { vx_s2@.len() }, vx_s2@ == right.vx_bytes(), forall|k: int| 0 <= k < l0.len() ==> #[trigger] vx_s1@[k] == if k < vx_i3 { l0[k] ^ vx_s2@[k] } else { l0[k] }
%at entry
    let ghost l0 = left.vx_bytes();
%at loop 0 after
    assert(vx_s1@ =~= xored(l0, right.vx_bytes()));
%fn scramble_native::sha1
    ensures r@ == sha1_of(flat(bytes@)), r@.len() == 20
%rw hasher.finalize().into() => hasher.finalize()
%at entry
    let ghost pieces = bytes@;
%loop 0
    invariant hasher.fed() == flat(pieces.take(it0.index@)), it0.seq().len() == pieces.len(), forall|k: int| 0 <= k < pieces.len() ==> *(#[trigger] it0.seq()[k]) == pieces[k]
%at loop 0 end
    proof { assert(pieces.take(it0.index@ + 1).drop_last() =~= pieces.take(it0.index@)); }
%at loop 0 after
    proof { assert(pieces.take(pieces.len() as int) =~= pieces); }
%fn scramble_native
    ensures r is None <==> password@.len() == 0, r is Some ==> r->Some_0@ == native_scramble(nonce@, password@)
%at entry
    broadcast use {bc_flat1, bc_flat2};
%fn scramble_sha256::sha256
    ensures r@ == sha256_of(flat(bytes@)), r@.len() == 32
%rw hasher.finalize().into() => hasher.finalize()
%at entry
    let ghost pieces = bytes@;
%loop 0
    invariant hasher.fed() == flat(pieces.take(it0.index@)), it0.seq().len() == pieces.len(), forall|k: int| 0 <= k < pieces.len() ==> *(#[trigger] it0.seq()[k]) == pieces[k]
%at loop 0 end
    proof { assert(pieces.take(it0.index@ + 1).drop_last() =~= pieces.take(it0.index@)); }
%at loop 0 after
    proof { assert(pieces.take(pieces.len() as int) =~= pieces); }
%fn scramble_sha256
    ensures r is None <==> password@.len() == 0, r is Some ==> r->Some_0@ == sha2_scramble(nonce@, password@)
%at entry
    broadcast use {bc_flat1, bc_flat2};
