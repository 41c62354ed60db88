%use parsebuf
%ty VxSelfBufMutExt => Vec<u8>
%path utils::read_u32 => read_u32
%raw
/// The methods of bytes::BufMut that the crate uses, for Vec<u8> (assumed contracts).
pub trait BufMut {
    spec fn written(&self) -> Seq<u8>;
    fn put_slice(&mut self, s: &[u8]) ensures final(self).written() == old(self).written() + s@;
    fn put_u8(&mut self, x: u8) ensures final(self).written() == old(self).written() + seq![x];
    fn put_i8(&mut self, x: i8) ensures final(self).written() == old(self).written() + x.vx_le();
    fn put_u16_le(&mut self, x: u16) ensures final(self).written() == old(self).written() + x.vx_le();
    fn put_i16_le(&mut self, x: i16) ensures final(self).written() == old(self).written() + x.vx_le();
    fn put_u32_le(&mut self, x: u32) ensures final(self).written() == old(self).written() + x.vx_le();
    fn put_i32_le(&mut self, x: i32) ensures final(self).written() == old(self).written() + x.vx_le();
    fn put_u64_le(&mut self, x: u64) ensures final(self).written() == old(self).written() + x.vx_le();
    fn put_i64_le(&mut self, x: i64) ensures final(self).written() == old(self).written() + x.vx_le();
    fn put_f32_le(&mut self, x: f32) ensures final(self).written() == old(self).written() + x.vx_le();
    fn put_f64_le(&mut self, x: f64) ensures final(self).written() == old(self).written() + x.vx_le();
    fn put_uint_le(&mut self, x: u64, n: usize)
        requires n <= 8
        ensures final(self).written() == old(self).written() + le(x as nat, n as nat);
}
impl BufMut for Vec<u8> {
    open spec fn written(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn put_slice(&mut self, s: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn put_u8(&mut self, x: u8) { unimplemented!() }
    #[verifier::external_body] fn put_i8(&mut self, x: i8) { unimplemented!() }
    #[verifier::external_body] fn put_u16_le(&mut self, x: u16) { unimplemented!() }
    #[verifier::external_body] fn put_i16_le(&mut self, x: i16) { unimplemented!() }
    #[verifier::external_body] fn put_u32_le(&mut self, x: u32) { unimplemented!() }
    #[verifier::external_body] fn put_i32_le(&mut self, x: i32) { unimplemented!() }
    #[verifier::external_body] fn put_u64_le(&mut self, x: u64) { unimplemented!() }
    #[verifier::external_body] fn put_i64_le(&mut self, x: i64) { unimplemented!() }
    #[verifier::external_body] fn put_f32_le(&mut self, x: f32) { unimplemented!() }
    #[verifier::external_body] fn put_f64_le(&mut self, x: f64) { unimplemented!() }
    #[verifier::external_body] fn put_uint_le(&mut self, x: u64, n: usize) { unimplemented!() }
}
/// The shortest legal length-encoded form of `n`.
pub open spec fn li_enc(n: u64) -> Seq<u8> {
    if n < 251 { seq![n as u8] }
    else if n < 0x1_0000 { seq![0xfcu8] + le(n as nat, 2) }
    else if n < 0x100_0000 { seq![0xfdu8] + le(n as nat, 3) }
    else { seq![0xfeu8] + le(n as nat, 8) }
}
pub open spec fn ls_enc(s: Seq<u8>) -> Seq<u8> { li_enc(s.len() as u64) + s }

/// Reading what was written gives the number back and consumes exactly the written bytes.
pub proof fn c03_lenenc_int_roundtrip(n: u64, rest: Seq<u8>)
    ensures
        li_ok(li_enc(n) + rest),
        li_val(li_enc(n) + rest) == n,
        (li_enc(n) + rest).skip(li_len(li_enc(n) + rest) as int) == rest,
        li_len(li_enc(n) + rest) == li_enc(n).len(),
{
    reveal(li_len); reveal(li_ok); reveal(li_val);
    lemma_pow256();
    let s = li_enc(n) + rest;
    if n < 251 {
        assert(s.skip(1) =~= rest);
    } else if n < 0x1_0000 {
        lemma_le_roundtrip(n as nat, 2);
        assert(s.subrange(1, 3) =~= le(n as nat, 2));
        assert(s.skip(3) =~= rest);
    } else if n < 0x100_0000 {
        lemma_le_roundtrip(n as nat, 3);
        assert(s.subrange(1, 4) =~= le(n as nat, 3));
        assert(s.skip(4) =~= rest);
    } else {
        lemma_le_roundtrip(n as nat, 8);
        assert(s.subrange(1, 9) =~= le(n as nat, 8));
        assert(s.skip(9) =~= rest);
    }
}

/// No legal form of the same number is shorter.
pub proof fn c03_lenenc_int_minimal(n: u64, s: Seq<u8>)
    requires s.len() > 0, s[0] != 0xfb, s[0] != 0xff, li_ok(s), li_val(s) == n
    ensures li_len(s) >= li_enc(n).len()
{
    reveal(li_len); reveal(li_ok); reveal(li_val);
    lemma_pow256();
    lemma_le_len(n as nat, 2);
    lemma_le_len(n as nat, 3);
    lemma_le_len(n as nat, 8);
    if s[0] > 0xfa {
        lemma_le_val_bound(s.subrange(1, li_len(s) as int));
    }
}

pub proof fn c03_lenenc_slice_roundtrip(v: Seq<u8>, rest: Seq<u8>)
    requires v.len() <= u64::MAX
    ensures
        ls_ok(ls_enc(v) + rest),
        ls_val(ls_enc(v) + rest) == v,
        (ls_enc(v) + rest).skip(ls_len(ls_enc(v) + rest) as int) == rest,
        ls_len(ls_enc(v) + rest) == ls_enc(v).len(),
{
    reveal(ls_ok); reveal(ls_len); reveal(ls_val);
    let s = ls_enc(v) + rest;
    assert(s =~= li_enc(v.len() as u64) + (v + rest));
    c03_lenenc_int_roundtrip(v.len() as u64, v + rest);
    assert(ls_val(s) =~= v);
    assert(s.skip(ls_len(s) as int) =~= rest);
}

pub trait BufMutExt: BufMut {
    fn put_lenenc_int(&mut self, n: u64)
        ensures final(self).written() == old(self).written() + li_enc(n);
    fn put_lenenc_slice(&mut self, s: &[u8])
        ensures final(self).written() == old(self).written() + ls_enc(s@);
    fn put_u8_slice(&mut self, s: &[u8])
        ensures
            s@.len() <= 255 ==> final(self).written() == old(self).written() + seq![s@.len() as u8] + s@,
            s@.len() > 255 ==> final(self).written() == old(self).written() + seq![255u8] + s@.take(255);
    fn put_u32_slice(&mut self, s: &[u8])
        ensures
            s@.len() <= u32::MAX ==> final(self).written() == old(self).written() + le(s@.len(), 4) + s@;
    fn put_null_slice(&mut self, s: &[u8])
        ensures final(self).written() == old(self).written() + s@ + seq![0u8];
}
pub proof fn lemma_li_enc_len(n: u64)
    ensures
        li_enc(n).len() == if n < 251 { 1int } else if n < 0x1_0000 { 3 } else if n < 0x100_0000 { 4 } else { 9 },
{
    lemma_le_len(n as nat, 2);
    lemma_le_len(n as nat, 3);
    lemma_le_len(n as nat, 8);
}
pub proof fn lemma_le_one(x: u8)
    ensures le(x as nat, 1) == seq![x]
{
    reveal_with_fuel(le, 2);
    assert(le(x as nat, 1) =~= seq![x]);
}
%fn BufMutExt::put_lenenc_int
%at entry
    proof { lemma_le_one(0); }
    broadcast use {vx_lemmas::bc_assoc};
%fn BufMutExt::put_lenenc_slice
%at entry
    broadcast use {vx_lemmas::bc_assoc};
%fn BufMutExt::put_u8_slice
%fn BufMutExt::put_u32_slice
%fn BufMutExt::put_null_slice
%fn lenenc_int_len
    ensures r == li_enc(x).len()
%at entry
    proof { lemma_le_len(x as nat, 2); lemma_le_len(x as nat, 3); lemma_le_len(x as nat, 8); }
%fn lenenc_slice_len
    ensures r == ls_enc(s@).len()
%at entry
    proof { ax_slice_len(s); lemma_li_enc_len(s@.len() as u64); }
%fn read_u32
    requires value@.len() <= 4
    ensures r == le_val(value@)
%loop 0
    invariant
        vx_s@ == value@, bytes@.len() == 4, value@.len() <= 4,
        bytes@ =~= value@.take(i as int) + Seq::new((4 - i) as nat, |j: int| 0u8),
%at tail
    proof { lemma_le_val_pad(value@, (4 - value@.len()) as nat);
        assert(bytes@ =~= value@ + Seq::new((4 - value@.len()) as nat, |j: int| 0u8)); }
%impl <{{u8:1,u16:2,u32:4,u64:8,u128:16,i8:1,i16:2,i32:4,i64:8,i128:16,f32:4,f64:8}} as Serialize>
    open spec fn wire(&self) -> Seq<u8> { (*self).vx_le() }
%fn <{{u8:1,u16:2,u32:4,u64:8,u128:16,i8:1,i16:2,i32:4,i64:8,i128:16,f32:4,f64:8}} as Serialize>::serialize
%impl <{{u8:1,u16:2,u32:4,u64:8,u128:16}} as Deserialize>
    open spec fn de(ctx: (), before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        r is Ok && r->Ok_0 == le_val(before.take({@2})) && took(before, after, {@2})
    }
%fn <{{u8:1,u16:2,u32:4,u64:8,u128:16}} as Deserialize>::deserialize
%impl <{{i8:1,i16:2,i32:4,i64:8,i128:16}} as Deserialize>
    open spec fn de(ctx: (), before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        r is Ok && r->Ok_0 == untwos(le_val(before.take({@2})), {@2}) && took(before, after, {@2})
    }
%fn <{{i8:1,i16:2,i32:4,i64:8,i128:16}} as Deserialize>::deserialize
%impl <{{f32:4,f64:8}} as Deserialize>
    open spec fn de(ctx: (), before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        r is Ok && {@}_bits(r->Ok_0) == le_val(before.take({@2})) && took(before, after, {@2})
    }
%fn <{{f32:4,f64:8}} as Deserialize>::deserialize
%impl <[u8;N] as Deserialize>
    open spec fn de(ctx: (), before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        r is Ok && r->Ok_0@ == before.take(N as int) && took(before, after, N as nat)
    }
%fn <[u8;N] as Deserialize>::deserialize
