%use prelude errors
%type ParseBuf
%raw
/// What `deserialize` of `T` does to the bytes in front of it.
pub trait Deserialize<'de>: Sized {
    /// the associated constant SIZE
    spec fn spec_size() -> Option<usize>;
    fn vx_size() -> (r: Option<usize>) ensures r == Self::spec_size();
    type Ctx;
    /// What has to hold in front: a type of known size is read from at least that many bytes, unless it looks for itself.
    open spec fn de_pre(ctx: Self::Ctx, before: Seq<u8>) -> bool { Self::spec_size() matches Some(n) ==> before.len() >= n }
    spec fn de(ctx: Self::Ctx, before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool;
    fn deserialize(buf: &mut ParseBuf<'de>, ctx: Self::Ctx) -> (r: Result<Self, ProtocolError>)
        requires Self::de_pre(ctx, old(buf).0@)
        ensures Self::de(ctx, old(buf).0@, final(buf).0@, r);
}
pub trait Serialize {
    spec fn wire(&self) -> Seq<u8>;
    fn serialize(&self, buf: &mut Vec<u8>)
        ensures final(buf)@ == old(buf)@ + self.wire();
}
/// `n` bytes are taken, or there are not that many and nothing is taken.
pub open spec fn took(before: Seq<u8>, after: Seq<u8>, n: nat) -> bool {
    before.len() >= n && after == before.skip(n as int)
}
pub open spec fn is_suffix(after: Seq<u8>, before: Seq<u8>) -> bool {
    after.len() <= before.len() && after == before.skip(before.len() - after.len())
}
pub proof fn lemma_le_val_pad(s: Seq<u8>, k: nat)
    ensures le_val(s + Seq::new(k, |i: int| 0u8)) == le_val(s)
    decreases s.len(), k
{
    reveal(le_val);
    let z = Seq::new(k, |i: int| 0u8);
    let t = s + z;
    if s.len() > 0 {
        assert(t.drop_first() =~= s.drop_first() + z);
        lemma_le_val_pad(s.drop_first(), k);
    } else if k > 0 {
        let y = Seq::new((k - 1) as nat, |i: int| 0u8);
        assert(t.drop_first() =~= s + y);
        lemma_le_val_pad(s, (k - 1) as nat);
    } else {
        assert(t =~= s);
    }
}
/// A length-encoded integer at the front of `s`: its size, its value, and whether it is complete.
/// 0xfb and 0xff are malformed and read as 0.
#[verifier::opaque]
pub open spec fn li_len(s: Seq<u8>) -> nat {
    if s.len() == 0 { 1 } else if s[0] == 0xfc { 3 } else if s[0] == 0xfd { 4 } else if s[0] == 0xfe { 9 } else { 1 }
}
#[verifier::opaque]
pub open spec fn li_ok(s: Seq<u8>) -> bool { s.len() >= li_len(s) }
#[verifier::opaque]
pub open spec fn li_val(s: Seq<u8>) -> u64 {
    if s[0] <= 0xfa { s[0] as u64 }
    else if li_len(s) == 1 { 0 }
    else { le_val(s.subrange(1, li_len(s) as int)) as u64 }
}
pub broadcast proof fn bc_li_len(s: Seq<u8>)
    ensures 1 <= #[trigger] li_len(s) <= 9, li_ok(s) <==> s.len() >= li_len(s)
{ reveal(li_len); reveal(li_ok); }
pub broadcast proof fn bc_ls_len(s: Seq<u8>)
    ensures
        #[trigger] ls_ok(s) ==> li_ok(s) && s.len() >= ls_len(s) && ls_len(s) >= 1 && ls_val(s) == s.subrange(li_len(s) as int, ls_len(s) as int)
            && ls_len(s) == li_len(s) + li_val(s) && ls_val(s).len() == li_val(s)
{ reveal(li_len); reveal(li_ok); reveal(ls_ok); reveal(ls_len); reveal(ls_val); }
/// A length-encoded byte string at the front of `s`.
#[verifier::opaque]
pub open spec fn ls_ok(s: Seq<u8>) -> bool { li_ok(s) && s.len() >= li_len(s) + li_val(s) }
#[verifier::opaque]
pub open spec fn ls_len(s: Seq<u8>) -> nat { li_len(s) + li_val(s) as nat }
#[verifier::opaque]
pub open spec fn ls_val(s: Seq<u8>) -> Seq<u8> { s.subrange(li_len(s) as int, ls_len(s) as int) }
%fn ParseBuf::is_empty
    ensures r == (self.0@.len() == 0)
%fn ParseBuf::len
    ensures r == self.0@.len()
%fn ParseBuf::skip
    ensures final(self).0@ == old(self).0@.skip(if cnt < old(self).0@.len() { cnt as int } else { old(self).0@.len() as int })
%fn ParseBuf::check_len
    ensures r is Ok <==> self.0@.len() >= len
%fn ParseBuf::eat
    requires n <= old(self).0@.len()
    ensures r@ == old(self).0@.take(n as int), took(old(self).0@, final(self).0@, n as nat)
%fn ParseBuf::checked_eat
    ensures
        r is Ok <==> n <= old(self).0@.len(),
        r is Ok ==> r->Ok_0@ == old(self).0@.take(n as int) && took(old(self).0@, final(self).0@, n as nat),
        r is Err ==> final(self).0@ == old(self).0@
%fn ParseBuf::eat_all
    ensures r@ == old(self).0@, final(self).0@.len() == 0
%fn ParseBuf::parse_unchecked
    requires T::de_pre(ctx, old(self).0@)
    ensures T::de(ctx, old(self).0@, final(self).0@, r)
%fn ParseBuf::parse
    requires (T::spec_size() matches Some(n) ==> old(self).0@.len() >= n) ==> T::de_pre(ctx, old(self).0@)
    ensures
        match T::spec_size() {
            Some(n) => if old(self).0@.len() < n { r is Err && final(self).0@ == old(self).0@ }
                else { T::de(ctx, old(self).0@, final(self).0@, r) },
            None => T::de(ctx, old(self).0@, final(self).0@, r),
        }
%fn ParseBuf::eat_{{u8:1,u16:2,u32:4,u64:8,u128:16}}
    requires old(self).0@.len() >= {@2}
    ensures r == le_val(old(self).0@.take({@2})), took(old(self).0@, final(self).0@, {@2})
%at entry
    proof { lemma_pow256(); lemma_le_val_bound(self.0@.take({@2})); }
%fn ParseBuf::eat_{{i8:1,i16:2,i32:4,i64:8,i128:16}}
    requires old(self).0@.len() >= {@2}
    ensures r == untwos(le_val(old(self).0@.take({@2})), {@2}), took(old(self).0@, final(self).0@, {@2})
%fn ParseBuf::eat_{{f32:4,f64:8}}
    requires old(self).0@.len() >= {@2}
    ensures {@}_bits(r) == le_val(old(self).0@.take({@2})), took(old(self).0@, final(self).0@, {@2})
%fn ParseBuf::checked_eat_{{u8:1,u16:2,u32:4,u64:8,u128:16}}
    ensures
        r is Ok <==> old(self).0@.len() >= {@2},
        r is Ok ==> r->Ok_0 == le_val(old(self).0@.take({@2})) && took(old(self).0@, final(self).0@, {@2}),
        r is Err ==> final(self).0@ == old(self).0@
%fn ParseBuf::checked_eat_{{i8:1,i16:2,i32:4,i64:8,i128:16}}
    ensures
        r is Ok <==> old(self).0@.len() >= {@2},
        r is Ok ==> r->Ok_0 == untwos(le_val(old(self).0@.take({@2})), {@2}) && took(old(self).0@, final(self).0@, {@2}),
        r is Err ==> final(self).0@ == old(self).0@
%fn ParseBuf::checked_eat_{{f32:4,f64:8}}
    ensures
        r is Ok <==> old(self).0@.len() >= {@2},
        r is Ok ==> {@}_bits(r->Ok_0) == le_val(old(self).0@.take({@2})) && took(old(self).0@, final(self).0@, {@2}),
        r is Err ==> final(self).0@ == old(self).0@
%fn ParseBuf::eat_{{u24:3:4,u40:5:8,u48:6:8,u56:7:8}}
    requires old(self).0@.len() >= {@2}
    ensures r == le_val(old(self).0@.take({@2})), took(old(self).0@, final(self).0@, {@2})
%loop 0
    invariant
        vx_s@ == old(self).0@.take({@2}), bytes@.len() == {@3}, old(self).0@.len() >= {@2}, vx_s@.len() == {@2},
        took(old(self).0@, self.0@, {@2}),
        bytes@ =~= vx_s@.take(i as int) + Seq::new(({@3} - i) as nat, |j: int| 0u8),
%at tail
    proof { lemma_le_val_pad(old(self).0@.take({@2}), ({@3} - {@2}) as nat);
        assert(bytes@ =~= old(self).0@.take({@2}) + Seq::new(({@3} - {@2}) as nat, |j: int| 0u8)); }
%fn ParseBuf::checked_eat_{{u24:3:4,u40:5:8,u48:6:8,u56:7:8}}
    ensures
        r is Ok <==> old(self).0@.len() >= {@2},
        r is Ok ==> r->Ok_0 == le_val(old(self).0@.take({@2})) && took(old(self).0@, final(self).0@, {@2}),
        r is Err ==> final(self).0@ == old(self).0@
%loop 0
    invariant
        vx_s@ == old(self).0@.take({@2}), bytes@.len() == {@3}, old(self).0@.len() >= {@2}, vx_s@.len() == {@2},
        took(old(self).0@, self.0@, {@2}),
        bytes@ =~= vx_s@.take(i as int) + Seq::new(({@3} - i) as nat, |j: int| 0u8),
%at tail
    proof { lemma_le_val_pad(old(self).0@.take({@2}), ({@3} - {@2}) as nat);
        assert(bytes@ =~= old(self).0@.take({@2}) + Seq::new(({@3} - {@2}) as nat, |j: int| 0u8)); }
%fn ParseBuf::eat_lenenc_int
    requires li_ok(old(self).0@)
    ensures r == li_val(old(self).0@), took(old(self).0@, final(self).0@, li_len(old(self).0@))
%at entry
    proof { reveal(li_len); reveal(li_ok); reveal(li_val); lemma_lenenc_at(self.0@); }
%fn ParseBuf::checked_eat_lenenc_int
    ensures
        r is Ok <==> li_ok(old(self).0@),
        r is Ok ==> r->Ok_0 == li_val(old(self).0@) && took(old(self).0@, final(self).0@, li_len(old(self).0@)),
        is_suffix(final(self).0@, old(self).0@)
%at entry
    proof { reveal(li_len); reveal(li_ok); reveal(li_val); lemma_lenenc_at(self.0@); }
%raw
pub proof fn lemma_lenenc_at(s: Seq<u8>)
    ensures
        s.len() >= 1 ==> le_val(s.take(1)) == s[0],
        s.len() >= 3 ==> s.skip(1).take(2) == s.subrange(1, 3) && le_val(s.subrange(1, 3)) < 0x1_0000,
        s.len() >= 4 ==> s.skip(1).take(3) == s.subrange(1, 4) && le_val(s.subrange(1, 4)) < 0x100_0000,
        s.len() >= 9 ==> s.skip(1).take(8) == s.subrange(1, 9) && le_val(s.subrange(1, 9)) < 0x1_0000_0000_0000_0000,
        s.len() >= 3 ==> s.skip(1).skip(2) == s.skip(3),
        s.len() >= 4 ==> s.skip(1).skip(3) == s.skip(4),
        s.len() >= 9 ==> s.skip(1).skip(8) == s.skip(9),
{
    lemma_pow256();
    if s.len() >= 1 { reveal_with_fuel(le_val, 2); assert(s.take(1)[0] == s[0]); }
    if s.len() >= 3 { lemma_le_val_bound(s.subrange(1, 3)); assert(s.skip(1).take(2) =~= s.subrange(1, 3)); assert(s.skip(1).skip(2) =~= s.skip(3)); }
    if s.len() >= 4 { lemma_le_val_bound(s.subrange(1, 4)); assert(s.skip(1).take(3) =~= s.subrange(1, 4)); assert(s.skip(1).skip(3) =~= s.skip(4)); }
    if s.len() >= 9 { lemma_le_val_bound(s.subrange(1, 9)); assert(s.skip(1).take(8) =~= s.subrange(1, 9)); assert(s.skip(1).skip(8) =~= s.skip(9)); }
}
%fn ParseBuf::eat_lenenc_slice
    requires ls_ok(old(self).0@)
    ensures r@ == ls_val(old(self).0@), took(old(self).0@, final(self).0@, ls_len(old(self).0@))
%at entry
    broadcast use {vx_lemmas::bc_skip_skip};
    proof { reveal(li_len); reveal(li_ok); reveal(li_val); reveal(ls_ok); reveal(ls_len); reveal(ls_val); }
%fn ParseBuf::checked_eat_lenenc_slice
    ensures
        r is Ok <==> ls_ok(old(self).0@),
        r is Ok ==> r->Ok_0@ == ls_val(old(self).0@) && took(old(self).0@, final(self).0@, ls_len(old(self).0@)),
        is_suffix(final(self).0@, old(self).0@)
%at entry
    broadcast use {vx_lemmas::bc_skip_skip};
    proof { reveal(li_len); reveal(li_ok); reveal(li_val); reveal(ls_ok); reveal(ls_len); reveal(ls_val); }
%fn ParseBuf::checked_eat_lenenc_str
    ensures
        r is Ok <==> ls_ok(old(self).0@) && vstd::utf8::valid_utf8(ls_val(old(self).0@)),
        r is Ok ==> vstd::utf8::encode_utf8(r->Ok_0@) == ls_val(old(self).0@) && took(old(self).0@, final(self).0@, ls_len(old(self).0@)),
        is_suffix(final(self).0@, old(self).0@)
%fn ParseBuf::eat_lenenc_str
    requires ls_ok(old(self).0@)
    ensures
        r is Ok <==> vstd::utf8::valid_utf8(ls_val(old(self).0@)),
        r is Ok ==> vstd::utf8::encode_utf8(r->Ok_0@) == ls_val(old(self).0@),
        took(old(self).0@, final(self).0@, ls_len(old(self).0@))
%raw
/// A slice behind its length in one byte.
pub open spec fn short_ok(s: Seq<u8>) -> bool { s.len() > 0 && s.len() >= 1 + s[0] as int }
pub open spec fn short_val(s: Seq<u8>) -> Seq<u8> { s.subrange(1, 1 + s[0] as int) }
%fn ParseBuf::eat_u8_slice
    requires short_ok(old(self).0@)
    ensures r@ =~= short_val(old(self).0@), took(old(self).0@, final(self).0@, (1 + old(self).0@[0]) as nat)
%at entry
    broadcast use {vx_lemmas::bc_skip_skip};
%fn ParseBuf::checked_eat_u8_slice
    ensures
        r is Ok <==> short_ok(old(self).0@),
        r is Ok ==> r->Ok_0@ =~= short_val(old(self).0@) && took(old(self).0@, final(self).0@, (1 + old(self).0@[0]) as nat),
        is_suffix(final(self).0@, old(self).0@)
%at entry
    broadcast use {vx_lemmas::bc_skip_skip};
%fn ParseBuf::eat_u8_str
    requires short_ok(old(self).0@)
    ensures
        r is Ok <==> vstd::utf8::valid_utf8(short_val(old(self).0@)),
        r is Ok ==> vstd::utf8::encode_utf8(r->Ok_0@) == short_val(old(self).0@),
        took(old(self).0@, final(self).0@, (1 + old(self).0@[0]) as nat)
%fn ParseBuf::checked_eat_u8_str
    ensures
        r is Ok <==> short_ok(old(self).0@) && vstd::utf8::valid_utf8(short_val(old(self).0@)),
        r is Ok ==> vstd::utf8::encode_utf8(r->Ok_0@) == short_val(old(self).0@) && took(old(self).0@, final(self).0@, (1 + old(self).0@[0]) as nat),
        is_suffix(final(self).0@, old(self).0@)
