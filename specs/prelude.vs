%# Specification functions, lemmas and the contracts of what lies outside of the crate.
%path std::str::from_utf8 => vx_from_utf8
%path ::core::str::from_utf8 => vx_from_utf8
%path std::cmp::min => vx_min
%path ::std::cmp::min => vx_min
%raw
global size_of usize == 8;
/// A panic: never to be reached.
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }
use vstd::slice::*;
use vstd::string::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);

pub type Utf8Error = core::str::Utf8Error;

pub use vx_lemmas::{le, le_val, pow256};
/// Two's complement of `x` in `k` bytes.
pub open spec fn twos(x: int, k: nat) -> nat {
    if x < 0 { (x + pow256(k)) as nat } else { x as nat }
}

pub open spec fn untwos(n: nat, k: nat) -> int {
    if 2 * n >= pow256(k) { n - pow256(k) } else { n as int }
}

pub proof fn lemma_pow256()
    ensures
        pow256(0) == 1, pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(3) == 0x100_0000,
        pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000,
        pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
{
    reveal_with_fuel(pow256, 17);
}

pub proof fn lemma_le_len(n: nat, k: nat)
    ensures le(n, k).len() == k
    decreases k
{
    reveal(le);
    if k > 0 { lemma_le_len(n / 256, (k - 1) as nat); }
}

pub proof fn lemma_le_val_bound(s: Seq<u8>)
    ensures le_val(s) < pow256(s.len())
    decreases s.len()
{
    reveal(le_val);
    if s.len() > 0 { lemma_le_val_bound(s.drop_first()); }
}

pub proof fn lemma_le_roundtrip(n: nat, k: nat)
    requires n < pow256(k)
    ensures le_val(le(n, k)) == n, le(n, k).len() == k
    decreases k
{
    reveal(le); reveal(le_val);
    lemma_le_len(n, k);
    if k > 0 {
        let t = le(n / 256, (k - 1) as nat);
        assert(n / 256 < pow256((k - 1) as nat)) by (nonlinear_arith) requires n < 256 * pow256((k - 1) as nat);
        lemma_le_roundtrip(n / 256, (k - 1) as nat);
        assert(le(n, k).drop_first() =~= t);
        assert(n == n % 256 + 256 * (n / 256));
    }
}

pub proof fn lemma_val_le(s: Seq<u8>)
    ensures le(le_val(s), s.len()) == s
    decreases s.len()
{
    reveal(le); reveal(le_val);
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_val_le(t);
        let v = le_val(t);
        assert((s[0] as nat + 256 * v) % 256 == s[0] as nat);
        assert((s[0] as nat + 256 * v) / 256 == v);
        assert(le(le_val(s), s.len()) =~= s);
    } else {
        assert(le(le_val(s), 0) =~= s);
    }
}

pub uninterp spec fn f32_bits(x: f32) -> nat;
pub uninterp spec fn f64_bits(x: f64) -> nat;

/// Any array read through a pointer cast: safe only when the slice is long enough.
#[verifier::external_body]
pub fn vx_read_array<const N: usize>(s: &[u8]) -> (r: [u8; N])
    requires s@.len() >= N
    ensures r@ == s@.take(N as int), r@.len() == N
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_from_utf8<'a>(s: &'a [u8]) -> (r: Result<&'a str, Utf8Error>)
    ensures
        r is Ok <==> vstd::utf8::valid_utf8(s@),
        r is Ok ==> vstd::utf8::encode_utf8(r->Ok_0@) == s@,
{ unimplemented!() }

/// Copying a slice (used for bytes only) copies its elements.
pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    where T: Clone,
    ensures r@ == s@;
pub assume_specification<T> [<[T] as std::borrow::ToOwned>::to_owned] (s: &[T]) -> (r: Vec<T>)
    where T: Clone,
    ensures r@ == s@;

pub assume_specification [<usize as core::convert::From<bool>>::from] (b: bool) -> (r: usize)
    ensures r == if b { 1usize } else { 0usize };

/// AsRef<[u8]>: what each implementation used here shows (assumed).
pub trait VxBytes {
    spec fn vx_bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.vx_bytes();
}
impl VxBytes for &[u8] {
    open spec fn vx_bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
impl VxBytes for Vec<u8> {
    open spec fn vx_bytes(&self) -> Seq<u8> { self@ }
    fn as_ref(&self) -> (r: &[u8]) { self.as_slice() }
}
impl<T: VxBytes> VxBytes for &T {
    open spec fn vx_bytes(&self) -> Seq<u8> { (*self).vx_bytes() }
    fn as_ref(&self) -> (r: &[u8]) { (*self).as_ref() }
}
impl<const N: usize> VxBytes for [u8; N] {
    open spec fn vx_bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
pub fn vx_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { a } else { b }
{ if a < b { a } else { b } }

pub trait VxBytesMut: VxBytes {
    fn vx_bytes_mut(&mut self) -> (r: &mut [u8])
        ensures r@ == old(self).vx_bytes(), final(self).vx_bytes() == final(r)@, r@.len() == final(r)@.len();
}
impl VxBytesMut for Vec<u8> {
    #[verifier::external_body]
    fn vx_bytes_mut(&mut self) -> (r: &mut [u8]) { unimplemented!() }
}
impl<const N: usize> VxBytesMut for [u8; N] {
    #[verifier::external_body]
    fn vx_bytes_mut(&mut self) -> (r: &mut [u8]) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ =~= b@)
{ a == b }

pub fn vx_subslice<'a>(s: &'a [u8], i: usize, j: usize) -> (r: &'a [u8])
    requires i <= j <= s@.len()
    ensures r@ == s@.subrange(i as int, j as int)
{ slice_subrange(s, i, j) }

#[verifier::external_body]
pub fn vx_position(s: &[u8], c: u8) -> (r: Option<usize>)
    ensures
        match r {
            Some(i) => i < s@.len() && s@[i as int] == c && forall|j: int| 0 <= j < i ==> s@[j] != c,
            None => forall|j: int| 0 <= j < s@.len() ==> s@[j] != c,
        }
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_from_elem(x: u8, n: usize) -> (r: Vec<u8>)
    ensures r@ == Seq::new(n as nat, |i: int| x)
{ unimplemented!() }

/// Counting what was taken out of memory cannot overflow `usize`.
#[verifier::external_body]
pub fn vx_count(n: usize) -> (r: usize)
    ensures r == n + 1
{ n + 1 }

pub trait VxLe<const N: usize>: Sized {
    spec fn vx_le(self) -> Seq<u8>;
    fn vx_to_le_bytes(self) -> (r: [u8; N])
        ensures r@ == self.vx_le(), r@.len() == N;
}
impl VxLe<1> for u8 {
    open spec fn vx_le(self) -> Seq<u8> { le(self as nat, 1) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 1]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_u8_from_le_bytes(b: [u8; 1]) -> (r: u8)
    ensures r == le_val(b@)
{ u8::from_le_bytes(b) }
impl VxLe<2> for u16 {
    open spec fn vx_le(self) -> Seq<u8> { le(self as nat, 2) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_u16_from_le_bytes(b: [u8; 2]) -> (r: u16)
    ensures r == le_val(b@)
{ u16::from_le_bytes(b) }
impl VxLe<4> for u32 {
    open spec fn vx_le(self) -> Seq<u8> { le(self as nat, 4) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32)
    ensures r == le_val(b@)
{ u32::from_le_bytes(b) }
impl VxLe<8> for u64 {
    open spec fn vx_le(self) -> Seq<u8> { le(self as nat, 8) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_u64_from_le_bytes(b: [u8; 8]) -> (r: u64)
    ensures r == le_val(b@)
{ u64::from_le_bytes(b) }
impl VxLe<16> for u128 {
    open spec fn vx_le(self) -> Seq<u8> { le(self as nat, 16) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 16]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_u128_from_le_bytes(b: [u8; 16]) -> (r: u128)
    ensures r == le_val(b@)
{ u128::from_le_bytes(b) }
impl VxLe<1> for i8 {
    open spec fn vx_le(self) -> Seq<u8> { le(twos(self as int, 1), 1) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 1]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_i8_from_le_bytes(b: [u8; 1]) -> (r: i8)
    ensures r == untwos(le_val(b@), 1)
{ i8::from_le_bytes(b) }
impl VxLe<2> for i16 {
    open spec fn vx_le(self) -> Seq<u8> { le(twos(self as int, 2), 2) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_i16_from_le_bytes(b: [u8; 2]) -> (r: i16)
    ensures r == untwos(le_val(b@), 2)
{ i16::from_le_bytes(b) }
impl VxLe<4> for i32 {
    open spec fn vx_le(self) -> Seq<u8> { le(twos(self as int, 4), 4) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_i32_from_le_bytes(b: [u8; 4]) -> (r: i32)
    ensures r == untwos(le_val(b@), 4)
{ i32::from_le_bytes(b) }
impl VxLe<8> for i64 {
    open spec fn vx_le(self) -> Seq<u8> { le(twos(self as int, 8), 8) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_i64_from_le_bytes(b: [u8; 8]) -> (r: i64)
    ensures r == untwos(le_val(b@), 8)
{ i64::from_le_bytes(b) }
impl VxLe<16> for i128 {
    open spec fn vx_le(self) -> Seq<u8> { le(twos(self as int, 16), 16) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 16]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_i128_from_le_bytes(b: [u8; 16]) -> (r: i128)
    ensures r == untwos(le_val(b@), 16)
{ i128::from_le_bytes(b) }
impl VxLe<4> for f32 {
    open spec fn vx_le(self) -> Seq<u8> { le(f32_bits(self), 4) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_f32_from_le_bytes(b: [u8; 4]) -> (r: f32)
    ensures f32_bits(r) == le_val(b@)
{ f32::from_le_bytes(b) }
impl VxLe<8> for f64 {
    open spec fn vx_le(self) -> Seq<u8> { le(f64_bits(self), 8) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_f64_from_le_bytes(b: [u8; 8]) -> (r: f64)
    ensures f64_bits(r) == le_val(b@)
{ f64::from_le_bytes(b) }

/// The whole of a byte container as a slice that can be written to.
pub trait VxSliceMut {
    spec fn vx_all(&self) -> Seq<u8>;
    fn vx_slice_mut(&mut self) -> (r: &mut [u8])
        ensures r@ == old(self).vx_all(), final(self).vx_all() == final(r)@;
}
impl VxSliceMut for Vec<u8> {
    open spec fn vx_all(&self) -> Seq<u8> { self@ }
    fn vx_slice_mut(&mut self) -> (r: &mut [u8]) { self.as_mut_slice() }
}
impl VxSliceMut for [u8] {
    open spec fn vx_all(&self) -> Seq<u8> { self@ }
    fn vx_slice_mut(&mut self) -> (r: &mut [u8]) { self }
}
impl<const N: usize> VxSliceMut for [u8; N] {
    open spec fn vx_all(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_slice_mut(&mut self) -> (r: &mut [u8]) { self }
}
pub trait VxBe<const N: usize>: Sized {
    spec fn vx_be(self) -> Seq<u8>;
    fn vx_to_be_bytes(self) -> (r: [u8; N])
        ensures r@ == self.vx_be(), r@.len() == N;
}
impl VxBe<4> for u32 {
    open spec fn vx_be(self) -> Seq<u8> { le(self as nat, 4).reverse() }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
}
#[verifier::external_body]
pub fn vx_usize_from_be_bytes(b: [u8; 8]) -> (r: usize)
    ensures r == le_val(b@.reverse())
{ usize::from_be_bytes(b) }
/// No slice occupies more than isize::MAX bytes (guaranteed by Rust).
#[verifier::external_body]
pub proof fn ax_slice_len(s: &[u8])
    ensures s@.len() <= isize::MAX
{ }
pub mod vx_lemmas {
use vstd::prelude::*;
pub broadcast proof fn bc_take_take<A>(s: Seq<A>, n: int, m: int)
    requires 0 <= m <= n <= s.len()
    ensures #[trigger] s.take(n).take(m) == s.take(m)
{ assert(s.take(n).take(m) =~= s.take(m)); }
pub broadcast proof fn bc_skip_skip<A>(s: Seq<A>, n: int, m: int)
    requires 0 <= n, 0 <= m, n + m <= s.len()
    ensures #[trigger] s.skip(n).skip(m) == s.skip(n + m)
{ assert(s.skip(n).skip(m) =~= s.skip(n + m)); }
pub broadcast proof fn bc_skip_take<A>(s: Seq<A>, n: int, m: int)
    requires 0 <= n, 0 <= m, n + m <= s.len()
    ensures #[trigger] s.skip(n).take(m) == s.subrange(n, n + m)
{ assert(s.skip(n).take(m) =~= s.subrange(n, n + m)); }
pub broadcast proof fn bc_sub_take<A>(s: Seq<A>, i: int, j: int, m: int)
    requires 0 <= i, 0 <= m, i + m <= j <= s.len()
    ensures #[trigger] s.subrange(i, j).take(m) == s.subrange(i, i + m)
{ assert(s.subrange(i, j).take(m) =~= s.subrange(i, i + m)); }
pub broadcast proof fn bc_sub_sub<A>(s: Seq<A>, i: int, j: int, k: int, m: int)
    requires 0 <= i, 0 <= k <= m, i + m <= j <= s.len()
    ensures #[trigger] s.subrange(i, j).subrange(k, m) == s.subrange(i + k, i + m)
{ assert(s.subrange(i, j).subrange(k, m) =~= s.subrange(i + k, i + m)); }
/// `n` in `k` bytes, least significant first (the low `k` bytes when it does not fit).
#[verifier::opaque]
pub open spec fn le(n: nat, k: nat) -> Seq<u8>
    decreases k
{
    if k == 0 { Seq::empty() } else { seq![(n % 256) as u8] + le(n / 256, (k - 1) as nat) }
}

/// The number whose bytes, least significant first, are `s`.
#[verifier::opaque]
pub open spec fn le_val(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_val(s.drop_first()) }
}

pub open spec fn pow256(k: nat) -> nat
    decreases k
{
    if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) }
}

pub broadcast proof fn bc_le_val1(s: Seq<u8>)
    requires s.len() == 1
    ensures #[trigger] le_val(s) == s[0]
{ reveal_with_fuel(le_val, 2); }
pub broadcast proof fn bc_assoc<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn bc_skip0<A>(s: Seq<A>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }
pub broadcast proof fn bc_take_all<A>(s: Seq<A>, n: int)
    requires n == s.len()
    ensures #[trigger] s.take(n) == s
{ assert(s.take(n) =~= s); }
/// `?` converts the error with `From::from` (the definition of the operator).
#[verifier::external_body]
pub broadcast proof fn ax_question_mark<S: vstd::std_specs::convert::FromSpec<T>, T>(v: T, r: S)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(v, r) && S::obeys_from_spec() ==> r == S::from_spec(v)
{ }
}
broadcast use {vx_lemmas::ax_question_mark, vx_lemmas::bc_le_val1, vx_lemmas::bc_take_take, vx_lemmas::bc_skip_take, vx_lemmas::bc_skip0, vx_lemmas::bc_take_all};
