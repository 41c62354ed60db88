%# Greeting, its answer, authentication switch requests, and the choice of the response.
%use packets scramble
%path utils::scramble_native => scramble_native
%path utils::scramble_sha256 => scramble_sha256
%path String::from_utf8_lossy => vx_lossy
%path Vec::from => vx_vec_from
%path u8::max => vx_u8_max
%ty HashMap<String,String> => Vec<(String, String)>
%const MYSQL_NATIVE_PASSWORD_PLUGIN_NAME
%const CACHING_SHA2_PASSWORD_PLUGIN_NAME
%const MYSQL_CLEAR_PASSWORD_PLUGIN_NAME
%type AuthPluginData
%type HandshakePacket
%type ScrambleEncoding
%type HandshakeResponse
%const UTF8_GENERAL_CI
%const UTF8MB4_GENERAL_CI
%raw
pub struct VxLossy { x: () }
impl VxLossy {
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_lossy(s: &[u8]) -> (r: VxLossy) { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec_from<T: VxBytes>(x: &T) -> (r: Vec<u8>)
    ensures r@ == x.vx_bytes()
{ unimplemented!() }
pub fn vx_u8_max(a: u8, b: u8) -> (r: u8)
    ensures r == if a > b { a } else { b }
{ if a > b { a } else { b } }
/// The text in UTF-8 (the definition of String).
pub assume_specification [std::string::String::as_bytes] (s: &String) -> (r: &[u8])
    ensures r@ == vstd::utf8::encode_utf8(s@);
impl VOptions {
    pub uninterp spec fn s_password(&self) -> Seq<u8>;
    pub uninterp spec fn s_clear_ok(&self) -> bool;
    pub uninterp spec fn s_plugin(&self) -> Option<AuthPlugin>;
    pub uninterp spec fn s_user(&self) -> Seq<u8>;
    pub uninterp spec fn s_db(&self) -> Option<Seq<u8>>;
    pub uninterp spec fn s_caps(&self) -> u32;
    pub uninterp spec fn s_max(&self) -> Option<usize>;
    #[verifier::external_body]
    pub fn user(&self) -> (r: &str) ensures vstd::utf8::encode_utf8(r@) == self.s_user() { unimplemented!() }
    #[verifier::external_body]
    pub fn password(&self) -> (r: &str) ensures vstd::utf8::encode_utf8(r@) == self.s_password() { unimplemented!() }
    #[verifier::external_body]
    pub fn db_name(&self) -> (r: Option<&str>)
        ensures r is Some <==> self.s_db() is Some, r is Some ==> vstd::utf8::encode_utf8(r->Some_0@) == self.s_db()->Some_0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max_allowed_packet(&self) -> (r: Option<usize>) ensures r == self.s_max() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_capabilities(&self) -> (r: CapabilityFlags) ensures r.bits == self.s_caps() { unimplemented!() }
    #[verifier::external_body]
    pub fn allow_cleartext_password(&self) -> (r: bool) ensures r == self.s_clear_ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn auth_plugin(&self) -> (r: Option<AuthPlugin>) ensures r == self.s_plugin() { unimplemented!() }
}
/// The name of the plugin on the wire.
pub open spec fn plugin_name(p: AuthPlugin) -> Seq<u8> {
    match p {
        // mysql_clear_password
        AuthPlugin::Clear => seq![0x6du8, 0x79, 0x73, 0x71, 0x6c, 0x5f, 0x63, 0x6c, 0x65, 0x61, 0x72, 0x5f, 0x70, 0x61, 0x73, 0x73, 0x77, 0x6f, 0x72, 0x64],
        // mysql_native_password
        AuthPlugin::Native => seq![0x6du8, 0x79, 0x73, 0x71, 0x6c, 0x5f, 0x6e, 0x61, 0x74, 0x69, 0x76, 0x65, 0x5f, 0x70, 0x61, 0x73, 0x73, 0x77, 0x6f, 0x72, 0x64],
        // caching_sha2_password
        AuthPlugin::Sha2 => seq![0x63u8, 0x61, 0x63, 0x68, 0x69, 0x6e, 0x67, 0x5f, 0x73, 0x68, 0x61, 0x32, 0x5f, 0x70, 0x61, 0x73, 0x73, 0x77, 0x6f, 0x72, 0x64],
    }
}
/// One closing zero byte is not part of the value.
pub open spec fn unterminated(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s.last() == 0 { s.drop_last() } else { s } }
/// The bytes in front of the first zero byte (all, if there is none), and what follows it.
#[verifier::opaque]
pub open spec fn nul_at(s: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else if s[0] == 0 { 0 } else { 1 + nul_at(s.skip(1)) } }
pub open spec fn nul_val(s: Seq<u8>) -> Seq<u8> { s.take(nul_at(s) as int) }
pub open spec fn nul_rest(s: Seq<u8>) -> Seq<u8> { if nul_at(s) < s.len() { s.skip(nul_at(s) as int + 1) } else { Seq::empty() } }
pub proof fn lemma_nul_is(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> s[j] != 0, i < s.len() ==> s[i] == 0
    ensures nul_at(s) == i
    decreases s.len()
{ reveal(nul_at); if s.len() > 0 && s[0] != 0 { lemma_nul_is(s.skip(1), i - 1); } }
/// What was written with a closing zero is read back, as long as it contains none.
pub proof fn lemma_nul_roundtrip(v: Seq<u8>, rest: Seq<u8>)
    requires !v.contains(0)
    ensures nul_val(v + seq![0u8] + rest) == v, nul_rest(v + seq![0u8] + rest) == rest
{
    let s = v + seq![0u8] + rest;
    assert forall|j: int| 0 <= j < v.len() implies s[j] != 0 by { assert(s[j] == v[j]); assert(v.contains(v[j])); }
    lemma_nul_is(s, v.len() as int);
    assert(s.take(v.len() as int) =~= v);
    assert(s.skip(v.len() as int + 1) =~= rest);
}
%fn ParseBuf::eat_null_slice
    ensures r@ == nul_val(old(self).0@), final(self).0@ == nul_rest(old(self).0@)
%at entry
    let ghost s = self.0@;
    proof { ax_slice_len(self.0); }
%at tail
    proof {
        let i = if pos > 0 && s[pos - 1] == 0 { pos - 1 } else { pos as int };
        lemma_nul_is(s, i);
        assert(s.take(pos as int).take(i) =~= s.take(i));
    }
%fn ParseBuf::eat_null_str
    ensures
        r is Ok <==> vstd::utf8::valid_utf8(nul_val(old(self).0@)),
        r is Ok ==> vstd::utf8::encode_utf8(r->Ok_0@) == nul_val(old(self).0@) && final(self).0@ == nul_rest(old(self).0@)
%raw
pub open spec fn plugin_of(s: Seq<u8>) -> Option<AuthPlugin> {
    if s == plugin_name(AuthPlugin::Clear) { Some(AuthPlugin::Clear) }
    else if s == plugin_name(AuthPlugin::Native) { Some(AuthPlugin::Native) }
    else if s == plugin_name(AuthPlugin::Sha2) { Some(AuthPlugin::Sha2) }
    else { None }
}
%fn AuthPlugin::from_bytes
    ensures
        r is Ok <==> plugin_of(unterminated(name@)) is Some,
        r is Ok ==> r->Ok_0 == plugin_of(unterminated(name@))->Some_0
%fn AuthPlugin::as_bytes
    ensures r@ == plugin_name(*self)
%impl <AuthPlugin as Deserialize>
    open spec fn de(ctx: (), before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        &&& r is Ok <==> plugin_of(unterminated(nul_val(before))) is Some
        &&& r is Ok ==> r->Ok_0 == plugin_of(unterminated(nul_val(before)))->Some_0
        &&& after == nul_rest(before)
    }
%fn <AuthPlugin as Deserialize>::deserialize
%impl <AuthPlugin as Serialize>
    open spec fn wire(&self) -> Seq<u8> { plugin_name(*self) + seq![0u8] }
%fn <AuthPlugin as Serialize>::serialize
%raw
/// A request to switch: method and nonce.
pub open spec fn switch_plugin(p: Seq<u8>) -> Option<AuthPlugin> { plugin_of(unterminated(nul_val(p.skip(1)))) }
pub open spec fn switch_nonce(p: Seq<u8>) -> Seq<u8> { unterminated(nul_rest(p.skip(1))) }
%impl <AuthSwitchRequest as Deserialize>
    open spec fn de(ctx: (), before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        before.len() > 0 ==> {
            &&& r is Ok <==> switch_plugin(before) is Some
            &&& r is Ok ==> r->Ok_0.plugin == switch_plugin(before)->Some_0 && r->Ok_0.data@ == switch_nonce(before)
        }
    }
%fn <AuthSwitchRequest as Deserialize>::deserialize
%fn AuthSwitchRequest::plugin
    ensures r == self.plugin
%fn AuthSwitchRequest::into_data
    ensures r@ == self.data@
%raw
/// What is sent for the password: nothing when it is empty, the published formula otherwise, the password itself only for mysql_clear_password.
pub open spec fn auth_response(p: AuthPlugin, nonce: Seq<u8>, pw: Seq<u8>) -> Seq<u8> {
    match p {
        AuthPlugin::Clear => pw,
        AuthPlugin::Native => if pw.len() == 0 { Seq::empty() } else { native_scramble(nonce, pw) },
        AuthPlugin::Sha2 => if pw.len() == 0 { Seq::empty() } else { sha2_scramble(nonce, pw) },
    }
}
/// The user's options admit the method.
pub open spec fn plugin_admitted(o: &VOptions, p: AuthPlugin) -> bool {
    &&& o.s_plugin() is Some ==> o.s_plugin()->Some_0 == p
    &&& p is Clear ==> o.s_clear_ok()
}
pub open spec fn pd_bytes(d: AuthPluginData) -> Seq<u8> {
    match d { AuthPluginData::Old(x) => x@, AuthPluginData::Clear(x) => x@, AuthPluginData::Native(x) => x@, AuthPluginData::Sha2(x) => x@ }
}
pub open spec fn pd_fits(d: AuthPluginData, p: AuthPlugin) -> bool {
    match d { AuthPluginData::Old(x) => false, AuthPluginData::Clear(x) => p is Clear, AuthPluginData::Native(x) => p is Native, AuthPluginData::Sha2(x) => p is Sha2 }
}
%impl <AuthPluginData as Serialize>
    open spec fn wire(&self) -> Seq<u8> { if self is Old || self is Clear { pd_bytes(*self) + seq![0u8] } else { pd_bytes(*self) } }
%fn <AuthPluginData as Serialize>::serialize
%fn <AuthPluginData as Deref>::deref as vx_deref
    ensures r@ == pd_bytes(*self)
%fn AuthPlugin::gen_data
    ensures
        r is Ok <==> plugin_admitted(options, *self),
        r is Ok ==> (r->Ok_0 is None <==> !(*self is Clear) && vstd::utf8::encode_utf8(pass@).len() == 0),
        r is Ok && r->Ok_0 is Some ==> pd_bytes(r->Ok_0->Some_0) == auth_response(*self, nonce@, vstd::utf8::encode_utf8(pass@)) && pd_fits(r->Ok_0->Some_0, *self),
        r is Err ==> r->Err_0 is Runtime,
%raw
/// Half an integer on the wire.
pub trait HalfInteger: Sized {
    spec fn half(&self) -> nat;
    fn serialize_upper(&self, buf: &mut Vec<u8>) ensures final(buf)@ == old(buf)@ + le(self.half() / 0x1_0000, 2);
    fn serialize_lower(&self, buf: &mut Vec<u8>) ensures final(buf)@ == old(buf)@ + le(self.half() % 0x1_0000, 2);
    fn deserialize_upper(buf: &mut ParseBuf<'_>) -> (r: Result<Self, ProtocolError>)
        requires old(buf).0@.len() >= 2
        ensures r is Ok, r->Ok_0.half() == le_val(old(buf).0@.take(2)) * 0x1_0000, took(old(buf).0@, final(buf).0@, 2);
    fn deserialize_lower(buf: &mut ParseBuf<'_>) -> (r: Result<Self, ProtocolError>)
        requires old(buf).0@.len() >= 2
        ensures r is Ok, r->Ok_0.half() == le_val(old(buf).0@.take(2)), took(old(buf).0@, final(buf).0@, 2);
}
pub proof fn lemma_half(x: u32)
    ensures (x >> 16) == x / 0x1_0000, (x & 0xffff) == x % 0x1_0000, x >> 16 <= 0xffff, x & 0xffff <= 0xffff
{ assert(x >> 16 == x / 0x1_0000 && x & 0xffff == x % 0x1_0000 && x >> 16 <= 0xffff && x & 0xffff <= 0xffff) by (bit_vector); }
pub proof fn lemma_shl16(x: u16)
    ensures ((x as u32) << 16) == x * 0x1_0000
{ assert(((x as u32) << 16) == (x as u32) * 0x1_0000) by (bit_vector); }
%impl <u32 as HalfInteger>
    open spec fn half(&self) -> nat { *self as nat }
%fn <u32 as HalfInteger>::serialize_upper
%rw self >> 16 => *self >> 16
%at entry
    proof { lemma_half(*self); }
%fn <u32 as HalfInteger>::serialize_lower
%rw self & 0x0000_FFFF => *self & 0x0000_FFFF
%at entry
    proof { lemma_half(*self); }
%fn <u32 as HalfInteger>::deserialize_upper
%at entry
    proof { assert(forall|x: u16| #[trigger] ((x as u32) << 16) == (x as u32) * 0x1_0000) by (bit_vector); }
%fn <u32 as HalfInteger>::deserialize_lower
%fn <CapabilityFlags as TryFrom<u32>>::try_from as try_from
    ensures
        r is Ok, r->Ok_0.bits == value
%ret Result<CapabilityFlags, InvalidFlags>
%at entry
    proof { assert(value & !0xffff_ffffu32 == 0) by (bit_vector); }
%fn <StatusFlags as TryFrom<u16>>::try_from as try_from
    ensures
        r is Ok <==> value & !StatusFlags::all_bits() == 0,
        r is Ok ==> r->Ok_0.bits == value
%ret Result<StatusFlags, InvalidFlags>
%impl <StatusFlags as Deserialize>
    open spec fn de(ctx: (), before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        &&& r is Ok <==> (le_val(before.take(2)) as u16) & !StatusFlags::all_bits() == 0
        &&& r is Ok ==> r->Ok_0.bits == le_val(before.take(2))
        &&& took(before, after, 2)
    }
%fn <StatusFlags as Deserialize>::deserialize
%at entry
    proof { lemma_pow256(); lemma_le_val_bound(buf.0@.take(2)); }
%raw
/// The pieces of a greeting: what follows the version text, the capabilities, what follows the fixed part.
pub open spec fn gr_fixed(s: Seq<u8>) -> Seq<u8> { nul_rest(s.skip(1)) }
pub open spec fn gr_caps(s: Seq<u8>) -> u32 { (le_val(gr_fixed(s).subrange(13, 15)) + 0x1_0000 * le_val(gr_fixed(s).subrange(18, 20))) as u32 }
pub open spec fn gr_has(s: Seq<u8>, f: CapabilityFlags) -> bool { gr_caps(s) & f.bits == f.bits }
pub open spec fn gr_tail(s: Seq<u8>) -> Seq<u8> { gr_fixed(s).skip(31) }
/// The second part of the nonce takes at least 13 bytes.
pub open spec fn gr_second(s: Seq<u8>) -> nat {
    if gr_has(s, CapabilityFlags::SECURE_CONNECTION) { let n = gr_fixed(s)[20] - 8; if n > 13 { n as nat } else { 13 } } else { 0 }
}
pub open spec fn gr_wellformed(s: Seq<u8>) -> bool {
    &&& s.len() >= 1 && vstd::utf8::valid_utf8(nul_val(s.skip(1))) && gr_fixed(s).len() >= 31
    &&& (le_val(gr_fixed(s).subrange(16, 18)) as u16) & !StatusFlags::all_bits() == 0
    &&& gr_tail(s).len() >= gr_second(s)
    &&& gr_has(s, CapabilityFlags::PLUGIN_AUTH) ==> gr_plugin(s) is Some
}
pub open spec fn gr_plugin(s: Seq<u8>) -> Option<AuthPlugin> { plugin_of(unterminated(gr_tail(s).skip(gr_second(s) as int))) }
/// The 20 bytes of the nonce (zeroes where a server without SECURE_CONNECTION sends none).
pub open spec fn gr_nonce(s: Seq<u8>) -> Seq<u8> {
    gr_fixed(s).subrange(4, 12) + if gr_has(s, CapabilityFlags::SECURE_CONNECTION) { gr_tail(s).take(12) } else { Seq::new(12, |i: int| 0u8) }
}
pub open spec fn gr_reports(s: Seq<u8>, r: HandshakePacket) -> bool {
    &&& r.protocol_version == s[0]
    &&& vstd::utf8::encode_utf8(r.server_version@) == nul_val(s.skip(1))
    &&& r.connection_id == le_val(gr_fixed(s).take(4))
    &&& r.capabilities.bits == gr_caps(s)
    &&& r.default_collation == gr_fixed(s)[15]
    &&& r.status_flags.bits == le_val(gr_fixed(s).subrange(16, 18))
    &&& r.nonce@ == gr_nonce(s)
    &&& r.auth_plugin == if gr_has(s, CapabilityFlags::PLUGIN_AUTH) { gr_plugin(s) } else { None }
}
pub proof fn lemma_gr_caps(a: u32, b: u32)
    requires a < 0x1_0000, b % 0x1_0000 == 0
    ensures a | b == a + b
{ assert(a < 0x1_0000 && b % 0x1_0000 == 0 ==> a | b == add(a, b) && a + b <= 0xffff_ffff) by (bit_vector); }
%impl <HandshakePacket as Deserialize>
    open spec fn de(ctx: (), before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        &&& r is Ok <==> gr_wellformed(before)
        &&& r is Ok ==> gr_reports(before, r->Ok_0)
    }
%raw
pub proof fn lemma_gr(f: Seq<u8>)
    requires f.len() >= 31
    ensures
        f.skip(4).skip(8) == f.skip(12), f.skip(12).skip(1) == f.skip(13), f.skip(13).skip(2) == f.skip(15), f.skip(15).skip(1) == f.skip(16),
        f.skip(16).skip(2) == f.skip(18), f.skip(18).skip(2) == f.skip(20), f.skip(20).skip(1) == f.skip(21), f.skip(21).skip(10) == f.skip(31),
        f.skip(4).take(8) == f.subrange(4, 12), f.skip(13).take(2) == f.subrange(13, 15), f.skip(16).take(2) == f.subrange(16, 18), f.skip(18).take(2) == f.subrange(18, 20),
        le_val(f.skip(15).take(1)) == f[15], le_val(f.skip(20).take(1)) == f[20], f.take(4).len() == 4,
        le_val(f.subrange(13, 15)) < 0x1_0000, le_val(f.subrange(16, 18)) < 0x1_0000, le_val(f.subrange(18, 20)) < 0x1_0000,
        f.skip(13).len() == f.len() - 13
{
    broadcast use {vx_lemmas::bc_skip_skip};
    lemma_pow256();
    lemma_lenenc_at(f.skip(15)); lemma_lenenc_at(f.skip(20));
    assert(f.skip(15)[0] == f[15] && f.skip(20)[0] == f[20]);
    lemma_le_val_bound(f.subrange(13, 15)); lemma_le_val_bound(f.subrange(16, 18)); lemma_le_val_bound(f.subrange(18, 20));
}
%fn <HandshakePacket as Deserialize>::deserialize
%attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
%at entry
    let ghost s = buf.0@;
    proof { lemma_pow256(); if gr_fixed(s).len() >= 31 { lemma_gr(gr_fixed(s)); } if s.len() > 0 { lemma_lenenc_at(s); } }
%at let capabilities
    proof {
        lemma_gr_caps(capabilities_bits_1, capabilities_bits_2);
    }
%at tail
    proof { assert(nonce@ =~= gr_nonce(s)); }
%raw
// Text functions of std: characters are alphanumeric as Unicode defines it; byte positions stand for character positions.
pub uninterp spec fn alnum(c: char) -> bool;
#[verifier::external_body]
pub broadcast proof fn ax_alnum(c: char)
    ensures ('0' <= c <= '9' ==> #[trigger] alnum(c)) && ((c == '.' || c == '-') ==> !alnum(c))
{ }
pub uninterp spec fn char_at(s: Seq<char>, p: usize) -> int;
pub open spec fn boundary(s: Seq<char>, p: usize) -> bool { 0 <= char_at(s, p) <= s.len() }
pub open spec fn sep(s: Seq<char>) -> Option<nat>
    decreases s.len()
{
    if s.len() == 0 { None } else if !alnum(s[0]) { Some(0) } else { match sep(s.skip(1)) { Some(k) => Some(k + 1), None => None } }
}
#[verifier::external_body]
pub fn vx_find_sep(s: &str) -> (r: Option<usize>)
    ensures r is Some <==> sep(s@) is Some, r is Some ==> boundary(s@, r->Some_0) && char_at(s@, r->Some_0) == sep(s@)->Some_0
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_str_to(s: &str, p: usize) -> (r: &str)
    requires boundary(s@, p)
    ensures r@ == s@.take(char_at(s@, p))
{ unimplemented!() }
#[verifier::external_body]
pub struct VxChars<'a> { x: &'a str }
impl<'a> VxChars<'a> {
    pub uninterp spec fn left(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str)
        ensures r@ == self.left()
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_chars_from<'a>(s: &'a str, p: usize) -> (r: VxChars<'a>)
    requires boundary(s@, p)
    ensures r.left() == s@.skip(char_at(s@, p))
{ unimplemented!() }
pub open spec fn dig(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn digs(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> dig(#[trigger] s[i]) }
pub open spec fn dval(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + (s.last() as nat - '0' as nat) as nat } }
/// `u16::from_str`: an optional plus sign and decimal digits, within range.
pub open spec fn u16_of(s: Seq<char>) -> Option<u16> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if digs(d) && dval(d) <= 65535 { Some(dval(d) as u16) } else { None }
}
#[verifier::external_body]
pub fn vx_u16(s: &str) -> (r: Option<u16>)
    ensures r == u16_of(s@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool)
    ensures r == starts(s@, p@)
{ unimplemented!() }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
/// The number at the front, and what follows the character that ends it.
pub open spec fn eat(s: Seq<char>) -> (Option<u16>, Seq<char>) {
    match sep(s) { Some(k) => (u16_of(s.take(k as int)), s.skip(k as int).skip(1)), None => (u16_of(s), Seq::empty()) }
}
pub open spec fn version_of(s: Seq<char>) -> Option<((u16, u16, u16), bool)> {
    let a = eat(s); let b = eat(a.1); let c = eat(b.1);
    if a.0 is Some && b.0 is Some && c.0 is Some { Some(((a.0->Some_0, b.0->Some_0, c.0->Some_0), starts(c.1, maria()))) } else { None }
}
pub open spec fn maria() -> Seq<char> { seq!['M', 'a', 'r', 'i', 'a', 'D', 'B'] }
pub proof fn lemma_sep(d: Seq<char>, t: Seq<char>)
    requires forall|i: int| 0 <= i < d.len() ==> dig(#[trigger] d[i]), t.len() > 0 ==> !alnum(t[0])
    ensures sep(d + t) == (if t.len() > 0 { Some(d.len()) } else { None::<nat> })
    decreases d.len()
{
    broadcast use ax_alnum;
    if d.len() == 0 { assert(d + t =~= t); } else {
        assert(dig(d[0]));
        lemma_sep(d.skip(1), t);
        assert((d + t).skip(1) =~= d.skip(1) + t);
    }
}
pub proof fn lemma_eat(d: Seq<char>, t: Seq<char>)
    requires digs(d), t.len() > 0 ==> !alnum(t[0])
    ensures eat(d + t).0 == (if dval(d) <= 65535 { Some(dval(d) as u16) } else { None::<u16> }), t.len() > 0 ==> eat(d + t).1 == t.skip(1), t.len() == 0 ==> eat(d + t).1.len() == 0
{
    lemma_sep(d, t);
    assert(dig(d[0]));
    if t.len() > 0 { assert((d + t).take(d.len() as int) =~= d); assert((d + t).skip(d.len() as int) =~= t); } else { assert(d + t =~= d); }
}
/// `a.b.c` followed by nothing or by a character that is no letter and no digit is the version a.b.c.
pub proof fn c19_version(a: Seq<char>, b: Seq<char>, c: Seq<char>, t: Seq<char>)
    requires digs(a), digs(b), digs(c), dval(a) <= 65535, dval(b) <= 65535, dval(c) <= 65535, t.len() > 0 ==> !alnum(t[0])
    ensures
        version_of(a + (seq!['.'] + (b + (seq!['.'] + (c + t))))) == Some(((dval(a) as u16, dval(b) as u16, dval(c) as u16), t.len() > 0 && starts(t.skip(1), maria()))),
{
    hide(sep); hide(eat); hide(dval); hide(digs); hide(u16_of);
    ax_alnum('.');
    let z = c + t; let y = b + (seq!['.'] + z);
    lemma_eat(c, t);
    lemma_eat(b, seq!['.'] + z);
    assert((seq!['.'] + z).skip(1) =~= z);
    lemma_eat(a, seq!['.'] + y);
    assert((seq!['.'] + y).skip(1) =~= y);
}
pub proof fn lemma_sep_bound(s: Seq<char>)
    ensures sep(s) is Some ==> sep(s)->Some_0 < s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_sep_bound(s.skip(1)); } }
%fn HandshakePacket::parse_server_version::eat_int
    ensures r == eat(old(string)@).0, final(string)@ == eat(old(string)@).1
%at entry
    proof { lemma_sep_bound(string@); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
%rw string.find(|x: char| !x.is_alphanumeric()) => vx_find_sep(string)
%rw u16::from_str(&string[..pos]).ok() => vx_u16(vx_str_to(string, pos))
%rw string[pos..].chars() => vx_chars_from(string, pos)
%rw u16::from_str(string).ok() => vx_u16(string)
%fn HandshakePacket::parse_server_version
    ensures r == version_of(self.server_version@)
%rw server_version.starts_with("MariaDB") => vx_starts_with(server_version, "MariaDB")
%at entry
    proof { reveal_strlit("MariaDB"); assert("MariaDB"@ =~= maria()); }
%fn HandshakePacket::connection_id
    ensures r == self.connection_id
%fn HandshakePacket::into_nonce
    ensures r@ == self.nonce@
%fn HandshakePacket::nonce
    ensures r@ == self.nonce@
%fn HandshakePacket::capabilities
    ensures r == self.capabilities
%fn HandshakePacket::auth_plugin
    ensures r == self.auth_plugin
%fn HandshakePacket::server_version
    ensures r@ == self.server_version@
%fn HandshakePacket::protocol_version
    ensures r == self.protocol_version
%fn HandshakePacket::default_collation
    ensures r == self.default_collation
%fn HandshakePacket::status_flags
    ensures r == self.status_flags
%raw
/// Connection attributes, in the order in which the map yields them.
pub open spec fn attr_enc(a: (String, String)) -> Seq<u8> { ls_enc(vstd::utf8::encode_utf8(a.0@)) + ls_enc(vstd::utf8::encode_utf8(a.1@)) }
#[verifier::opaque]
pub open spec fn attrs_enc(s: Seq<(String, String)>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { attrs_enc(s.drop_last()) + attr_enc(s.last()) } }
/// All attributes are in memory: their encodings fit into memory together.
#[verifier::external_body]
pub proof fn ax_attrs(s: Seq<(String, String)>)
    ensures attrs_enc(s).len() <= i64::MAX
{ }
pub proof fn lemma_attrs_prefix(s: Seq<(String, String)>, n: int)
    requires 0 <= n <= s.len()
    ensures attrs_enc(s.take(n)).len() <= attrs_enc(s).len()
    decreases s.len() - n
{
    if n < s.len() {
        reveal(attrs_enc);
        lemma_attrs_prefix(s, n + 1);
        assert(s.take(n + 1).drop_last() =~= s.take(n));
    } else { assert(s.take(n) =~= s); }
}
pub broadcast proof fn bc_attrs0(s: Seq<(String, String)>)
    requires s.len() == 0
    ensures #[trigger] attrs_enc(s) == Seq::<u8>::empty()
{ reveal(attrs_enc); }
pub proof fn lemma_attrs_step(s: Seq<(String, String)>, n: int, b: Seq<u8>)
    requires 0 <= n < s.len()
    ensures ({ let x = ls_enc(vstd::utf8::encode_utf8(s[n].0@)); let y = ls_enc(vstd::utf8::encode_utf8(s[n].1@));
        attrs_enc(s.take(n + 1)).len() == attrs_enc(s.take(n)).len() + x.len() + y.len() && b + attrs_enc(s.take(n + 1)) == b + attrs_enc(s.take(n)) + x + y })
{
    reveal(attrs_enc);
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    let x = ls_enc(vstd::utf8::encode_utf8(s[n].0@)); let y = ls_enc(vstd::utf8::encode_utf8(s[n].1@));
    assert(b + attrs_enc(s.take(n + 1)) =~= b + attrs_enc(s.take(n)) + x + y);
}
/// The response in the form the capabilities prescribe.
pub open spec fn scr_enc(e: ScrambleEncoding, s: Seq<u8>) -> Seq<u8> {
    match e {
        ScrambleEncoding::LenEnc => ls_enc(s),
        ScrambleEncoding::U8 => if s.len() <= 255 { seq![s.len() as u8] + s } else { seq![255u8] + s.take(255) },
        ScrambleEncoding::Null => s + seq![0u8],
    }
}
pub open spec fn hr_fixed(r: HandshakeResponse) -> Seq<u8> {
    le(r.capabilities.bits as nat, 4) + (le(r.max_packet_size as nat, 4) + (le(r.collation as nat, 1) + Seq::new(23, |i: int| 0u8)))
}
pub open spec fn hr_db(r: HandshakeResponse) -> Seq<u8> { match r.db_name { Some(d) => d@ + seq![0u8], None => Seq::empty() } }
pub open spec fn hr_plugin(r: HandshakeResponse) -> Seq<u8> { match r.auth_plugin { Some(p) => plugin_name(p) + seq![0u8], None => Seq::empty() } }
pub open spec fn hr_attrs(r: HandshakeResponse) -> Seq<u8> { match r.connect_attributes { Some(a) => li_enc(attrs_enc(a@).len() as u64) + attrs_enc(a@), None => Seq::empty() } }
pub open spec fn hr_wire(r: HandshakeResponse) -> Seq<u8> {
    hr_fixed(r) + (r.user@ + seq![0u8] + (scr_enc(r.scramble_encoding, r.scramble@) + (hr_db(r) + (hr_plugin(r) + hr_attrs(r)))))
}
pub proof fn lemma_hr(b: Seq<u8>, f: Seq<u8>, u: Seq<u8>, s: Seq<u8>, d: Seq<u8>, p: Seq<u8>, a: Seq<u8>)
    ensures b + f + u + seq![0u8] + s + d + p + a == b + (f + (u + seq![0u8] + (s + (d + (p + a)))))
{ assert(b + f + u + seq![0u8] + s + d + p + a =~= b + (f + (u + seq![0u8] + (s + (d + (p + a)))))); }
%impl <CapabilityFlags as Serialize>
    open spec fn wire(&self) -> Seq<u8> { le(self.bits as nat, 4) }
%fn <CapabilityFlags as Serialize>::serialize
%impl <HandshakeResponse as Serialize>
    open spec fn wire(&self) -> Seq<u8> { hr_wire(*self) }
%fn <HandshakeResponse as Serialize>::serialize
%attr #[verifier::loop_isolation(false)]
%attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
%at entry
    let ghost b0 = buf@;
    broadcast use {bc_attrs0};
%loop 0
    invariant vx_a1 == attrs_enc(attrs@.take(it0.index@)).len(), it0.seq().len() == attrs@.len(), forall|k: int| 0 <= k < attrs@.len() ==> *(#[trigger] it0.seq()[k]) == attrs@[k]
%at loop 0 start
    proof {
        let n = it0.index@;
        lemma_attrs_step(attrs@, n, Seq::empty());
        lemma_attrs_prefix(attrs@, n + 1); ax_attrs(attrs@);
    }
%at before call put_lenenc_int
    let ghost b1 = buf@;
    proof { assert(b1 + li_enc(attrs_enc(attrs@).len() as u64) + attrs_enc(attrs@.take(0)) =~= b1 + li_enc(attrs_enc(attrs@).len() as u64)) by { reveal(attrs_enc); } assert(attrs@.take(attrs@.len() as int) =~= attrs@); ax_attrs(attrs@); }
%loop 1
    invariant buf@ == b1 + li_enc(attrs_enc(attrs@).len() as u64) + attrs_enc(attrs@.take(it1.index@)), it1.seq().len() == attrs@.len(), forall|k: int| 0 <= k < attrs@.len() ==> *(#[trigger] it1.seq()[k]) == attrs@[k]
%at loop 1 start
    proof { lemma_attrs_step(attrs@, it1.index@, b1 + li_enc(attrs_enc(attrs@).len() as u64)); }
%at loop 1 after
    proof { assert(attrs@.take(attrs@.len() as int) =~= attrs@); assert(buf@ =~= g + hr_attrs(*self)); }
%at before call put_null_slice
    let ghost g0 = buf@;
    proof { assert(g0 =~= b0 + hr_fixed(*self)) by { lemma_le_one(self.collation); assert(self.capabilities.wire() == le(self.capabilities.bits as nat, 4)); assert(self.max_packet_size.wire() == le(self.max_packet_size as nat, 4)); assert(self.collation.wire() == le(self.collation as nat, 1)); } }
%at after call put_null_slice
    let ghost g1 = buf@;
%at after call put_u8_slice
    let ghost g2 = buf@;
    proof { assert(g2 =~= g1 + scr_enc(self.scramble_encoding, self.scramble@)); }
%at tail
    let ghost g = buf@;
    proof {
        assert(g =~= g2 + hr_db(*self) + hr_plugin(*self));
        lemma_hr(b0, hr_fixed(*self), self.user@, scr_enc(self.scramble_encoding, self.scramble@), hr_db(*self), hr_plugin(*self), hr_attrs(*self));
        assert(g + hr_attrs(*self) == b0 + hr_wire(*self));
        if self.connect_attributes is None { assert(g + hr_attrs(*self) =~= g); }
    }
%raw
/// The answer announces exactly the optional fields it holds, and the form of the response follows from what it announces.
pub open spec fn hr_consistent(r: HandshakeResponse) -> bool {
    &&& r.capabilities.has(CapabilityFlags::CONNECT_WITH_DB) <==> r.db_name is Some
    &&& r.capabilities.has(CapabilityFlags::PLUGIN_AUTH) <==> r.auth_plugin is Some
    &&& r.capabilities.has(CapabilityFlags::CONNECT_ATTRS) <==> r.connect_attributes is Some
    &&& r.scramble_encoding == if r.capabilities.has(CapabilityFlags::PLUGIN_AUTH_LENENC_CLIENT_DATA) { ScrambleEncoding::LenEnc }
        else if r.capabilities.has(CapabilityFlags::SECURE_CONNECTION) { ScrambleEncoding::U8 } else { ScrambleEncoding::Null }
}
/// The capabilities that are not about the optional fields.
pub open spec fn hr_other(c: CapabilityFlags) -> u32 { c.bits & !(CapabilityFlags::CONNECT_WITH_DB.bits | CapabilityFlags::PLUGIN_AUTH.bits | CapabilityFlags::CONNECT_ATTRS.bits) }
pub proof fn lemma_announce(c: u32, db: bool, pl: bool, at: bool)
    ensures ({
        let x = if db { c | 8 } else { c & !8u32 };
        let y = if pl { x | 0x8_0000 } else { x & !0x8_0000u32 };
        let z = if at { y | 0x10_0000 } else { y & !0x10_0000u32 };
        (z & 8 == 8 <==> db) && (z & 0x8_0000 == 0x8_0000 <==> pl) && (z & 0x10_0000 == 0x10_0000 <==> at)
            && z & !(8u32 | 0x8_0000 | 0x10_0000) == c & !(8u32 | 0x8_0000 | 0x10_0000) && z & 0x20_0000 == c & 0x20_0000 && z & 0x8000 == c & 0x8000
    })
{
    let x = if db { c | 8 } else { c & !8u32 };
    let y = if pl { x | 0x8_0000 } else { x & !0x8_0000u32 };
    let z = if at { y | 0x10_0000 } else { y & !0x10_0000u32 };
    assert((z & 8 == 8 <==> db) && (z & 0x8_0000 == 0x8_0000 <==> pl) && (z & 0x10_0000 == 0x10_0000 <==> at)
            && z & !(8u32 | 0x8_0000 | 0x10_0000) == c & !(8u32 | 0x8_0000 | 0x10_0000) && z & 0x20_0000 == c & 0x20_0000 && z & 0x8000 == c & 0x8000) by (bit_vector)
        requires x == (if db { c | 8 } else { c & !8u32 }), y == (if pl { x | 0x8_0000 } else { x & !0x8_0000u32 }), z == (if at { y | 0x10_0000 } else { y & !0x10_0000u32 });
}
pub fn vx_ge3(a: (u16, u16, u16), b: (u16, u16, u16)) -> (r: bool)
    ensures r == (a.0 > b.0 || (a.0 == b.0 && (a.1 > b.1 || (a.1 == b.1 && a.2 >= b.2))))
{ a.0 > b.0 || (a.0 == b.0 && (a.1 > b.1 || (a.1 == b.1 && a.2 >= b.2))) }
%fn HandshakeResponse::new
    ensures
        hr_consistent(r), hr_other(r.capabilities) == hr_other(capabilities),
        r.scramble@ == scramble@, r.user@ == user@, r.db_name is Some == db_name is Some, db_name is Some ==> r.db_name->Some_0@ == db_name->Some_0@,
        r.auth_plugin == auth_plugin, r.connect_attributes == connect_attributes, r.max_packet_size == max_packet_size,
        r.collation == if server_version.0 > 5 || (server_version.0 == 5 && (server_version.1 > 5 || (server_version.1 == 5 && server_version.2 >= 3))) { 45u8 } else { 33u8 },
%rw server_version >= (5, 5, 3) => vx_ge3(server_version, (5, 5, 3))
%at entry
    proof {
        lemma_announce(capabilities.bits, db_name is Some, auth_plugin is Some, connect_attributes is Some);
    }
%raw
/// How a server takes the answer apart: flags, user, response, database, method, attributes.
pub struct HrParts { pub user: Seq<u8>, pub scramble: Seq<u8>, pub db: Option<Seq<u8>>, pub plugin: Option<Seq<u8>>, pub rest: Seq<u8> }
pub open spec fn hr_parse(p: Seq<u8>) -> HrParts {
    let caps = CapabilityFlags { bits: le_val(p.take(4)) as u32 };
    let u = p.skip(32);
    let s = nul_rest(u);
    let (scr, d) = if caps.has(CapabilityFlags::PLUGIN_AUTH_LENENC_CLIENT_DATA) { (ls_val(s), s.skip(ls_len(s) as int)) }
        else if caps.has(CapabilityFlags::SECURE_CONNECTION) { (s.subrange(1, 1 + s[0]), s.skip(1 + s[0])) }
        else { (nul_val(s), nul_rest(s)) };
    let (db, a) = if caps.has(CapabilityFlags::CONNECT_WITH_DB) { (Some(nul_val(d)), nul_rest(d)) } else { (None, d) };
    let (plugin, rest) = if caps.has(CapabilityFlags::PLUGIN_AUTH) { (Some(nul_val(a)), nul_rest(a)) } else { (None, a) };
    HrParts { user: nul_val(u), scramble: scr, db, plugin, rest }
}
/// What can be written at all: no zero byte in what a zero byte ends, no more than 255 bytes behind a one-byte length.
pub open spec fn hr_representable(r: HandshakeResponse) -> bool {
    &&& !r.user@.contains(0) && (r.db_name is Some ==> !r.db_name->Some_0@.contains(0))
    &&& r.scramble_encoding is Null ==> !r.scramble@.contains(0)
    &&& r.scramble_encoding is U8 ==> r.scramble@.len() <= 255
}
/// A server parses back what the answer was made of.
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn c19_parse_back(r: HandshakeResponse)
    requires hr_consistent(r), hr_representable(r)
    ensures ({
        let x = hr_parse(hr_wire(r));
        &&& x.user == r.user@ && x.scramble == r.scramble@
        &&& x.db == (match r.db_name { Some(d) => Some(d@), None => None })
        &&& x.plugin == (match r.auth_plugin { Some(p) => Some(plugin_name(p)), None => None })
        &&& x.rest == hr_attrs(r)
    })
{
    lemma_pow256();
    let p = hr_wire(r);
    let c = le(r.capabilities.bits as nat, 4);
    lemma_le_roundtrip(r.capabilities.bits as nat, 4);
    lemma_le_len(r.max_packet_size as nat, 4); lemma_le_len(r.collation as nat, 1);
    assert(p.take(4) =~= c);
    let z = hr_attrs(r);
    let a = hr_plugin(r) + z;
    let d = hr_db(r) + a;
    let s = scr_enc(r.scramble_encoding, r.scramble@) + d;
    assert(p.skip(32) =~= r.user@ + seq![0u8] + s);
    lemma_nul_roundtrip(r.user@, s);
    match r.scramble_encoding {
        ScrambleEncoding::LenEnc => { assert(r.scramble@.len() <= u64::MAX) by { ax_slice_len(r.scramble); } c03_lenenc_slice_roundtrip(r.scramble@, d); }
        ScrambleEncoding::U8 => { assert(s.subrange(1, 1 + s[0]) =~= r.scramble@); assert(s.skip(1 + s[0]) =~= d); }
        ScrambleEncoding::Null => { lemma_nul_roundtrip(r.scramble@, d); }
    }
    if let Some(x) = r.db_name { lemma_nul_roundtrip(x@, a); } else { assert(d =~= a); }
    if let Some(x) = r.auth_plugin {
        assert(!plugin_name(x).contains(0));
        lemma_nul_roundtrip(plugin_name(x), z);
    } else { assert(a =~= z); }
}
