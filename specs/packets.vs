%# OK, EOF, ERR, statement, column definition and authentication switch packets.
%use wire
%path String::from_utf8 => vx_string_from_utf8
%path std::string::String::from_utf8 => vx_string_from_utf8
%ty PoolItem<'_,Vec<u8>> => Vec<u8>
%ty dynConnectionOptionsTrait => VOptions
%raw
/// The user's options; the getters of `ConnectionOptions` are under contract in unit options.
#[verifier::external_body]
pub struct VOptions { x: () }
impl Clone for VOptions {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_string_from_utf8(v: Vec<u8>) -> (r: Result<String, VxFromUtf8Error>)
    ensures
        r is Ok <==> vstd::utf8::valid_utf8(v@),
        r is Ok ==> vstd::utf8::encode_utf8(r->Ok_0@) == v@,
{ unimplemented!() }
%flags CapabilityFlags u32
%flags StatusFlags u16
%flags ColumnFlags u16
%type ColumnType derive=Clone,Copy
%type OkPacket
%type ErrorPacket
%type ProgressPacket
%type ErrPacket
%type error::Error
%type Stmt
%type ColumnDef
%type Column
%type AuthSwitchRequest
%raw
impl FromSpecImpl<ErrPacket> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ErrPacket) -> Self { Error::Server(v) }
}
impl FromSpecImpl<ProtocolError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ProtocolError) -> Self { Error::Protocol(v) }
}
impl FromSpecImpl<RuntimeError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: RuntimeError) -> Self { Error::Runtime(v) }
}
impl FromSpecImpl<ParseError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParseError) -> Self { Error::Protocol(ProtocolError::Parse(v)) }
}
impl FromSpecImpl<SerializeError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: SerializeError) -> Self { Error::Protocol(ProtocolError::Serialize(v)) }
}
impl FromSpecImpl<IoError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IoError) -> Self { Error::Protocol(ProtocolError::Io(v)) }
}
/// An optional string of an OK packet: what is missing, malformed or empty counts as absent.
pub open spec fn opt_str(s: Seq<u8>, r: Option<String>) -> bool {
    if ls_ok(s) && vstd::utf8::valid_utf8(ls_val(s)) && ls_val(s).len() > 0 {
        r is Some && vstd::utf8::encode_utf8(r->Some_0@) == ls_val(s)
    } else {
        r is None
    }
}
/// What follows the marker, the two lengths, and the four bytes of status and warnings.
pub open spec fn ok_s0(p: Seq<u8>) -> Seq<u8> { p.skip(1) }
pub open spec fn ok_s1(p: Seq<u8>) -> Seq<u8> { ok_s0(p).skip(li_len(ok_s0(p)) as int) }
pub open spec fn ok_s2(p: Seq<u8>) -> Seq<u8> { ok_s1(p).skip(li_len(ok_s1(p)) as int) }
pub open spec fn ok_wellformed(p: Seq<u8>) -> bool {
    p.len() >= 1 && p[0] == 0 && li_ok(ok_s0(p)) && li_ok(ok_s1(p)) && ok_s2(p).len() >= 4
}
/// A well-formed OK packet and what has to be reported for it.
pub open spec fn ok_reports(p: Seq<u8>, cap: CapabilityFlags, r: OkPacket) -> bool {
    let s = ok_s2(p);
    &&& r.affected_rows == li_val(ok_s0(p))
    &&& r.last_insert_id == li_val(ok_s1(p))
    &&& r.status.bits == (le_val(s.take(2)) as u16) & StatusFlags::all_bits()
    &&& r.warnings == le_val(s.subrange(2, 4))
    &&& opt_str(s.skip(4), r.message)
    &&& !(cap.has(CapabilityFlags::SESSION_TRACK) && r.status.has(StatusFlags::SESSION_STATE_CHANGED)) ==> r.session_state_info is None
    &&& cap.has(CapabilityFlags::SESSION_TRACK) && r.status.has(StatusFlags::SESSION_STATE_CHANGED) && ls_ok(s.skip(4)) && vstd::utf8::valid_utf8(ls_val(s.skip(4)))
        ==> opt_str(s.skip(4).skip(ls_len(s.skip(4)) as int), r.session_state_info)
}
/// The packet that ends a result set: the two lengths are only skipped.
pub open spec fn eof_wellformed(p: Seq<u8>) -> bool {
    p.len() >= 1 && p[0] == 0xfe && li_ok(ok_s0(p)) && li_ok(ok_s1(p)) && ok_s2(p).len() >= 4
}
pub open spec fn eof_reports(p: Seq<u8>, r: OkPacket) -> bool {
    let s = ok_s2(p);
    &&& r.affected_rows == 0 && r.last_insert_id == 0
    &&& r.status.bits == (le_val(s.take(2)) as u16) & StatusFlags::all_bits()
    &&& r.warnings == le_val(s.subrange(2, 4))
    &&& opt_str(s.skip(4), r.message)
}
pub open spec fn old_eof_reports(p: Seq<u8>, r: OkPacket) -> bool {
    &&& r.affected_rows == 0 && r.last_insert_id == 0
    &&& r.warnings == le_val(p.subrange(1, 3))
    &&& r.status.bits == (le_val(p.subrange(3, 5)) as u16) & StatusFlags::all_bits()
    &&& r.message is None && r.session_state_info is None
}
/// An ERR packet and what has to be reported for it.
pub open spec fn err_reports(p: Seq<u8>, cap: CapabilityFlags, r: Result<ErrPacket, ProtocolError>) -> bool {
    if p.len() < 3 || p[0] != 0xff { r is Err } else {
        let code = le_val(p.subrange(1, 3));
        if code == 0xffff && cap.has(CapabilityFlags::PROGRESS_OBSOLETE) {
            r is Ok ==> r->Ok_0 is Progress
        } else {
            error_reports(p.skip(3), code as u16, cap.has(CapabilityFlags::PROTOCOL_41), r)
        }
    }
}
pub open spec fn error_reports(s: Seq<u8>, code: u16, p41: bool, r: Result<ErrPacket, ProtocolError>) -> bool {
    &&& r is Ok <==> error_wellformed(s, p41)
    &&& r is Ok ==> r->Ok_0 is Error && error_fields(s, code, p41, r->Ok_0->Error_0)
}
pub open spec fn error_wellformed(s: Seq<u8>, p41: bool) -> bool {
    if p41 {
        s.len() >= 6 && s[0] == 0x23 && vstd::utf8::valid_utf8(s.subrange(1, 6)) && vstd::utf8::valid_utf8(s.skip(6))
    } else {
        vstd::utf8::valid_utf8(s)
    }
}
pub open spec fn error_fields(s: Seq<u8>, code: u16, p41: bool, e: ErrorPacket) -> bool {
    &&& e.code == code
    &&& p41 ==> e.state is Some && e.state->Some_0@ == s.subrange(1, 6) && vstd::utf8::encode_utf8(e.message@) == s.skip(6)
    &&& !p41 ==> e.state is None && vstd::utf8::encode_utf8(e.message@) == s
}
%fn <Error as From<ErrPacket>>::from
%fn <Error as From<ProtocolError>>::from
%fn <Error as From<RuntimeError>>::from
%fn <Error as From<ParseError>>::from
%fn <Error as From<SerializeError>>::from
%fn <Error as From<Error>>::from
%fn RuntimeError::auth_plugin_mismatch
    ensures r is AuthPluginMismatch
%fn OkPacket::affected_rows
    ensures r == self.affected_rows
%fn OkPacket::last_insert_id
    ensures r == self.last_insert_id
%fn OkPacket::status
    ensures r == self.status
%fn OkPacket::warnings
    ensures r == self.warnings
%fn OkPacket::message
    ensures r is Some <==> self.message is Some, r is Some ==> r->Some_0 == self.message->Some_0
%fn OkPacket::session_state_info
    ensures r is Some <==> self.session_state_info is Some, r is Some ==> r->Some_0 == self.session_state_info->Some_0
%fn OkPacket::read_ok
    ensures
        r is Ok <==> ok_wellformed(packet@),
        r is Ok ==> ok_reports(packet@, capabilities, r->Ok_0)
%attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
%at entry
    broadcast use {bc_li_len, bc_ls_len};
    proof { lemma_lenenc_at(packet@); lemma_pow256(); lemma_empty_str(); if packet@.len() > 0 { lemma_ok_cursor(packet@); } }
%fn OkPacket::read_eof
    ensures
        packet@.len() == 0 || packet@[0] != 0xfe ==> r is Err,
        eof_wellformed(packet@) ==> r is Ok && eof_reports(packet@, r->Ok_0)
%at entry
    broadcast use {bc_li_len, bc_ls_len};
    proof { lemma_lenenc_at(packet@); lemma_pow256(); lemma_empty_str(); if packet@.len() > 0 { lemma_ok_cursor(packet@); } }
%fn OkPacket::read_old_eof
    ensures
        r is Ok <==> packet@.len() >= 5 && packet@[0] == 0xfe,
        r is Ok ==> old_eof_reports(packet@, r->Ok_0)
%at entry
    proof { lemma_lenenc_at(packet@); lemma_pow256(); }
%raw
pub proof fn lemma_empty_str()
    ensures
        forall|s: Seq<char>| #[trigger] vstd::utf8::encode_utf8(s).len() == 0 <==> s.len() == 0
{
    assert forall|s: Seq<char>| #[trigger] vstd::utf8::encode_utf8(s).len() == 0 <==> s.len() == 0 by {
        reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    }
}
pub proof fn lemma_ok_cursor(p: Seq<u8>)
    requires p.len() > 0
    ensures
        ok_s2(p).len() >= 4 ==> ok_s2(p).skip(2).take(2) == ok_s2(p).subrange(2, 4) && ok_s2(p).skip(2).skip(2) == ok_s2(p).skip(4),
        le_val(ok_s2(p).take(2)) < 0x1_0000 || ok_s2(p).len() < 2,
{
    lemma_pow256();
    if ok_s2(p).len() >= 4 { assert(ok_s2(p).skip(2).skip(2) =~= ok_s2(p).skip(4)); }
    if ok_s2(p).len() >= 2 { lemma_le_val_bound(ok_s2(p).take(2)); }
}
%fn ErrorPacket::code
    ensures r == self.code
%fn ErrorPacket::state
    ensures r is Some <==> self.state is Some, r is Some ==> *r->Some_0 == self.state->Some_0
%fn ErrorPacket::message
    ensures r@ == self.message@
%impl <ErrorPacket as Deserialize>
    open spec fn de(ctx: (u16, bool), before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        &&& r is Ok <==> error_wellformed(before, ctx.1)
        &&& r is Ok ==> error_fields(before, ctx.0, ctx.1, r->Ok_0)
    }
%fn <ErrorPacket as Deserialize>::deserialize
%at entry
    broadcast use {vx_lemmas::bc_skip_skip};
%impl <ProgressPacket as Deserialize>
    open spec fn de(ctx: (), before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        &&& r is Ok <==> before.len() >= 6 && ls_ok(before.skip(6))
        &&& r is Ok ==> r->Ok_0.stage == before[1] && r->Ok_0.max_stage == before[2] && r->Ok_0.progress == le_val(before.subrange(3, 6)) && r->Ok_0.stage_info@ == ls_val(before.skip(6))
    }
%fn <ProgressPacket as Deserialize>::deserialize
%at entry
    broadcast use {vx_lemmas::bc_skip_skip};
%impl <ErrPacket as Deserialize>
    open spec fn de(ctx: CapabilityFlags, before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        err_reports(before, ctx, r)
    }
%fn <ErrPacket as Deserialize>::deserialize
%at entry
    broadcast use {vx_lemmas::bc_skip_skip};
%impl <Stmt as Deserialize>
    open spec fn de_pre(ctx: (), before: Seq<u8>) -> bool { true }
    open spec fn de(ctx: (), before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        &&& r is Ok <==> before.len() >= 12
        &&& r is Ok ==> r->Ok_0.id == le_val(before.subrange(1, 5)) && r->Ok_0.columns_len == le_val(before.subrange(5, 7))
            && r->Ok_0.params_len == le_val(before.subrange(7, 9)) && r->Ok_0.warning_count == le_val(before.subrange(10, 12))
    }
%fn <Stmt as Deserialize>::deserialize
%at entry
    broadcast use {vx_lemmas::bc_skip_skip};
%raw
/// The codes MySQL assigns to column types.
pub open spec fn ct_code(t: ColumnType) -> u8 {
    match t {
        ColumnType::Decimal => 0, ColumnType::Tiny => 1, ColumnType::Short => 2, ColumnType::Long => 3,
        ColumnType::Float => 4, ColumnType::Double => 5, ColumnType::Null => 6, ColumnType::Timestamp => 7,
        ColumnType::LongLong => 8, ColumnType::Int24 => 9, ColumnType::Date => 10, ColumnType::Time => 11,
        ColumnType::Datetime => 12, ColumnType::Year => 13, ColumnType::NewDate => 14, ColumnType::Varchar => 15,
        ColumnType::Bit => 16, ColumnType::Timestamp2 => 17, ColumnType::Datetime2 => 18, ColumnType::Time2 => 19,
        ColumnType::TypedArray => 20, ColumnType::Unknown => 243, ColumnType::Json => 245, ColumnType::NewDecimal => 246,
        ColumnType::Enum => 247, ColumnType::Set => 248, ColumnType::TinyBlob => 249, ColumnType::MediumBlob => 250,
        ColumnType::LongBlob => 251, ColumnType::Blob => 252, ColumnType::VarString => 253, ColumnType::String => 254,
        ColumnType::Geometry => 255,
    }
}
pub open spec fn ct_known(c: u8) -> bool { c <= 20 || c == 243 || c >= 245 }
/// The pieces of a column definition, in the order of the protocol.
pub open spec fn cd_at(s: Seq<u8>, k: nat) -> Seq<u8>
    decreases k
{
    if k == 0 { s } else { let t = cd_at(s, (k - 1) as nat); t.skip(ls_len(t) as int) }
}
pub open spec fn cd_str_ok(s: Seq<u8>) -> bool { ls_ok(s) && vstd::utf8::valid_utf8(ls_val(s)) }
pub open spec fn cd_is(s: Seq<u8>, x: &str) -> bool { vstd::utf8::encode_utf8(x@) == ls_val(s) }
pub open spec fn cd_wellformed(s: Seq<u8>) -> bool {
    let f = cd_at(s, 6);
    &&& ls_ok(s) && ls_val(s) == seq![0x64u8, 0x65, 0x66]
    &&& cd_str_ok(cd_at(s, 1)) && cd_str_ok(cd_at(s, 2)) && cd_str_ok(cd_at(s, 3)) && cd_str_ok(cd_at(s, 4)) && cd_str_ok(cd_at(s, 5))
    &&& f.len() >= 13 && f[0] == 12 && ct_known(f[7])
}
pub open spec fn cd_reports(s: Seq<u8>, r: ColumnDef) -> bool {
    let f = cd_at(s, 6);
    &&& cd_is(cd_at(s, 1), r.db) && cd_is(cd_at(s, 2), r.table) && cd_is(cd_at(s, 3), r.org_table)
    &&& cd_is(cd_at(s, 4), r.name) && cd_is(cd_at(s, 5), r.org_name)
    &&& r.charset == le_val(f.subrange(1, 3)) && r.length == le_val(f.subrange(3, 7))
    &&& ct_code(r.vx_type) == f[7] && r.flags.bits == le_val(f.subrange(8, 10)) && r.decimals == f[10]
}
%fn <ColumnType as TryFrom<u8>>::try_from as try_from
    ensures
        r is Ok <==> ct_known(value),
        r is Ok ==> ct_code(r->Ok_0) == value
%ret Result<ColumnType, InvalidFlags>
%fn <ColumnFlags as TryFrom<u16>>::try_from as try_from
    ensures
        r is Ok, r->Ok_0.bits == value
%ret Result<ColumnFlags, InvalidFlags>
%at entry
    proof { lemma_all_u16(value); }
%raw
pub proof fn lemma_all_u16(v: u16)
    ensures v & !0xffffu16 == 0
{ assert(v & !0xffffu16 == 0) by (bit_vector); }
%impl <ColumnDef as Deserialize>
    open spec fn de(ctx: (), before: Seq<u8>, after: Seq<u8>, r: Result<Self, ProtocolError>) -> bool {
        &&& r is Ok <==> cd_wellformed(before)
        &&& r is Ok ==> cd_reports(before, r->Ok_0)
    }
%fn <ColumnDef as Deserialize>::deserialize
%at entry
    broadcast use {bc_ls_len};
    proof { reveal_with_fuel(cd_at, 7); lemma_cd(buf.0@); assert(forall|x: [u8; 3]| x@[0] == 0x64u8 && x@[1] == 0x65u8 && x@[2] == 0x66u8 ==> #[trigger] x@ =~= seq![0x64u8, 0x65, 0x66]); }
%at let res
    proof { let s = old(buf).0@; let r = res->Ok_0; let f = cd_at(s, 6);
        assert(ls_val(s) == seq![0x64u8, 0x65, 0x66]); assert(f[0] == 12); assert(ct_known(f[7]));
        assert(cd_is(cd_at(s, 1), r.db)); assert(cd_reports(s, r)); }
%opt soft
%attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
%raw
pub proof fn lemma_cd(s: Seq<u8>)
    ensures
        ({ let f = cd_at(s, 6); f.len() >= 13 ==> le_val(f.take(1)) == f[0] && le_val(f.skip(7).take(1)) == f[7] && le_val(f.skip(10).take(1)) == f[10]
            && f.skip(1).skip(2) == f.skip(3) && f.skip(3).skip(4) == f.skip(7) && f.skip(7).skip(1) == f.skip(8) && f.skip(8).skip(2) == f.skip(10)
            && f.skip(1).take(2) == f.subrange(1, 3) && f.skip(3).take(4) == f.subrange(3, 7) && f.skip(8).take(2) == f.subrange(8, 10) }),
{
    let f = cd_at(s, 6);
    if f.len() >= 13 {
        broadcast use {vx_lemmas::bc_skip_skip};
        lemma_lenenc_at(f); lemma_lenenc_at(f.skip(7)); lemma_lenenc_at(f.skip(10));
        assert(f.skip(7)[0] == f[7] && f.skip(10)[0] == f[10]);
    }
}
%fn <Column as TryFrom<ColumnDef>>::try_from as try_from
    ensures
        r is Ok,
        r->Ok_0.org_name@ == value.org_name@, r->Ok_0.name@ == value.name@, r->Ok_0.org_table@ == value.org_table@, r->Ok_0.table@ == value.table@,
        r->Ok_0.vx_type == value.vx_type, r->Ok_0.flags == value.flags
%ret Result<Column, ParseError>
%param value: ColumnDef<'_>
%at entry
    proof { lemma_utf8_all(); }
%raw
pub proof fn lemma_utf8_all()
    ensures
        forall|s: Seq<char>| vstd::utf8::valid_utf8(#[trigger] vstd::utf8::encode_utf8(s)) && vstd::utf8::decode_utf8(vstd::utf8::encode_utf8(s)) == s,
{
    assert forall|s: Seq<char>| vstd::utf8::valid_utf8(#[trigger] vstd::utf8::encode_utf8(s)) && vstd::utf8::decode_utf8(vstd::utf8::encode_utf8(s)) == s by {
        vstd::utf8::encode_utf8_valid_utf8(s);
        vstd::utf8::encode_utf8_decode_utf8(s);
    }
}
%fn Column::org_name
    ensures r@ == self.org_name@
%fn Column::name
    ensures r@ == self.name@
%fn Column::org_table
    ensures r@ == self.org_table@
%fn Column::table
    ensures r@ == self.table@
%fn Column::r#type
    ensures r == self.vx_type
%fn Column::flags
    ensures r == self.flags
