%# Rows without a model, the settings of the server, connecting.
%use auth text conv
%path std::mem::take => vx_take
%ty Arc<ConnectionOptions<T>> => VOptions
%ty result::Result => Result
%type EmptyMapping
%raw
#[verifier::external_body]
pub fn vx_take(x: &mut Vec<Value>) -> (r: Vec<Value>)
    ensures r@ == old(x)@, final(x)@.len() == 0
{ std::mem::take(x) }
%impl <EmptyMapping as FromQueryResultMapping<Vec<Value>>>
    open spec fn map_ok(&self, columns: Seq<Column>) -> bool { self.0 == columns.len() }
%fn <EmptyMapping as FromQueryResultMapping<Vec<Value>>>::from_columns
%fn EmptyMapping::len
    ensures r == self.0
%impl <Vec<Value> as FromQueryResult>
    open spec fn made_from(mapping: EmptyMapping, row: Seq<Value>, r: Result<Vec<Value>, ParseError>) -> bool {
        if row.len() == mapping.0 { r is Ok && r->Ok_0@ == row } else { r is Err && r->Err_0 is RowLengthMismatch }
    }
%fn <Vec<Value> as FromQueryResult>::from_mapping_and_row
%fn ConnectionData::{{id,is_mariadb,version,max_allowed_packet,auth_plugin}}
    ensures r == self.{@}
%raw
pub open spec fn ask_settings() -> Seq<u8> { seq![3u8] + vstd::utf8::encode_utf8("select @@max_allowed_packet"@) }
/// The server's answer: a row whose column of that name holds `n`.
pub open spec fn answered(p: Seq<u8>, cols: Seq<Column>, i: int, v: Seq<Value>, n: u64) -> bool {
    &&& 0 <= i < cols.len() && cols.len() == v.len() && cols[i].name@ == "@@max_allowed_packet"@
    &&& text_row(p, cols, v) && v[i] == Value::ULong(n)
}
pub open spec fn limit_known(b: Connection, p: Seq<u8>, cols: Seq<Column>) -> bool {
    exists|i: int, v: Seq<Value>, n: u64| #[trigger] answered(p, cols, i, v, n) && b.data.max_allowed_packet == n as usize
}
/// What is asked of the server once the session stands, and what is made of the answer.
pub open spec fn settings_read(a: Connection, b: Connection) -> bool {
    if a.options.s_max() is Some { b == a } else {
        &&& b.options == a.options && b.data == (ConnectionData { max_allowed_packet: b.data.max_allowed_packet, ..a.data })
        &&& exists|m: Connection| #[trigger] commanded(a, m, ask_settings()) && b.stream.out() == m.stream.out()
        &&& b.data.max_allowed_packet == a.data.max_allowed_packet || exists|p: Seq<u8>, cols: Seq<Column>| #[trigger] limit_known(b, p, cols)
    }
}
%fn Connection::read_settings
    ensures
        r is Ok ==> settings_read(*old(self), *final(self)),
        r is Err ==> *final(self) == *old(self) || (final(self).options == old(self).options && said_at_most(*old(self), *final(self), ask_settings())),
%rw <Value as TryInto<u64 > > :: try_into(row[i].take()) => row[i].take().vx_into_u64()
%attr #[verifier::loop_isolation(false)]
%loop 0
    invariant
        vx_r is Some ==> vx_r->Some_0 < columns@.len() && columns@[vx_r->Some_0 as int].name@ == "@@max_allowed_packet"@,
%at after call query
    let ghost m = choose|m: Connection| #[trigger] commanded(*old(self), m, ask_settings()) && set_read::<TextProtocol, Vec<Value>>(m, res) && res.conn.stream.out() == m.stream.out();
    let ghost q = *res.conn;
    let ghost s0 = res;
    proof { lemma_said(*old(self), m, ask_settings()); }
%at after call into_columns
    let ghost p = parse_packet(q.stream.inp(), q.seq_id)->Some_0.0;
    proof {
        if row is Some {
            assert(row_of::<TextProtocol, Vec<Value>>(p, s0.columns@, s0.mapping, row->Some_0));
            assert(text_row(p, columns@, row->Some_0@));
        }
    }
%at before call take
    let ghost row0 = row@;
%at after call take
    proof {
        assert(answered(p, columns@, i as int, row0, row0[i as int]->ULong_0));
        assert(limit_known(*self, p, columns@));
    }
%raw
/// The session before anything was said.
pub open spec fn greeted(inp: Seq<u8>, o: VOptions, a: Connection) -> bool {
    parse_packet(inp, 0) matches Some(x) && x.0.len() > 0 && gr_wellformed(x.0) && met(x.0, o, a.data)
        && a.stream.inp() == x.1 && a.seq_id == x.2 && a.stream.out().len() == 0 && a.options == o && !a.pending_result
}
/// The whole of a connection's beginning: greeting, answer, proof of the password, settings.
pub open spec fn begun(secure: bool, inp: Seq<u8>, o: VOptions, a: Connection, h: HandshakeResponse, b: Connection, c: Connection, r: Connection) -> bool {
    &&& greeted(inp, o, a)
    &&& introduced(a, h) && plugin_admitted(&o, first_plugin(a)) && sent(a, b, hr_wire(h), a.seq_id) && same_but_io(a, b) && !b.pending_result
    &&& conversation(secure, b, c) && same_session(b, c)
    &&& concludes(secure, first_plugin(b) is Sha2, b, c, Ok(()))
    &&& settings_read(c, r)
}
%fn Connection::connect
    ensures
        r is Ok ==> exists|inp: Seq<u8>, a: Connection, h: HandshakeResponse, b: Connection, c: Connection| #[trigger] begun(T::secure(), inp, options, a, h, b, c, r->Ok_0),
%rw T::connect(&options.connection) => T::vx_connect(&options)
%rw Box::new(stream) => stream
%at let stream
    let ghost inp = stream.inp();
%at let this
    let ghost a = this;
    proof { assert(greeted(inp, options, a)); }
%at after call do_handshake_response
    let ghost b = this;
    let ghost h = choose|h: HandshakeResponse| #[trigger] introduced(a, h) && sent(a, b, hr_wire(h), a.seq_id);
%at after call continue_auth
    let ghost c = this;
%at tail
    let ghost k = Ok::<Connection, Error>(this);
    proof { assert(begun(T::secure(), inp, options, a, h, b, c, this)); assert(begun(T::secure(), inp, options, a, h, b, c, k->Ok_0)); }
%fn Connection::disconnect
