%# Result sets: reading, iterating, finishing.
%use io
%raw
use std::marker::PhantomData;
%raw
pub trait FromQueryResultMapping<R>: Sized {
    spec fn map_ok(&self, columns: Seq<Column>) -> bool;
    fn from_columns(columns: &[Column]) -> (r: Self) ensures r.map_ok(columns@);
}
pub trait FromQueryResult: Sized {
    type Mapping: FromQueryResultMapping<Self>;
    spec fn made_from(mapping: Self::Mapping, row: Seq<Value>, r: Result<Self, ParseError>) -> bool;
    fn from_mapping_and_row(mapping: &Self::Mapping, row: &mut Vec<Value>) -> (r: Result<Self, ParseError>)
        ensures Self::made_from(*mapping, old(row)@, r);
}
pub trait Protocol: Sized {
    spec fn row(packet: Seq<u8>, columns: Seq<Column>, r: Result<Vec<Value>, ProtocolError>) -> bool;
    fn read_result_set_row(packet: &[u8], columns: &[Column]) -> (r: Result<Vec<Value>, ProtocolError>)
        ensures Self::row(packet@, columns@, r);
}
%type ResultSet
%raw
/// One row packet was decoded for the columns of the result set and given to the model.
pub open spec fn row_of<P: Protocol, R: FromQueryResult>(packet: Seq<u8>, columns: Seq<Column>, m: R::Mapping, row: R) -> bool {
    exists|v: Vec<Value>| #[trigger] P::row(packet, columns, Ok(v)) && R::made_from(m, v@, Ok(row))
}
/// What `next` does with the next packet of the server.
pub open spec fn stepped<P: Protocol, R: FromQueryResult>(a: Connection, b: Connection, columns: Seq<Column>, m: R::Mapping, end: Option<OkPacket>, r: Result<Option<R>, Error>) -> bool {
    let x = parse_packet(a.stream.inp(), a.seq_id)->Some_0;
    &&& r is Ok ==> parse_packet(a.stream.inp(), a.seq_id) is Some && b.stream.inp() == x.1 && b.seq_id == x.2 && !is_err(x.0)
    &&& r is Ok && r->Ok_0 is Some ==> b.pending_result && end is None && !is_end(x.0, depr(a)) && row_of::<P, R>(x.0, columns, m, r->Ok_0->Some_0)
    &&& r is Ok && r->Ok_0 is None ==> !b.pending_result && end is Some && is_end(x.0, depr(a)) && end_reports(a, x.0, end->Some_0)
    &&& r is Err && !b.pending_result ==> drained(a, b)
    &&& r is Err && r->Err_0 is Server ==> !b.pending_result && parse_packet(a.stream.inp(), a.seq_id) is Some && is_err(x.0) && err_reports(x.0, a.data.capabilities, Ok(r->Err_0->Server_0))
    &&& r is Err ==> end is None
}
pub open spec fn end_reports(a: Connection, p: Seq<u8>, o: OkPacket) -> bool {
    if depr(a) { eof_wellformed(p) ==> eof_reports(p, o) } else { p.len() >= 5 && p[0] == 0xfe && old_eof_reports(p, o) }
}
#[verifier::prophetic]
pub open spec fn same_set<P: Protocol, R: FromQueryResult>(a: ResultSet<P, R>, b: ResultSet<P, R>) -> bool {
    a.columns == b.columns && a.mapping == b.mapping && *final(a.conn) == *final(b.conn)
}
%fn ResultSet::next
    ensures
        same_set(*old(self), *final(self)),
        same_but_io(*old(self).conn, *final(self).conn),
        final(self).conn.stream.out() == old(self).conn.stream.out(),
        is_suffix(final(self).conn.stream.inp(), old(self).conn.stream.inp()),
        old(self).ok_packet is Some || !old(self).conn.pending_result ==> *final(self).conn == *old(self).conn && r is Ok && r->Ok_0 is None && final(self).ok_packet == old(self).ok_packet,
        old(self).ok_packet is None && old(self).conn.pending_result ==>
            stepped::<P, R>(*old(self).conn, *final(self).conn, old(self).columns@, old(self).mapping, final(self).ok_packet, r),
        r is Ok && r->Ok_0 is Some ==> final(self).conn.stream.inp().len() < old(self).conn.stream.inp().len(),
%at entry
    proof { lemma_packet_shrinks(self.conn.stream.inp(), self.conn.seq_id); }
%fn ResultSet::new
    ensures
        r.columns == columns, r.mapping.map_ok(columns@), r.ok_packet is None, *r.conn == *old(conn), *final(r.conn) == *final(conn)
%raw
/// The row packets up to the end of the result set; None when the server breaks it off.
pub open spec fn row_packets(inp: Seq<u8>, seq: u8, deprecate_eof: bool) -> Option<Seq<Seq<u8>>>
    decreases inp.len()
{
    match parse_packet(inp, seq) {
        Some(x) =>
            if is_err(x.0) { None }
            else if is_end(x.0, deprecate_eof) { Some(Seq::empty()) }
            else if x.1.len() < inp.len() {
                match row_packets(x.1, x.2, deprecate_eof) { Some(t) => Some(seq![x.0] + t), None => None }
            } else { None },
        None => None,
    }
}
pub open spec fn all_rows<P: Protocol, R: FromQueryResult>(packets: Seq<Seq<u8>>, columns: Seq<Column>, m: R::Mapping, rows: Seq<R>) -> bool {
    packets.len() == rows.len() && forall|i: int| 0 <= i < rows.len() ==> row_of::<P, R>(packets[i], columns, m, #[trigger] rows[i])
}
pub open spec fn unread(c: Connection) -> Option<Seq<Seq<u8>>> { row_packets(c.stream.inp(), c.seq_id, depr(c)) }
pub open spec fn over<P: Protocol, R: FromQueryResult>(s: ResultSet<P, R>) -> bool { s.ok_packet is Some || !s.conn.pending_result }
/// After the last row nothing of the result set is left.
pub open spec fn ended<P: Protocol, R: FromQueryResult>(a: ResultSet<P, R>, b: ResultSet<P, R>) -> bool {
    if over(a) { *b.conn == *a.conn && b.ok_packet == a.ok_packet } else { !b.conn.pending_result && drained(*a.conn, *b.conn) && b.ok_packet is Some }
}
%fn ResultSet::collect
    ensures
        same_set(*old(self), *final(self)), same_but_io(*old(self).conn, *final(self).conn),
        final(self).conn.stream.out() == old(self).conn.stream.out(),
        r is Ok ==> ended(*old(self), *final(self)),
        r is Ok ==> if over(*old(self)) { r->Ok_0@.len() == 0 } else {
            unread(*old(self).conn) is Some && all_rows::<P, R>(unread(*old(self).conn)->Some_0, old(self).columns@, old(self).mapping, r->Ok_0@) },
%attr #[verifier::loop_isolation(false)]
%loop 0
    invariant
        same_set(*old(self), *self), same_but_io(*old(self).conn, *self.conn),
        self.conn.stream.out() == old(self).conn.stream.out(),
        over(*old(self)) ==> *self.conn == *old(self).conn && self.ok_packet == old(self).ok_packet && rows@.len() == 0,
        !over(*old(self)) ==> !over(*self) && drain(self.conn.stream.inp(), self.conn.seq_id, depr(*self.conn)) == drain(old(self).conn.stream.inp(), old(self).conn.seq_id, depr(*self.conn))
            && (unread(*self.conn) is Some ==> unread(*old(self).conn) is Some && rows@.len() + unread(*self.conn)->Some_0.len() == unread(*old(self).conn)->Some_0.len()
                && (forall|i: int| 0 <= i < rows@.len() ==> row_of::<P, R>(unread(*old(self).conn)->Some_0[i], self.columns@, self.mapping, #[trigger] rows@[i]))
                && unread(*self.conn)->Some_0 == unread(*old(self).conn)->Some_0.skip(rows@.len() as int)),
        u == unread(*self.conn),
    decreases self.conn.stream.inp().len()
%at loop 0 before
    let ghost mut u = unread(*self.conn);
%at loop 0 end
    proof {
        let v = unread(*self.conn);
        if !over(*old(self)) && v is Some { 
            assert(v->Some_0 =~= u->Some_0.skip(1));
            assert(u->Some_0[0] == unread(*old(self).conn)->Some_0[rows@.len() - 1]);
            assert(v->Some_0 =~= unread(*old(self).conn)->Some_0.skip(rows@.len() as int));
        }
        u = v;
    }
%fn ResultSet::one
    ensures
        same_set(*old(self), *final(self)), same_but_io(*old(self).conn, *final(self).conn),
        final(self).conn.stream.out() == old(self).conn.stream.out(),
        r is Ok ==> if over(*old(self)) { r->Ok_0 is None && ended(*old(self), *final(self)) } else {
            !final(self).conn.pending_result && drained(*old(self).conn, *final(self).conn) },
        r is Ok && r->Ok_0 is None && !over(*old(self)) ==> unread(*old(self).conn) is Some && unread(*old(self).conn)->Some_0.len() == 0,
        r is Ok && r->Ok_0 is Some && unread(*old(self).conn) is Some ==> unread(*old(self).conn)->Some_0.len() > 0 && row_of::<P, R>(unread(*old(self).conn)->Some_0[0], old(self).columns@, old(self).mapping, r->Ok_0->Some_0),
%attr #[verifier::loop_isolation(false)]
%loop 0
    invariant
        same_set(*old(self), *self), same_but_io(*old(self).conn, *self.conn),
        self.conn.stream.out() == old(self).conn.stream.out(),
        over(*old(self)) ==> over(*self) && ended(*old(self), *self),
        res is Ok && !over(*old(self)) && over(*self) ==> drained(*old(self).conn, *self.conn) && !self.conn.pending_result,
        res is Ok && !over(*old(self)) && !over(*self) ==> drain(self.conn.stream.inp(), self.conn.seq_id, depr(*self.conn)) == drain(old(self).conn.stream.inp(), old(self).conn.seq_id, depr(*self.conn)),
    decreases self.conn.stream.inp().len()
%fn ResultSet::columns
    ensures r@ == self.columns@
%fn ResultSet::into_columns
    ensures *final(self.conn) == *old(self.conn), r == self.columns
%fn ResultSet::mapping
    ensures *r == self.mapping
%fn ResultSet::into_mapping
    ensures *final(self.conn) == *old(self.conn), r == self.mapping
%fn ResultSet::into_inner
    ensures *final(self.conn) == *old(self.conn), r.0 == self.columns, r.1 == self.mapping
%fn ResultSet::finish
    ensures
        same_but_io(*old(self.conn), *final(self.conn)),
        final(self.conn).stream.out() == old(self.conn).stream.out(),
        self.ok_packet is Some ==> r is Ok && r->Ok_0 == self.ok_packet->Some_0 && *final(self.conn) == *old(self.conn),
        r is Ok && !over(self) ==> !final(self.conn).pending_result && drained(*old(self.conn), *final(self.conn)),
        r is Ok && self.ok_packet is None ==> old(self.conn).pending_result,
%attr #[verifier::loop_isolation(false)]
%at loop 0 before
    let ghost me = vx_self;
%loop 0
    invariant
        same_set(me, vx_self), same_but_io(*me.conn, *vx_self.conn),
        vx_self.conn.stream.out() == me.conn.stream.out(),
        over(me) ==> *vx_self.conn == *me.conn && vx_self.ok_packet == me.ok_packet,
        !over(me) ==> !over(vx_self) && drain(vx_self.conn.stream.inp(), vx_self.conn.seq_id, depr(*vx_self.conn)) == drain(me.conn.stream.inp(), me.conn.seq_id, depr(*vx_self.conn)),
    decreases vx_self.conn.stream.inp().len()
%fn ResultSet::finish_into_inner
    ensures
        same_but_io(*old(self.conn), *final(self.conn)),
        final(self.conn).stream.out() == old(self.conn).stream.out(),
        self.ok_packet is Some ==> r is Ok && r->Ok_0.0 == self.ok_packet->Some_0 && *final(self.conn) == *old(self.conn),
        r is Ok && !over(self) ==> !final(self.conn).pending_result && drained(*old(self.conn), *final(self.conn)),
        r is Ok && self.ok_packet is None ==> old(self.conn).pending_result,
        r is Ok ==> r->Ok_0.1 == self.columns && r->Ok_0.2 == self.mapping,
%attr #[verifier::loop_isolation(false)]
%at loop 0 before
    let ghost me = vx_self;
%loop 0
    invariant
        same_set(me, vx_self), same_but_io(*me.conn, *vx_self.conn),
        vx_self.conn.stream.out() == me.conn.stream.out(),
        over(me) ==> *vx_self.conn == *me.conn && vx_self.ok_packet == me.ok_packet,
        !over(me) ==> !over(vx_self) && drain(vx_self.conn.stream.inp(), vx_self.conn.seq_id, depr(*vx_self.conn)) == drain(me.conn.stream.inp(), me.conn.seq_id, depr(*vx_self.conn)),
    decreases vx_self.conn.stream.inp().len()
%raw
/// `n` packets, what follows them, and the next sequence number.
pub open spec fn packets(inp: Seq<u8>, seq: u8, n: nat) -> Option<(Seq<Seq<u8>>, Seq<u8>, u8)>
    decreases n
{
    if n == 0 { Some((Seq::empty(), inp, seq)) } else {
        match packets(inp, seq, (n - 1) as nat) {
            Some(t) => match parse_packet(t.1, t.2) { Some(x) => Some((t.0.push(x.0), x.1, x.2)), None => None },
            None => None,
        }
    }
}
/// The column a definition packet announces.
pub open spec fn column_of(s: Seq<u8>, c: Column) -> bool {
    let f = cd_at(s, 6);
    &&& cd_wellformed(s)
    &&& vstd::utf8::encode_utf8(c.table@) == ls_val(cd_at(s, 2)) && vstd::utf8::encode_utf8(c.org_table@) == ls_val(cd_at(s, 3))
    &&& vstd::utf8::encode_utf8(c.name@) == ls_val(cd_at(s, 4)) && vstd::utf8::encode_utf8(c.org_name@) == ls_val(cd_at(s, 5))
    &&& ct_code(c.vx_type) == f[7] && c.flags.bits == le_val(f.subrange(8, 10))
}
pub open spec fn defs_read(a: Connection, b: Connection, n: nat, cols: Seq<Column>) -> bool {
    packets(a.stream.inp(), a.seq_id, n) matches Some(x) && b.stream.inp() == x.1 && b.seq_id == x.2
        && x.0.len() == n && cols.len() == n && forall|i: int| 0 <= i < n ==> column_of(x.0[i], #[trigger] cols[i])
}
%fn Connection::read_column_defs
    ensures
        final(self).stream.out() == old(self).stream.out(), same_but_io(*old(self), *final(self)), final(self).pending_result == old(self).pending_result,
        is_suffix(final(self).stream.inp(), old(self).stream.inp()),
        r is Ok ==> defs_read(*old(self), *final(self), count as nat, r->Ok_0@),
        r is Err ==> r->Err_0 is Protocol,
%rw def.try_into() => Column::try_from(def)
%at entry
    broadcast use {lemma_suffix};
%attr #[verifier::loop_isolation(false)]
%loop 0
    invariant
        self.stream.out() == old(self).stream.out(), same_but_io(*old(self), *self), self.pending_result == old(self).pending_result,
        is_suffix(self.stream.inp(), old(self).stream.inp()),
        columns@.len() == it0.index@,
        defs_read(*old(self), *self, columns@.len(), columns@),
%fn Connection::read_definitions_eof
    ensures
        final(self).stream.out() == old(self).stream.out(), same_but_io(*old(self), *final(self)), final(self).pending_result == old(self).pending_result,
        is_suffix(final(self).stream.inp(), old(self).stream.inp()),
        r is Ok ==> defs_eof_read(*old(self), *final(self)),
        r is Err ==> r->Err_0 is Protocol,
%raw
pub open spec fn defs_eof_read(a: Connection, b: Connection) -> bool {
    if depr(a) { b.stream.inp() == a.stream.inp() && b.seq_id == a.seq_id } else {
        parse_packet(a.stream.inp(), a.seq_id) matches Some(x) && b.stream.inp() == x.1 && b.seq_id == x.2 && x.0.len() >= 5 && x.0[0] == 0xfe
    }
}
/// The first packet of the reply to a query announces a result set.
pub open spec fn announces_rows(p: Seq<u8>) -> bool { p.len() == 0 || (p[0] != 0 && p[0] != 0xfb && p[0] != 0xff) }
/// The reply to a query as the user sees it.
pub open spec fn set_read<P: Protocol, R: FromQueryResult>(a: Connection, s: ResultSet<P, R>) -> bool {
    parse_packet(a.stream.inp(), a.seq_id) matches Some(x) && ({
        let b = *s.conn;
        &&& s.mapping.map_ok(s.columns@)
        &&& x.0.len() > 0 && x.0[0] == 0 ==> s.columns@.len() == 0 && b.pending_result == a.pending_result && b.stream.inp() == x.1 && b.seq_id == x.2
            && ok_wellformed(x.0) && s.ok_packet is Some && ok_reports(x.0, a.data.capabilities, s.ok_packet->Some_0)
        &&& !(x.0.len() > 0 && x.0[0] == 0) ==> announces_rows(x.0) && b.pending_result && s.ok_packet is None && li_ok(x.0)
            && header_of(x.1, x.2, depr(a), li_val(x.0) as nat, b, s.columns@)
    })
}
pub open spec fn header_of(inp: Seq<u8>, seq: u8, deprecate_eof: bool, n: nat, b: Connection, cols: Seq<Column>) -> bool {
    packets(inp, seq, n) matches Some(t) && t.0.len() == n && cols.len() == n
        && (forall|i: int| 0 <= i < n ==> column_of(t.0[i], #[trigger] cols[i]))
        && if deprecate_eof { b.stream.inp() == t.1 && b.seq_id == t.2 } else {
            parse_packet(t.1, t.2) matches Some(x) && b.stream.inp() == x.1 && b.seq_id == x.2 && x.0.len() >= 5 && x.0[0] == 0xfe
        }
}
/// An ERR packet of the server is what the caller gets, as it was sent.
pub open spec fn server_error(a: Connection, b: Connection, e: Error) -> bool {
    e is Server ==> (parse_packet(a.stream.inp(), a.seq_id) matches Some(x) && is_err(x.0) && err_reports(x.0, a.data.capabilities, Ok(e->Server_0))
        && b.stream.inp() == x.1 && b.seq_id == x.2 && b.pending_result == a.pending_result)
}
%fn ResultSet::read
    ensures
        r is Ok ==> set_read::<P, R>(*old(conn), r->Ok_0) && same_but_io(*old(conn), *r->Ok_0.conn) && r->Ok_0.conn.stream.out() == old(conn).stream.out()
            && *final(r->Ok_0.conn) == *final(conn),
        r is Err ==> final(conn).stream.out() == old(conn).stream.out() && same_but_io(*old(conn), *final(conn)) && server_error(*old(conn), *final(conn), r->Err_0) && !(r->Err_0 is Runtime),
%raw
/// Everything sent for a command is its packet; the reply starts where the previous one ended.
pub open spec fn commanded(a: Connection, m: Connection, p: Seq<u8>) -> bool { command_sent(a, m, p) && same_but_io(a, m) }
%fn Connection::execute_query
    ensures
        same_but_io(*old(self), *final(self)),
        r is Ok ==> exists|m: Connection| #[trigger] commanded(*old(self), m, seq![3u8] + vstd::utf8::encode_utf8(query@)) && reply_read(m, *final(self), Ok(r->Ok_0)),
        r is Err && r->Err_0 is Server ==> exists|m: Connection| #[trigger] commanded(*old(self), m, seq![3u8] + vstd::utf8::encode_utf8(query@)) && reply_read(m, *final(self), Err(r->Err_0->Server_0)),
%at after call execute_command
    let ghost m = *self;
    proof { assert(commanded(*old(self), m, seq![3u8] + vstd::utf8::encode_utf8(query@))); }
