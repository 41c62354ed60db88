%# Prepared statements: preparing, long data, execution.
%use bin
%path std::slice::Iter => VxIter
%raw
/// The methods a bound value is reached by; user implementations return the same value every time (assumed).
pub trait SimpleValue: Sized {
    spec fn val(&self) -> Value;
    fn value(&self) -> (r: &Value) ensures *r == self.val();
}
/// slice::chunks
#[verifier::external_body]
pub fn vx_chunks<'a>(s: &'a [u8], n: usize) -> (r: Vec<&'a [u8]>)
    requires n > 0
    ensures
        r@.len() == (s@.len() + n - 1) / n as int,
        forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == chunk_of(s@, n as nat, k),
{ unimplemented!() }
pub open spec fn chunk_of(s: Seq<u8>, n: nat, k: int) -> Seq<u8> {
    s.subrange(k * n, if (k + 1) * n < s.len() { (k + 1) * n } else { s.len() as int })
}
pub open spec fn vals<V: SimpleValue>(s: Seq<V>) -> Seq<Value> { Seq::new(s.len(), |i: int| s[i].val()) }
%type StmtSendLongData
%type StmtClose
%flags StmtExecuteParamsFlags u8
%flags StmtExecuteParamFlags u8
%flags CursorTypeFlags u8
%impl <{{CursorTypeFlags,StmtExecuteParamsFlags}} as Serialize>
    open spec fn wire(&self) -> Seq<u8> { seq![self.bits] }
%fn <{{CursorTypeFlags,StmtExecuteParamsFlags}} as Serialize>::serialize
%at entry
    proof { lemma_le_one(self.bits); }
%impl <Value as SimpleValue>
    open spec fn val(&self) -> Value { *self }
%fn <Value as SimpleValue>::value
%impl <&Value as SimpleValue>
    open spec fn val(&self) -> Value { **self }
%fn <&Value as SimpleValue>::value
%impl <NamedValue as SimpleValue>
    open spec fn val(&self) -> Value { self.1 }
%fn <NamedValue as SimpleValue>::value
%fn StmtSendLongData::new
    ensures r.stmt_id == id, r.param_index == param_index, r.data@ == data@
%raw
pub open spec fn long_packet(id: u32, i: u16, data: Seq<u8>) -> Seq<u8> { seq![24u8] + le(id as nat, 4) + le(i as nat, 2) + data }
%impl <StmtSendLongData as Serialize>
    open spec fn wire(&self) -> Seq<u8> { long_packet(self.stmt_id, self.param_index, self.data@) }
%fn <StmtSendLongData as Serialize>::serialize
%at entry
    proof { lemma_le_one(24); assert(Command::StmtSendLongData as u8 == 24u8); }
    broadcast use {vx_lemmas::bc_assoc};
%fn StmtClose::new
    ensures r.stmt_id == stmt_id
%impl <StmtClose as Serialize>
    open spec fn wire(&self) -> Seq<u8> { seq![25u8] + le(self.stmt_id as nat, 4) }
%fn <StmtClose as Serialize>::serialize
%at entry
    proof { lemma_le_one(25); assert(Command::StmtClose as u8 == 25u8); }
    broadcast use {vx_lemmas::bc_assoc};
%type StmtExecuteRequest
%raw
/// Bit `i` of the bitmap is set exactly when value `i` is NULL.
pub open spec fn nulls_marked(bm: Seq<u8>, v: Seq<Value>) -> bool {
    bm.len() == (v.len() + 7) / 8 && forall|i: int| 0 <= i < v.len() ==> bit_at(bm, i) == (#[trigger] v[i] is Null)
}
pub open spec fn type_pair(v: Value) -> Seq<u8> { seq![ct_code(value_type(v)), if value_unsigned(v) { 128u8 } else { 0 }] }
pub open spec fn type_pairs(v: Seq<Value>) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { type_pairs(v.drop_last()) + type_pair(v.last()) }
}
/// What is sent of a value in the request itself.
pub open spec fn inline(v: Value, long: bool) -> Seq<u8> { if long && v is Bytes { Seq::empty() } else { bin(v) } }
pub open spec fn inlines(v: Seq<Value>, long: bool) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { inlines(v.drop_last(), long) + inline(v.last(), long) }
}
/// The whole request: statement id, no cursor, one iteration, NULL bitmap, new types, values.
pub open spec fn exec_wire(id: u32, bm: Seq<u8>, v: Seq<Value>, long: bool) -> Seq<u8> {
    seq![23u8] + le(id as nat, 4) + seq![0u8] + le(1, 4) + (if v.len() > 0 { bm + seq![1u8] } else { Seq::empty() }) + type_pairs(v) + inlines(v, long)
}
pub open spec fn bin_total(v: Seq<Value>) -> nat
    decreases v.len()
{
    if v.len() == 0 { 0 } else { bin_total(v.drop_last()) + bin(v.last()).len() }
}
/// The values are few and small enough to be in memory together.
pub open spec fn in_memory(v: Seq<Value>) -> bool { v.len() <= 0xffff && bin_total(v) <= isize::MAX }
pub open spec fn exec_size(v: Seq<Value>) -> nat { (11 + (v.len() + 7) / 8 + 2 * v.len() + bin_total(v)) as nat }
proof fn lemma_bin_total(v: Seq<Value>, i: int)
    requires 0 <= i <= v.len()
    ensures bin_total(v.take(i)) <= bin_total(v)
    decreases v.len() - i
{
    if i < v.len() {
        assert(v.take(i + 1).drop_last() =~= v.take(i));
        lemma_bin_total(v, i + 1);
    } else { assert(v.take(i) =~= v); }
}
proof fn lemma_bin_empty(v: Value)
    ensures bin(v).len() == 0 <==> v is Null
{
    lemma_bin_len(v);
    if let Value::Bytes(x) = v { lemma_li_enc_len(x@.len() as u64); }
}
proof fn lemma_zero_bits(n: nat, i: int)
    requires 0 <= i < 8 * n
    ensures !bit_at(Seq::new(n, |k: int| 0u8), i)
{
    let m = 1u8 << ((i % 8) as u8);
    assert(0u8 & m == 0u8) by (bit_vector);
}
%fn StmtExecuteRequest::as_long_data
    ensures r == self.as_long_data
%fn StmtExecuteRequest::new
    requires in_memory(vals(params@))
    ensures
        r.stmt_id == id, r.params@ == params@, nulls_marked(r.bitmap@, vals(params@)),
        r.flags.bits == 0, r.iteration_count == 1, r.params_flags.bits == 1,
        r.as_long_data == (exec_size(vals(params@)) > 0xff_ffff),
%attr #[verifier::loop_isolation(false)]
%at entry
    let ghost v = vals(params@);
%at loop 0 before
    proof {
        assert forall|i: int| 0 <= i < v.len() implies !#[trigger] bit_at(bitmap.0@, i) by { lemma_zero_bits(bitmap.0@.len(), i); }
    }
%loop 0
    invariant
        bitmap.0@.len() == (v.len() + 7) / 8,
        data_len == bin_total(v.take(i as int)),
        forall|j: int| 0 <= j < v.len() ==> #[trigger] bit_at(bitmap.0@, j) == (j < i && v[j] is Null),
%at loop 0 start
    proof {
        lemma_bin_empty(v[i as int]); lemma_bin_total(v, i + 1);
        assert(v.take(i + 1).drop_last() =~= v.take(i as int)); assert(v.take(i + 1).last() == v[i as int]);
    }
%at loop 0 after
    proof { assert(v.take(v.len() as int) =~= v); }
%impl <StmtExecuteRequest as Serialize>
    open spec fn wire(&self) -> Seq<u8> {
        let v = vals(self.params@);
        seq![23u8] + le(self.stmt_id as nat, 4) + seq![self.flags.bits] + le(self.iteration_count as nat, 4)
            + (if v.len() > 0 { self.bitmap@ + seq![self.params_flags.bits] } else { Seq::empty() }) + type_pairs(v) + inlines(v, self.as_long_data)
    }
%fn <StmtExecuteRequest as Serialize>::serialize
%attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
%at entry
    let ghost v = vals(self.params@);
    let ghost b0 = buf@;
    let ghost fixed = seq![23u8] + le(self.stmt_id as nat, 4) + seq![self.flags.bits] + le(self.iteration_count as nat, 4);
    let ghost hd = fixed + (if v.len() > 0 { self.bitmap@ + seq![self.params_flags.bits] } else { Seq::empty() });
    proof { lemma_le_one(23); lemma_le_one(self.flags.bits); lemma_le_one(self.params_flags.bits); assert(Command::StmtExecute as u8 == 23u8); }
%at loop 0 before
    proof { assert(v.take(0) =~= Seq::empty()); assert(buf@ =~= b0 + hd + type_pairs(v.take(0))); }
%loop 0
    invariant
        buf@ == b0 + hd + type_pairs(v.take(it0.index@)),
%at loop 0 start
    proof { let i = it0.index@; assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]); }
%at loop 0 end
    proof { assert(buf@ =~= b0 + hd + type_pairs(v.take(it0.index@ + 1))); }
%at loop 1 before
    proof { assert(v.take(v.len() as int) =~= v); assert(buf@ =~= b0 + hd + type_pairs(v) + inlines(v.take(0), self.as_long_data)); }
%loop 1
    invariant
        buf@ == b0 + hd + type_pairs(v) + inlines(v.take(it1.index@), self.as_long_data),
%at loop 1 start
    proof { let i = it1.index@; assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]); }
%at loop 1 end
    proof { assert(buf@ =~= b0 + hd + type_pairs(v) + inlines(v.take(it1.index@ + 1), self.as_long_data)); }
%at loop 1 after
    proof { assert(b0 + hd + type_pairs(v) + inlines(v, self.as_long_data) =~= b0 + self.wire()); }
%raw
pub open spec fn long_max() -> nat { 0xff_fff9 }
/// The packets that carry byte string `b` for parameter `i`: every byte once, in order; an empty string is one empty piece.
pub open spec fn pieces(id: u32, i: nat, b: Seq<u8>) -> Seq<Seq<u8>> {
    if b.len() == 0 { seq![long_packet(id, i as u16, Seq::empty())] }
    else { Seq::new(((b.len() + long_max() - 1) / long_max() as int) as nat, |k: int| long_packet(id, i as u16, chunk_of(b, long_max(), k))) }
}
pub open spec fn long_packets(id: u32, v: Seq<Value>, n: nat) -> Seq<Seq<u8>>
    decreases n
{
    if n == 0 { Seq::empty() } else {
        long_packets(id, v, (n - 1) as nat) + match v[n - 1] { Value::Bytes(b) => pieces(id, (n - 1) as nat, b@), _ => Seq::empty() }
    }
}
/// Each packet is a command of its own.
pub open spec fn command_frames(p: Seq<Seq<u8>>) -> Seq<u8>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else { command_frames(p.drop_last()) + frames(p.last(), 0) }
}
pub proof fn lemma_frames_push(p: Seq<Seq<u8>>, x: Seq<u8>)
    ensures command_frames(p.push(x)) == command_frames(p) + frames(x, 0)
{ assert(p.push(x).drop_last() =~= p); }
/// The input that is left once the outstanding result is consumed.
pub open spec fn rest_of(c: Connection) -> Option<Seq<u8>> {
    if c.pending_result { match drain(c.stream.inp(), c.seq_id, depr(c)) { Some(x) => Some(x.1), None => None } } else { Some(c.stream.inp()) }
}
pub open spec fn upto(b: Seq<u8>, n: nat, k: int) -> Seq<u8> { b.take(if k * n < b.len() { k * n } else { b.len() as int }) }
/// Joined together the pieces are the byte string.
pub open spec fn joined(b: Seq<u8>, n: nat, k: nat) -> Seq<u8>
    decreases k
{
    if k == 0 { Seq::empty() } else { joined(b, n, (k - 1) as nat) + chunk_of(b, n, k - 1) }
}
pub proof fn c08_pieces_join(b: Seq<u8>, n: nat)
    requires n > 0
    ensures joined(b, n, ((b.len() + n - 1) / n as int) as nat) == b
{
    let k = (b.len() + n - 1) / n as int;
    assert(k >= 0 && (b.len() == 0 ==> k == 0)) by (nonlinear_arith) requires n > 0, k == (b.len() + n - 1) / n as int, b.len() >= 0;
    assert(k * n >= b.len() && (k > 0 ==> (k - 1) * n < b.len())) by (nonlinear_arith) requires n > 0, k == (b.len() + n - 1) / n as int, b.len() >= 0;
    lemma_joined(b, n, k as nat);
    assert(b.take(b.len() as int) =~= b);
}
proof fn lemma_joined(b: Seq<u8>, n: nat, k: nat)
    requires n > 0, k == 0 || (k - 1) * n < b.len()
    ensures joined(b, n, k) == b.take(if k * n < b.len() { (k * n) as int } else { b.len() as int })
    decreases k
{
    if k > 0 {
        assert(k >= 2 ==> (k - 2) * n < b.len()) by (nonlinear_arith) requires n > 0, k >= 1, (k - 1) * n < b.len();
        lemma_joined(b, n, (k - 1) as nat);
        assert((k - 1 + 1) * n == k * n);
        assert(k * n >= (k - 1) * n && (k - 1) * n >= 0) by (nonlinear_arith) requires n > 0, k >= 1;
        assert(joined(b, n, k) =~= b.take(if k * n < b.len() { (k * n) as int } else { b.len() as int }));
    } else { assert(b.take(0) =~= Seq::empty()); }
}
/// From `a` to `b` the outstanding result was consumed when anything was sent, and `p` was sent.
pub open spec fn commands_sent(a: Connection, b: Connection, p: Seq<Seq<u8>>) -> bool {
    &&& b.stream.out() == a.stream.out() + command_frames(p)
    &&& if p.len() == 0 { b.pending_result == a.pending_result && b.stream.inp() == a.stream.inp() && b.seq_id == a.seq_id }
        else { !b.pending_result && rest_of(a) == Some(b.stream.inp()) }
}
proof fn lemma_commands_push(a: Connection, m: Connection, b: Connection, p: Seq<Seq<u8>>, x: Seq<u8>)
    requires commands_sent(a, m, p), command_sent(m, b, x), same_but_io(a, m), same_but_io(m, b)
    ensures commands_sent(a, b, p.push(x))
{
    lemma_frames_push(p, x);
    assert(b.stream.out() =~= a.stream.out() + command_frames(p.push(x)));
}
%fn Connection::send_long_data
    requires params@.len() <= 0x1_0000
    ensures
        same_but_io(*old(self), *final(self)),
        r is Ok ==> commands_sent(*old(self), *final(self), long_packets(statement_id, vals(params@), params@.len())),
        r is Err ==> r->Err_0 is Protocol,
%rw <'a, V, I> => <'a, V>
%rw , I: Iterator<Item = &'a V> => 
%rw params: I => params: &'a [V]
%rw params.enumerate() => params.iter().enumerate()
%attr #[verifier::loop_isolation(false)]
%at entry
    let ghost v = vals(params@);
    let ghost mut done: Seq<Seq<u8>> = Seq::empty();
%loop 0
    invariant
        same_but_io(*old(self), *self),
        done == long_packets(statement_id, v, i as nat),
        commands_sent(*old(self), *self, done),
%at loop 0 start
    let ghost done0 = done;
    let ghost m0 = *self;
    proof { assert(done0 == long_packets(statement_id, v, i as nat)); }
%at after call write_command
    proof {
        let x = long_packet(statement_id, i as u16, Seq::empty());
        assert(done0 + pieces(statement_id, i as nat, Seq::empty()) =~= done0.push(x));
        lemma_commands_push(*old(self), m0, *self, done0, x);
        done = done0.push(x);
    }
%at loop 1 before
    let ghost cs = chunks@;
    let ghost ps = pieces(statement_id, i as nat, bytes@);
    proof { assert(done0 + ps.take(0) =~= done0); }
%loop 1
    invariant
        same_but_io(*old(self), *self),
        commands_sent(*old(self), *self, done0 + ps.take(it1.index@)),
%at loop 1 start
    let ghost m1 = *self;
    proof { assert(chunk@ == chunk_of(bytes@, long_max(), it1.index@)); assert(ps[it1.index@] == long_packet(statement_id, i as u16, chunk@)); }
%at loop 1 end
    proof {
        lemma_commands_push(*old(self), m1, *self, done0 + ps.take(it1.index@), ps[it1.index@]);
        assert(done0 + ps.take(it1.index@ + 1) =~= (done0 + ps.take(it1.index@)).push(ps[it1.index@])); }
%at loop 1 after
    proof { assert(ps.take(ps.len() as int) =~= ps); done = done0 + ps; }
%at loop 0 end
    proof { if !(v[i as int] is Bytes) { assert(done0 + Seq::empty() =~= done0); } }
%type PreparedStatement
%raw
/// What is still to come of the answer to a preparation: both lists of definitions with their terminators.
pub open spec fn definition_packets(params: nat, columns: nat, deprecate_eof: bool) -> nat {
    params + columns + if deprecate_eof { 0nat } else { (if params > 0 { 1nat } else { 0 }) + (if columns > 0 { 1nat } else { 0 }) }
}
/// The answer to a preparation was read to its end.
pub open spec fn prepared(a: Connection, b: Connection, id: u32, params: usize) -> bool {
    parse_packet(a.stream.inp(), a.seq_id) matches Some(x) && x.0.len() >= 12 && x.0[0] == 0
        && id == le_val(x.0.subrange(1, 5)) && params == le_val(x.0.subrange(7, 9)) && params <= 0xffff
        && (packets(x.1, x.2, definition_packets(params as nat, le_val(x.0.subrange(5, 7)), depr(a))) matches Some(t) && b.stream.inp() == t.1 && b.seq_id == t.2)
        && b.stream.out() == a.stream.out() && b.pending_result == a.pending_result && same_but_io(a, b)
}
pub open spec fn executed_with(a: Connection, m: Connection, id: u32, v: Seq<Value>, bm: Seq<u8>) -> bool {
    let long = exec_size(v) > 0xff_ffff;
    let p = exec_wire(id, bm, v, long);
    &&& !m.pending_result && rest_of(a) == Some(m.stream.inp()) && same_but_io(a, m)
    &&& m.stream.out() == a.stream.out() + command_frames(if long { long_packets(id, v, v.len()) } else { Seq::empty() }) + frames(p, 0)
    &&& m.seq_id == seq_after(p, 0)
}
/// The statement was executed with the values `v`: nothing else was sent.
pub open spec fn executed(a: Connection, m: Connection, id: u32, v: Seq<Value>) -> bool {
    exists|bm: Seq<u8>| nulls_marked(bm, v) && #[trigger] executed_with(a, m, id, v, bm)
}
proof fn lemma_executed(a: Connection, l: Connection, m: Connection, id: u32, v: Seq<Value>, bm: Seq<u8>)
    requires
        nulls_marked(bm, v), same_but_io(a, l), same_but_io(l, m),
        exec_size(v) > 0xff_ffff ==> commands_sent(a, l, long_packets(id, v, v.len())),
        exec_size(v) <= 0xff_ffff ==> l == a,
        command_sent(l, m, exec_wire(id, bm, v, exec_size(v) > 0xff_ffff)),
    ensures executed(a, m, id, v)
{
    if exec_size(v) <= 0xff_ffff { assert(a.stream.out() + command_frames(Seq::empty()) =~= a.stream.out()); }
    assert(executed_with(a, m, id, v, bm));
}
%fn Connection::prepare_statement
    ensures
        r is Ok ==> *final(r->Ok_0.conn) == *final(self) && exists|m: Connection| #[trigger] commanded(*old(self), m, seq![22u8] + vstd::utf8::encode_utf8(stmt@))
            && prepared(m, *r->Ok_0.conn, r->Ok_0.id, r->Ok_0.params),
        r is Err ==> same_but_io(*old(self), *final(self)) && !(r->Err_0 is Runtime),
        r is Err && r->Err_0 is Server ==> exists|m: Connection| #[trigger] commanded(*old(self), m, seq![22u8] + vstd::utf8::encode_utf8(stmt@))
            && server_error(m, *final(self), r->Err_0),
%attr #[verifier::loop_isolation(false)]
%at entry
    let ghost text = stmt@;
%at after call execute_command
    let ghost m = *self;
    proof { assert(commanded(*old(self), m, seq![22u8] + vstd::utf8::encode_utf8(text))); }
%loop 0
    invariant
        self.stream.out() == m.stream.out(), self.pending_result == m.pending_result, same_but_io(m, *self),
        it0.index@ <= definitions, packets(x.1, x.2, it0.index@ as nat) matches Some(t) && self.stream.inp() == t.1 && self.seq_id == t.2,
%at let packet
    let ghost x = parse_packet(m.stream.inp(), m.seq_id)->Some_0;
%at let stmt
    proof { lemma_pow256(); lemma_le_val_bound(packet@.subrange(7, 9)); lemma_le_val_bound(packet@.subrange(5, 7)); }
%fn Connection::query_prepared_statement_unchecked
    requires in_memory(vals(params@))
    ensures
        r is Ok ==> *final(r->Ok_0.conn) == *final(self) && exists|m: Connection| #[trigger] executed(*old(self), m, id, vals(params@)) && set_read::<BinaryProtocol, R>(m, r->Ok_0) && same_but_io(m, *r->Ok_0.conn),
        r is Err ==> same_but_io(*old(self), *final(self)) && !(r->Err_0 is Runtime),
        r is Err && r->Err_0 is Server ==> exists|m: Connection| #[trigger] executed(*old(self), m, id, vals(params@)) && server_error(m, *final(self), r->Err_0),
%rw params.iter() => params
%at before call write_command
    let ghost l = *self;
%at after call write_command
    let ghost m = *self;
    proof { lemma_executed(*old(self), l, m, id, vals(params@), request.bitmap@); }
%fn Connection::execute_prepared_statement_unchecked
    requires in_memory(vals(params@))
    ensures
        same_but_io(*old(self), *final(self)),
        r is Ok ==> exists|m: Connection| #[trigger] executed(*old(self), m, id, vals(params@)) && reply_read(m, *final(self), Ok(r->Ok_0)),
        r is Err ==> !(r->Err_0 is Runtime),
        r is Err && r->Err_0 is Server ==> exists|m: Connection| #[trigger] executed(*old(self), m, id, vals(params@)) && reply_read(m, *final(self), Err(r->Err_0->Server_0)),
%rw params.iter() => params
%at before call write_command
    let ghost l = *self;
%at after call write_command
    let ghost m = *self;
    proof { lemma_executed(*old(self), l, m, id, vals(params@), request.bitmap@); }
%fn PreparedStatement::query
    requires old(self).params <= 0xffff, bin_total(vals(values@)) <= isize::MAX
    ensures
        final(self).id == old(self).id, final(self).params == old(self).params, *final(final(self).conn) == *final(old(self).conn),
        values@.len() != old(self).params ==> r is Err && r->Err_0 == Error::Runtime(RuntimeError::ParameterCountMismatch) && *final(self).conn == *old(self).conn,
        r is Ok ==> values@.len() == old(self).params && exists|m: Connection| #[trigger] executed(*old(self).conn, m, old(self).id, vals(values@)) && set_read::<BinaryProtocol, R>(m, r->Ok_0),
        r is Err && r->Err_0 is Server ==> exists|m: Connection| #[trigger] executed(*old(self).conn, m, old(self).id, vals(values@)) && server_error(m, *final(self).conn, r->Err_0),
%fn PreparedStatement::execute
    requires old(self).params <= 0xffff, bin_total(vals(values@)) <= isize::MAX
    ensures
        final(self).id == old(self).id, final(self).params == old(self).params, *final(final(self).conn) == *final(old(self).conn),
        values@.len() != old(self).params ==> r is Err && r->Err_0 == Error::Runtime(RuntimeError::ParameterCountMismatch) && *final(self).conn == *old(self).conn,
        r is Ok ==> values@.len() == old(self).params && exists|m: Connection| #[trigger] executed(*old(self).conn, m, old(self).id, vals(values@)) && reply_read(m, *final(self).conn, Ok(r->Ok_0)),
        r is Err && r->Err_0 is Server ==> exists|m: Connection| #[trigger] executed(*old(self).conn, m, old(self).id, vals(values@)) && reply_read(m, *final(self).conn, Err(r->Err_0->Server_0)),
