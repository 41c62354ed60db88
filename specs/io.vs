%# Framing, reassembly, commands and replies. `async` is erased: an await runs its operation to the end.
%use packets
%path usize::min => vx_min
%path std::time::Duration => VDuration
%path Duration => VDuration
%path Timeout::new => vx_timeout
%path AsyncReadExt::read_exact => vx_none
%ty PoolItem<'b,Vec<u8>> => Vec<u8>
%ty dynStreamRequirements => VStream
%ty Box<VStream> => VStream
%ty dynFn(VDuration)->TimeoutFuture => VSleep
%ty (dynFn(VDuration)->TimeoutFuture+Send+Sync) => VSleep
%ty Arc<VOptions> => VOptions
%ty Option<std::sync::Arc<PublicKey>> => Option<VKey>
%raw
/// The user's stream: `out` is everything handed to it, `inp` everything it still delivers.
#[verifier::external_body]
pub struct VStream { x: () }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VDuration { x: () }
#[verifier::external_body]
pub struct VSleep { x: () }
#[verifier::external_body]
pub struct VKey { x: () }
pub open spec fn is_prefix(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && a == b.take(a.len() as int) }
impl VStream {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    pub uninterp spec fn inp(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_u32_le(&mut self, x: u32) -> (r: Result<(), IoError>)
        ensures
            final(self).inp() == old(self).inp(),
            r is Ok ==> final(self).out() == old(self).out() + le(x as nat, 4),
            r is Err ==> is_prefix(old(self).out(), final(self).out()) && is_prefix(final(self).out(), old(self).out() + le(x as nat, 4)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, s: &[u8]) -> (r: Result<(), IoError>)
        ensures
            final(self).inp() == old(self).inp(),
            r is Ok ==> final(self).out() == old(self).out() + s@,
            r is Err ==> is_prefix(old(self).out(), final(self).out()) && is_prefix(final(self).out(), old(self).out() + s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, dst: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures
            final(dst)@.len() == old(dst)@.len(),
            final(self).out() == old(self).out(),
            is_suffix(final(self).inp(), old(self).inp()),
            r is Ok ==> old(self).inp().len() >= old(dst)@.len() && final(dst)@ == old(self).inp().take(old(dst)@.len() as int)
                && final(self).inp() == old(self).inp().skip(old(dst)@.len() as int),
    { unimplemented!() }
}
/// The result of the operation, or the timer's.
#[verifier::external_body]
pub fn vx_timeout<T>(x: T, sleep: &VSleep, d: VDuration) -> (r: Result<T, IoError>)
    ensures r is Ok ==> r->Ok_0 == x, r is Err ==> r->Err_0.kind is TimedOut
{ unimplemented!() }
impl VOptions {
    #[verifier::external_body]
    pub fn timeout(&self) -> VDuration { unimplemented!() }
}
/// The buffer pool; that it hands out empty buffers is proved in unit pool.
pub struct VPool {}
impl VPool {
    #[verifier::external_body]
    pub fn get(&self) -> (r: Vec<u8>)
        ensures r@.len() == 0
    { unimplemented!() }
}
pub exec const BUFFER_POOL: VPool ensures true { VPool {} }
pub trait VxVec: Sized {
    spec fn vx_seq(&self) -> Seq<u8>;
    fn vx_as_mut(&mut self) -> (r: &mut Self)
        ensures *r == *old(self), *final(self) == *final(r);
    fn vx_tail_mut(&mut self, a: usize) -> (r: &mut [u8])
        requires a <= old(self).vx_seq().len()
        ensures r@ == old(self).vx_seq().skip(a as int), final(self).vx_seq() == old(self).vx_seq().take(a as int) + final(r)@;
}
impl VxVec for Vec<u8> {
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_as_mut(&mut self) -> (r: &mut Vec<u8>) { self }
    #[verifier::external_body]
    fn vx_tail_mut(&mut self, a: usize) -> (r: &mut [u8]) { &mut self[a..] }
}
impl VxBytes for &str {
    open spec fn vx_bytes(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
/// bytes::Buf for &[u8].
pub trait Buf {
    spec fn vx_left(&self) -> Seq<u8>;
    fn remaining(&self) -> (r: usize) ensures r == self.vx_left().len();
    fn has_remaining(&self) -> (r: bool) ensures r == (self.vx_left().len() > 0);
}
impl Buf for &[u8] {
    open spec fn vx_left(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn remaining(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn has_remaining(&self) -> (r: bool) { self.len() > 0 }
}
#[verifier::external_body]
pub proof fn ax_vec_len(s: &Vec<u8>)
    ensures s@.len() <= isize::MAX
{ }
%const MAX_PAYLOAD_LEN
%type ConnectionData
%type Connection
%raw
/// The largest chunk: 2^24 - 1 bytes.
pub open spec fn chunk_max() -> nat { 0xff_ffff }
pub open spec fn seq_inc(s: u8) -> u8 { if s == 255 { 0 } else { (s + 1) as u8 } }
pub open spec fn header(n: nat, seq: u8) -> Seq<u8> { le(n, 3) + seq![seq] }
/// A payload on the wire: full chunks, closed by a shorter one, possibly empty.
pub open spec fn frames(p: Seq<u8>, seq: u8) -> Seq<u8>
    decreases p.len()
{
    if p.len() < chunk_max() { header(p.len(), seq) + p }
    else { header(chunk_max(), seq) + p.take(chunk_max() as int) + frames(p.skip(chunk_max() as int), seq_inc(seq)) }
}
/// The sequence number after a payload.
pub open spec fn seq_after(p: Seq<u8>, seq: u8) -> u8
    decreases p.len()
{
    if p.len() < chunk_max() { seq_inc(seq) } else { seq_after(p.skip(chunk_max() as int), seq_inc(seq)) }
}
pub open spec fn chunk_len(inp: Seq<u8>) -> nat { le_val(inp.take(3)) }
pub open spec fn chunk_ok(inp: Seq<u8>) -> bool { inp.len() >= 4 && inp.len() >= 4 + chunk_len(inp) }
pub open spec fn chunk_body(inp: Seq<u8>) -> Seq<u8> { inp.subrange(4, 4 + chunk_len(inp) as int) }
pub open spec fn chunk_rest(inp: Seq<u8>) -> Seq<u8> { inp.skip(4 + chunk_len(inp) as int) }
/// What a server sent: payload, the input after it, and the next sequence number.
pub open spec fn parse_packet(inp: Seq<u8>, seq: u8) -> Option<(Seq<u8>, Seq<u8>, u8)>
    decreases inp.len()
{
    if !chunk_ok(inp) || inp[3] != seq { None }
    else if chunk_len(inp) < chunk_max() { Some((chunk_body(inp), chunk_rest(inp), seq_inc(seq))) }
    else {
        match parse_packet(chunk_rest(inp), seq_inc(seq)) {
            Some(x) => Some((chunk_body(inp) + x.0, x.1, x.2)),
            None => None,
        }
    }
}
pub proof fn lemma_header(n: u32, seq: u8)
    requires n <= 0xff_ffff
    ensures le((n | ((seq as u32) << 24)) as nat, 4) == header(n as nat, seq)
{
    let x = n | ((seq as u32) << 24);
    assert(x == n + (seq as u32) * 0x100_0000) by (bit_vector) requires n <= 0xff_ffff, x == n | ((seq as u32) << 24);
    reveal_with_fuel(le, 5);
    let a = n as nat;
    let s = seq as nat;
    let b = a + s * 0x100_0000;
    assert(b % 256 == a % 256 && b / 256 == a / 256 + s * 0x1_0000);
    assert((b / 256) % 256 == (a / 256) % 256 && b / 256 / 256 == a / 256 / 256 + s * 0x100);
    assert((b / 256 / 256) % 256 == (a / 256 / 256) % 256);
    assert(b / 256 / 256 / 256 == s);
    assert(le(b, 4) =~= header(a, seq));
}
/// Everything a server that follows the same rule sends is read back as it was.
pub proof fn c02_roundtrip(p: Seq<u8>, seq: u8, rest: Seq<u8>)
    ensures parse_packet(frames(p, seq) + rest, seq) == Some((p, rest, seq_after(p, seq)))
    decreases p.len()
{
    let n = if p.len() < chunk_max() { p.len() } else { chunk_max() };
    let inp = frames(p, seq) + rest;
    lemma_pow256();
    lemma_le_roundtrip(n, 3);
    assert(inp.take(3) =~= le(n, 3));
    assert(inp[3] == seq);
    if p.len() < chunk_max() {
        assert(chunk_body(inp) =~= p);
        assert(chunk_rest(inp) =~= rest);
    } else {
        let t = p.skip(n as int);
        c02_roundtrip(t, seq_inc(seq), rest);
        assert(chunk_body(inp) =~= p.take(n as int));
        assert(chunk_rest(inp) =~= frames(t, seq_inc(seq)) + rest);
        assert(p =~= p.take(n as int) + t);
    }
}
pub open spec fn same_but_io(a: Connection, b: Connection) -> bool {
    a.data == b.data && a.options == b.options
}
/// `p` was sent under sequence numbers starting at `seq`, and nothing else.
pub open spec fn sent(a: Connection, b: Connection, p: Seq<u8>, seq: u8) -> bool {
    b.stream.out() == a.stream.out() + frames(p, seq) && b.seq_id == seq_after(p, seq)
}
pub open spec fn sent_part(a: Connection, b: Connection, p: Seq<u8>, seq: u8) -> bool {
    is_prefix(a.stream.out(), b.stream.out()) && is_prefix(b.stream.out(), a.stream.out() + frames(p, seq))
}
%fn Connection::data
    ensures *r == self.data
%fn ConnectionData::capabilities
    ensures r == self.capabilities
%fn Connection::read_chunk_to_buf
    requires old(dst)@.len() % chunk_max() == 0
    ensures
        final(stream).out() == old(stream).out(),
        is_suffix(final(stream).inp(), old(stream).inp()),
        r is Ok ==> chunk_ok(old(stream).inp()) && r->Ok_0.0 == old(stream).inp()[3] && r->Ok_0.1 == (chunk_len(old(stream).inp()) < chunk_max())
            && chunk_len(old(stream).inp()) <= chunk_max() && final(dst)@.len() == old(dst)@.len() + chunk_len(old(stream).inp())
            && final(dst)@ == old(dst)@ + chunk_body(old(stream).inp()) && final(stream).inp() == chunk_rest(old(stream).inp()),
        r is Err ==> r->Err_0 is Protocol && r->Err_0->Protocol_0 is Io,
%at entry
    proof { ax_vec_len(dst); lemma_pow256(); }
    broadcast use {vx_lemmas::bc_skip_skip};
%at let chunk_len
    proof { let i = old(stream).inp(); assert(metadata_buf@.take(3) =~= i.take(3)); lemma_le_val_bound(i.take(3)); assert(stream.inp() == i.skip(4)); }
%at let start
    proof { let i = old(stream).inp(); let n = chunk_len as int; assert(i.len() >= 4); if i.skip(4).len() >= n { assert(i.skip(4).take(n) =~= i.subrange(4, 4 + n)); assert(i.skip(4).skip(n) =~= i.skip(4 + n)); } }
%fn Connection::read_packet_to_buf
    requires old(dst)@.len() % chunk_max() == 0
    ensures
        final(stream).out() == old(stream).out(),
        is_suffix(final(stream).inp(), old(stream).inp()),
        r is Ok ==> parse_packet(old(stream).inp(), *old(seq_id)) is Some && ({
            let x = parse_packet(old(stream).inp(), *old(seq_id))->Some_0;
            final(dst)@ == old(dst)@ + x.0 && final(stream).inp() == x.1 && *final(seq_id) == x.2 }),
        r is Err ==> r->Err_0 is Protocol && (r->Err_0->Protocol_0 is Io || r->Err_0->Protocol_0 is OutOfSync),
%loop 0
    invariant
        dst@.len() % chunk_max() == 0,
        stream.out() == old(stream).out(),
        is_suffix(stream.inp(), old(stream).inp()),
        ({
            let t = parse_packet(stream.inp(), *seq_id);
            let x = parse_packet(old(stream).inp(), *old(seq_id));
            t is Some ==> x is Some && old(dst)@ + x->Some_0.0 == dst@ + t->Some_0.0 && x->Some_0.1 == t->Some_0.1 && x->Some_0.2 == t->Some_0.2 }),
    decreases stream.inp().len()

%attr #[verifier::loop_isolation(false)]
%at entry
    broadcast use {lemma_suffix};
%raw
pub broadcast proof fn lemma_suffix(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires #[trigger] is_suffix(a, b), #[trigger] is_suffix(b, c)
    ensures is_suffix(a, c)
{ assert(a =~= c.skip(c.len() - a.len())); }

%fn Connection::read_packet
    ensures
        final(self).stream.out() == old(self).stream.out(), same_but_io(*old(self), *final(self)), final(self).pending_result == old(self).pending_result,
        is_suffix(final(self).stream.inp(), old(self).stream.inp()),
        r is Ok ==> parse_packet(old(self).stream.inp(), old(self).seq_id) is Some && ({
            let x = parse_packet(old(self).stream.inp(), old(self).seq_id)->Some_0;
            r->Ok_0@ == x.0 && final(self).stream.inp() == x.1 && final(self).seq_id == x.2 }),
        r is Err ==> r->Err_0 is Protocol && (r->Err_0->Protocol_0 is Io || r->Err_0->Protocol_0 is OutOfSync),
%at entry
    proof { lemma_pow256(); }
%fn Connection::write_packet
    ensures
        final(self).stream.inp() == old(self).stream.inp(), same_but_io(*old(self), *final(self)), final(self).pending_result == old(self).pending_result,
        r is Ok ==> sent(*old(self), *final(self), bytes@, old(self).seq_id),
        r is Err ==> sent_part(*old(self), *final(self), bytes@, old(self).seq_id) && r->Err_0 is Protocol,
%loop 0
    invariant
        self.stream.inp() == old(self).stream.inp(), same_but_io(*old(self), *self), self.pending_result == old(self).pending_result,
        extra_packet ==> bytes@.len() % chunk_max() == 0,
        !extra_packet && bytes@.len() > 0 ==> bytes@.len() % chunk_max() != 0,
        self.stream.out() + to_send(bytes@, self.seq_id, extra_packet) == old(self).stream.out() + frames(bytes0, old(self).seq_id),
        seq_at_end(bytes@, self.seq_id, extra_packet) == seq_after(bytes0, old(self).seq_id),
        is_prefix(old(self).stream.out(), self.stream.out()),
    decreases bytes@.len()
%attr #[verifier::loop_isolation(false)]
%at entry
    let ghost bytes0 = bytes@;
    proof { ax_slice_len(bytes); }
%at let chunk_len
    let ghost b0 = bytes@;
    let ghost s0 = self.seq_id;
    let ghost o0 = self.stream.out();
    let ghost all = old(self).stream.out() + frames(bytes0, old(self).seq_id);
    let ghost hd = header(chunk_len as nat, s0);
    proof {
        lemma_header(chunk_len as u32, s0);
        lemma_step(b0, s0, extra_packet, chunk_len as nat);
        let t = to_send(b0.skip(chunk_len as int), seq_inc(s0), extra_packet);
        lemma_parts(old(self).stream.out(), o0, hd, b0.take(chunk_len as int), t, all);
    }
%at loop 0 after
    let ghost o1 = self.stream.out();
    proof {
        lemma_header(0, self.seq_id);
        assert(0u32 | ((self.seq_id as u32) << 24) == (self.seq_id as u32) << 24) by (bit_vector);
        if extra_packet { lemma_parts(old(self).stream.out(), o1, header(0, self.seq_id), Seq::empty(), Seq::empty(), old(self).stream.out() + frames(bytes0, old(self).seq_id)); }
    }
%raw
pub open spec fn to_send(p: Seq<u8>, seq: u8, extra: bool) -> Seq<u8> {
    if p.len() == 0 && !extra { Seq::empty() } else { frames(p, seq) }
}
pub open spec fn seq_at_end(p: Seq<u8>, seq: u8, extra: bool) -> u8 {
    if p.len() == 0 && !extra { seq } else { seq_after(p, seq) }
}

pub proof fn lemma_step(b: Seq<u8>, s: u8, extra: bool, n: nat)
    requires
        b.len() > 0, n == (if b.len() < chunk_max() { b.len() } else { chunk_max() }),
        extra ==> b.len() % chunk_max() == 0, !extra ==> b.len() % chunk_max() != 0
    ensures
        to_send(b, s, extra) == header(n, s) + b.take(n as int) + to_send(b.skip(n as int), seq_inc(s), extra),
        seq_at_end(b, s, extra) == seq_at_end(b.skip(n as int), seq_inc(s), extra),
        extra ==> b.skip(n as int).len() % chunk_max() == 0,
        !extra && b.skip(n as int).len() > 0 ==> b.skip(n as int).len() % chunk_max() != 0,
{
    assert(b.take(b.len() as int) =~= b);
    let t = b.skip(n as int);
    if b.len() < chunk_max() {
        assert(t.len() == 0 && !extra);
        assert(to_send(b, s, extra) =~= header(n, s) + b.take(n as int) + Seq::empty());
    } else if t.len() == 0 {
        assert(extra);
    }
}
/// Every state between `o` and `o + a + b` is a prefix of `all`.
pub proof fn lemma_parts(base: Seq<u8>, o: Seq<u8>, a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, all: Seq<u8>)
    requires o + (a + b + t) == all, is_prefix(base, o)
    ensures
        is_prefix(base, o + a), is_prefix(base, o + a + b), is_prefix(o + a, all), is_prefix(o + a + b, all), o + a + b + t == all,
        forall|x: Seq<u8>| #[trigger] is_prefix(o, x) && is_prefix(x, o + a) ==> is_prefix(base, x) && is_prefix(x, all),
        forall|x: Seq<u8>| #[trigger] is_prefix(o + a, x) && is_prefix(x, o + a + b) ==> is_prefix(base, x) && is_prefix(x, all),
{
    assert(all =~= o + a + b + t);
    assert(base =~= (o + a).take(base.len() as int));
    assert(base =~= (o + a + b).take(base.len() as int));
    assert((o + a) =~= all.take((o + a).len() as int));
    assert((o + a + b) =~= all.take((o + a + b).len() as int));
    assert forall|x: Seq<u8>| #[trigger] is_prefix(o, x) && is_prefix(x, o + a) implies is_prefix(base, x) && is_prefix(x, all) by {
        assert(base =~= x.take(base.len() as int)) by { assert(forall|i: int| 0 <= i < o.len() ==> x[i] == o[i]) by { assert(o =~= x.take(o.len() as int)); } }
        assert(x =~= all.take(x.len() as int));
    }
    assert forall|x: Seq<u8>| #[trigger] is_prefix(o + a, x) && is_prefix(x, o + a + b) implies is_prefix(base, x) && is_prefix(x, all) by {
        let p = o + a;
        assert(base =~= x.take(base.len() as int)) by { assert(forall|i: int| 0 <= i < p.len() ==> x[i] == p[i]) by { assert(p =~= x.take(p.len() as int)); } }
        assert(x =~= all.take(x.len() as int));
    }
}
%type Command derive=Clone,Copy
%fn Connection::write_struct
    ensures
        final(self).stream.inp() == old(self).stream.inp(), same_but_io(*old(self), *final(self)), final(self).pending_result == old(self).pending_result,
        r is Ok ==> sent(*old(self), *final(self), x.wire(), old(self).seq_id),
        r is Err ==> sent_part(*old(self), *final(self), x.wire(), old(self).seq_id) && r->Err_0 is Protocol,
%raw
/// The packet that ends a result set.
pub open spec fn is_end(p: Seq<u8>, deprecate_eof: bool) -> bool {
    p.len() > 0 && p[0] == 0xfe && p.len() < (if deprecate_eof { chunk_max() } else { 8 })
}
pub open spec fn is_err(p: Seq<u8>) -> bool { p.len() > 0 && p[0] == 0xff }
/// The input after the result set that is still being sent: its last packet, what follows, and the next sequence number.
pub open spec fn drain(inp: Seq<u8>, seq: u8, deprecate_eof: bool) -> Option<(Seq<u8>, Seq<u8>, u8)>
    decreases inp.len()
{
    match parse_packet(inp, seq) {
        Some(x) =>
            if is_err(x.0) || is_end(x.0, deprecate_eof) { Some(x) }
            else if x.1.len() < inp.len() { drain(x.1, x.2, deprecate_eof) }
            else { None },
        None => None,
    }
}
pub proof fn lemma_packet_shrinks(inp: Seq<u8>, seq: u8)
    ensures parse_packet(inp, seq) matches Some(x) ==> x.1.len() < inp.len() && is_suffix(x.1, inp)
    decreases inp.len()
{
    if chunk_ok(inp) && inp[3] == seq {
        assert(is_suffix(chunk_rest(inp), inp));
        if chunk_len(inp) >= chunk_max() {
            lemma_packet_shrinks(chunk_rest(inp), seq_inc(seq));
            if let Some(x) = parse_packet(chunk_rest(inp), seq_inc(seq)) { lemma_suffix(x.1, chunk_rest(inp), inp); }
        }
    }
}
pub open spec fn depr(c: Connection) -> bool { c.data.capabilities.has(CapabilityFlags::DEPRECATE_EOF) }
/// `b` is where `a` is once the unread packets of a result set are consumed.
pub open spec fn drained(a: Connection, b: Connection) -> bool {
    if a.pending_result {
        drain(a.stream.inp(), a.seq_id, depr(a)) matches Some(x) && b.stream.inp() == x.1 && b.seq_id == x.2
    } else {
        b.stream.inp() == a.stream.inp() && b.seq_id == a.seq_id
    }
}
%fn Connection::decode_eof
    ensures
        depr(*self) ==> (packet@.len() == 0 || packet@[0] != 0xfe ==> r is Err) && (eof_wellformed(packet@) ==> r is Ok && eof_reports(packet@, r->Ok_0)),
        !depr(*self) ==> (r is Ok <==> packet@.len() >= 5 && packet@[0] == 0xfe) && (r is Ok ==> old_eof_reports(packet@, r->Ok_0)),
%fn Connection::cleanup
    ensures
        final(self).stream.out() == old(self).stream.out(), same_but_io(*old(self), *final(self)),
        is_suffix(final(self).stream.inp(), old(self).stream.inp()),
        r is Ok ==> !final(self).pending_result && drained(*old(self), *final(self)),
        !old(self).pending_result ==> r is Ok && r->Ok_0 is None,
        r is Ok && r->Ok_0 is Some ==> old(self).pending_result,
        old(self).pending_result && !final(self).pending_result ==> drained(*old(self), *final(self)),
        r is Err ==> r->Err_0 is Protocol,
%attr #[verifier::loop_isolation(false)]
%at entry
    broadcast use {lemma_suffix};
%loop 0
    invariant
        self.stream.out() == old(self).stream.out(), same_but_io(*old(self), *self), self.pending_result,
        is_suffix(self.stream.inp(), old(self).stream.inp()),
        drain(self.stream.inp(), self.seq_id, depr(*self)) == drain(old(self).stream.inp(), old(self).seq_id, depr(*self)),
    decreases self.stream.inp().len()
%at loop 0 start
    proof { lemma_packet_shrinks(self.stream.inp(), self.seq_id); }
%fn Connection::write_command
    ensures
        same_but_io(*old(self), *final(self)),
        r is Ok ==> command_sent(*old(self), *final(self), cmd.wire()),
        r is Err ==> command_partly_sent(*old(self), *final(self), cmd.wire()) && r->Err_0 is Protocol,
%fn Connection::execute_command
    ensures
        same_but_io(*old(self), *final(self)),
        r is Ok ==> command_sent(*old(self), *final(self), seq![command_code(cmd)] + data.vx_bytes()),
        r is Err ==> command_partly_sent(*old(self), *final(self), seq![command_code(cmd)] + data.vx_bytes()) && r->Err_0 is Protocol,
%at before call cleanup
    proof { assert(cmd as u8 == command_code(cmd)); assert(buf@ =~= seq![command_code(cmd)] + data.vx_bytes()); }
%raw
/// The command byte of the protocol.
pub open spec fn command_code(c: Command) -> u8 {
    match c {
        Command::Sleep => 0, Command::Quit => 1, Command::InitDb => 2, Command::Query => 3, Command::FieldList => 4,
        Command::CreateDb => 5, Command::DropDb => 6, Command::Refresh => 7, Command::Deprecated1 => 8, Command::Statistics => 9,
        Command::ProcessInfo => 10, Command::Connect => 11, Command::ProcessKill => 12, Command::Debug => 13, Command::Ping => 14,
        Command::Time => 15, Command::DelayedInsert => 16, Command::ChangeUser => 17, Command::BinlogDump => 18, Command::TableDump => 19,
        Command::ConnectOut => 20, Command::RegisterSlave => 21, Command::StmtPrepare => 22, Command::StmtExecute => 23,
        Command::StmtSendLongData => 24, Command::StmtClose => 25, Command::StmtReset => 26, Command::SetOption => 27,
        Command::StmtFetch => 28, Command::Daemon => 29, Command::BinlogDumpGTID => 30, Command::ResetConnection => 31, Command::End => 32,
    }
}
/// Nothing of the previous result set is left unread when the command starts, and it starts with sequence number 0.
pub open spec fn command_sent(a: Connection, b: Connection, p: Seq<u8>) -> bool {
    &&& !b.pending_result
    &&& (if a.pending_result { drain(a.stream.inp(), a.seq_id, depr(a)) matches Some(x) && b.stream.inp() == x.1 } else { b.stream.inp() == a.stream.inp() })
    &&& b.stream.out() == a.stream.out() + frames(p, 0) && b.seq_id == seq_after(p, 0)
}
pub open spec fn command_partly_sent(a: Connection, b: Connection, p: Seq<u8>) -> bool {
    ||| b.stream.out() == a.stream.out()
    ||| is_prefix(a.stream.out(), b.stream.out()) && is_prefix(b.stream.out(), a.stream.out() + frames(p, 0)) && !b.pending_result
        && (a.pending_result ==> drain(a.stream.inp(), a.seq_id, depr(a)) is Some)
}
%fn Connection::decode_response
    ensures
        *final(self) == *old(self),
        r is Ok ==> packet@.len() > 0,
        r is Err ==> r->Err_0 is Protocol,
        r is Ok && r->Ok_0 is Ok <==> ok_wellformed(packet@),
        r is Ok && r->Ok_0 is Ok ==> ok_reports(packet@, old(self).data.capabilities, r->Ok_0->Ok_0),
        is_err(packet@) ==> (r is Err ==> err_reports(packet@, old(self).data.capabilities, Err(r->Err_0->Protocol_0))) && (r is Ok ==> r->Ok_0 is Err && err_reports(packet@, old(self).data.capabilities, Ok(r->Ok_0->Err_0))),
        r is Ok && r->Ok_0 is Err ==> is_err(packet@),
%fn Connection::read_response
    ensures
        final(self).stream.out() == old(self).stream.out(), same_but_io(*old(self), *final(self)), final(self).pending_result == old(self).pending_result,
        is_suffix(final(self).stream.inp(), old(self).stream.inp()),
        r is Ok ==> reply_read(*old(self), *final(self), r->Ok_0),
        r is Err ==> r->Err_0 is Protocol,
        r is Err ==> (r->Err_0->Protocol_0 is Io || r->Err_0->Protocol_0 is OutOfSync || reply_refused(*old(self), *final(self), r->Err_0->Protocol_0)),
%raw
/// One packet was read, and it was neither a well-formed OK packet nor a well-formed ERR packet.
pub open spec fn reply_refused(a: Connection, b: Connection, e: ProtocolError) -> bool {
    parse_packet(a.stream.inp(), a.seq_id) matches Some(x) && b.stream.inp() == x.1 && b.seq_id == x.2 && !ok_wellformed(x.0) && (is_err(x.0) ==> err_reports(x.0, a.data.capabilities, Err(e)))
}
/// One packet was read, and it was an OK packet (well-formed) or an ERR packet, reported as what it was.
pub open spec fn reply_read(a: Connection, b: Connection, r: Result<OkPacket, ErrPacket>) -> bool {
    parse_packet(a.stream.inp(), a.seq_id) matches Some(x) && b.stream.inp() == x.1 && b.seq_id == x.2 && match r {
        Ok(o) => ok_wellformed(x.0) && ok_reports(x.0, a.data.capabilities, o),
        Err(e) => is_err(x.0) && err_reports(x.0, a.data.capabilities, Ok(e)),
    }
}
