%# Authentication: what is written while the password is proved.
%use io crypt greet
%ty Pin<Box<dynFuture<Output=Result<(),Error>>+'_>> => Result<(), Error>
%path Box::pin => vx_same
%path rand::rngs::StdRng::from_entropy => VStdRng::from_entropy
%path std::sync::Arc::new => vx_key
%raw
pub fn vx_same<T>(x: T) -> (r: T) ensures r == x { x }
/// A generator seeded by the system.
#[verifier::external_body]
pub struct VStdRng { x: () }
impl VxAny for VStdRng {}
impl VxRng for VStdRng {
    #[verifier::external_body]
    fn gen(&mut self) -> u8 { unimplemented!() }
}
impl VStdRng {
    #[verifier::external_body]
    pub fn from_entropy() -> VStdRng { unimplemented!() }
}
/// A shared key (`Arc<PublicKey>`).
pub uninterp spec fn key_of(k: VKey) -> PublicKey;
#[verifier::external_body]
pub fn vx_key(k: PublicKey) -> (r: VKey) ensures key_of(r) == k { unimplemented!() }
impl Clone for VKey {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures key_of(r) == key_of(*self) { unimplemented!() }
}
impl VKey {
    #[verifier::external_body]
    fn vx_deref(&self) -> (r: &PublicKey) ensures *r == key_of(*self) { unimplemented!() }
    fn encrypt_padded<T: VxRng + VxAny>(&self, data: &[u8], padding: OaepPadding<T>) -> (r: Result<Vec<u8>, CryptError>)
        ensures r is Ok ==> encrypted(r->Ok_0@, key_of(*self), data@)
    { self.vx_deref().encrypt_padded(data, padding) }
}
/// The transport the user chose: whether it is declared secure.
pub trait Stream: Sized {
    /// What the user sets for the transport.
    type Options: Default;
    spec fn secure() -> bool;
    fn vx_secure() -> (r: bool) ensures r == Self::secure();
    /// The user's transport to the server that the options name: nothing was said yet.
    fn vx_connect(options: &VOptions) -> (r: Result<VStream, IoError>) ensures r is Ok ==> r->Ok_0.out().len() == 0;
}
/// `p` is the RSA-OAEP encryption of `m` under `k`.
pub open spec fn encrypted(p: Seq<u8>, k: PublicKey, m: Seq<u8>) -> bool {
    &&& p.len() == octets_of(k.modulus.n())
    &&& exists|seed: Seq<u8>| seed.len() == 20 && be_val(p) == powmod(be_val(#[trigger] oaep(seed, m, octets_of(k.modulus.n()))), k.exponent.n(), k.modulus.n())
}
pub open spec fn masked(m: Seq<u8>, nonce: Seq<u8>) -> Seq<u8> { Seq::new(m.len(), |i: int| m[i] ^ nonce[i % nonce.len() as int]) }
/// What may be said after the first response: under which password, transport, nonce and key.
pub struct Tell { pub pw: Seq<u8>, pub secure: bool, pub nonce: Seq<u8>, pub key: Option<VKey> }
/// The request for the server's key; the password on a secure transport; the encrypted masked password.
pub open spec fn fine(t: Tell, p: Seq<u8>) -> bool {
    ||| !t.secure && t.key is None && p == seq![2u8]
    ||| t.secure && p == t.pw + seq![0u8]
    ||| !t.secure && t.nonce.len() > 0 && exists|k: VKey| (t.key is Some ==> key_of(k) == key_of(t.key->Some_0)) && encrypted(p, #[trigger] key_of(k), masked(t.pw + seq![0u8], t.nonce))
}
pub open spec fn cat(l: Seq<(Seq<u8>, u8)>) -> Seq<u8>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else { cat(l.drop_last()) + frames(l.last().0, l.last().1) } }
pub open spec fn all_fine(t: Tell, l: Seq<(Seq<u8>, u8)>) -> bool { forall|i: int| 0 <= i < l.len() ==> fine(t, (#[trigger] l[i]).0) }
/// Between `a` and `b` only whole packets that are fine were written.
#[verifier::opaque]
pub open spec fn told_all(t: Tell, a: Seq<u8>, b: Seq<u8>) -> bool { exists|l: Seq<(Seq<u8>, u8)>| #[trigger] all_fine(t, l) && b == a + cat(l) }
/// The same; the last packet may have been cut off.
#[verifier::opaque]
pub open spec fn told(t: Tell, a: Seq<u8>, b: Seq<u8>) -> bool { exists|l: Seq<(Seq<u8>, u8)>| #[trigger] all_fine(t, l) && is_prefix(a, b) && is_prefix(b, a + cat(l)) }
pub broadcast proof fn bc_told_none(t: Tell, a: Seq<u8>)
    ensures #[trigger] told_all(t, a, a)
{
    reveal(told_all);
    let l = Seq::<(Seq<u8>, u8)>::empty();
    assert(all_fine(t, l));
    assert(a =~= a + cat(l));
}
pub broadcast proof fn bc_told_is(t: Tell, a: Seq<u8>, b: Seq<u8>)
    requires #[trigger] told_all(t, a, b)
    ensures told(t, a, b)
{
    reveal(told_all); reveal(told);
    let l = choose|l: Seq<(Seq<u8>, u8)>| #[trigger] all_fine(t, l) && b == a + cat(l);
    assert(is_prefix(a, b)) by { assert(b.take(a.len() as int) =~= a); }
    assert(is_prefix(b, a + cat(l))) by { assert(b =~= (a + cat(l)).take(b.len() as int)); }
}
/// One more packet, written whole or in part.
pub proof fn lemma_tell(t: Tell, a: Seq<u8>, m: Connection, p: Seq<u8>, s: u8)
    requires told_all(t, a, m.stream.out()), fine(t, p)
    ensures
        forall|b: Connection| #[trigger] sent(m, b, p, s) ==> told_all(t, a, b.stream.out()) && told(t, a, b.stream.out()),
        forall|b: Connection| #[trigger] sent_part(m, b, p, s) ==> told(t, a, b.stream.out()),
{
    assert forall|b: Connection| #[trigger] sent(m, b, p, s) implies told_all(t, a, b.stream.out()) && told(t, a, b.stream.out()) by { lemma_tell1(t, a, m, b, p, s); bc_told_is(t, a, b.stream.out()); }
    assert forall|b: Connection| #[trigger] sent_part(m, b, p, s) implies told(t, a, b.stream.out()) by { lemma_tell1(t, a, m, b, p, s); }
}
pub broadcast proof fn bc_told_nothing(t: Tell, a: Seq<u8>)
    ensures #[trigger] told(t, a, a)
{ bc_told_none(t, a); bc_told_is(t, a, a); }
pub proof fn lemma_tell1(t: Tell, a: Seq<u8>, m: Connection, b: Connection, p: Seq<u8>, s: u8)
    requires told_all(t, a, m.stream.out()), fine(t, p)
    ensures
        sent(m, b, p, s) ==> told_all(t, a, b.stream.out()),
        sent_part(m, b, p, s) ==> told(t, a, b.stream.out()),
{
    reveal(told_all); reveal(told);
    let l = choose|l: Seq<(Seq<u8>, u8)>| #[trigger] all_fine(t, l) && m.stream.out() == a + cat(l);
    let k = l.push((p, s));
    assert(k.drop_last() =~= l);
    assert(all_fine(t, k));
    assert(a + cat(k) =~= m.stream.out() + frames(p, s));
    if sent_part(m, b, p, s) {
        let x = b.stream.out();
        assert(is_prefix(a, x)) by {
            assert(m.stream.out().take(a.len() as int) =~= a);
            assert(x.take(a.len() as int) =~= x.take(m.stream.out().len() as int).take(a.len() as int));
        }
    }
}
pub open spec fn tell(secure: bool, c: Connection) -> Tell { Tell { pw: c.options.s_password(), secure, nonce: c.data.nonce@, key: c.data.server_key } }
/// The response as it is framed: mysql_clear_password adds a zero byte.
pub open spec fn auth_wire(p: AuthPlugin, nonce: Seq<u8>, pw: Seq<u8>) -> Seq<u8> { if p is Clear { pw + seq![0u8] } else { auth_response(p, nonce, pw) } }
/// A switch to a method is answered only if the user's options admit it, with the response for the new nonce.
pub open spec fn switched(secure: bool, a: Connection, b: Connection, plugin: AuthPlugin, nonce: Seq<u8>, seq: u8) -> bool {
    ||| b.stream.out() == a.stream.out()
    ||| {
        let p = auth_wire(plugin, nonce, a.options.s_password());
        plugin_admitted(&a.options, plugin) && {
            ||| sent_part(a, b, p, seq)
            ||| told(Tell { nonce, ..tell(secure, a) }, a.stream.out() + frames(p, seq), b.stream.out())
        }
    }
}
pub open spec fn asks_switch(c: Connection) -> bool {
    !c.data.auth_switched && (parse_packet(c.stream.inp(), c.seq_id) matches Some(x) && x.0.len() > 0 && x.0[0] == 0xfe)
}
/// Everything the client says from here on, whatever the server sends.
pub open spec fn conversation(secure: bool, a: Connection, b: Connection) -> bool {
    if asks_switch(a) {
        let x = parse_packet(a.stream.inp(), a.seq_id)->Some_0;
        b.stream.out() == a.stream.out() || (switch_plugin(x.0) is Some && switched(secure, a, b, switch_plugin(x.0)->Some_0, switch_nonce(x.0), x.2))
    } else {
        told(tell(secure, a), a.stream.out(), b.stream.out())
    }
}
/// A packet could not be read.
pub open spec fn glitch(r: Result<(), Error>) -> bool { r is Err && r->Err_0 is Protocol && (r->Err_0->Protocol_0 is Io || r->Err_0->Protocol_0 is OutOfSync) }
/// Something else went wrong on the client's side; nobody was let in.
pub open spec fn broken(r: Result<(), Error>) -> bool { r is Err && !(r->Err_0 is Server) }
/// A reply that decides: OK lets the client in, ERR is reported as what it says, nothing else lets it in.
pub open spec fn verdict(p: Seq<u8>, cap: CapabilityFlags, r: Result<(), Error>) -> bool {
    if p.len() > 0 && p[0] == 0 { r is Ok || (broken(r) && !ok_wellformed(p)) } else {
        &&& r is Err && !(r->Err_0 is Runtime)
        &&& r->Err_0 is Server ==> is_err(p) && err_reports(p, cap, Ok(r->Err_0->Server_0))
        &&& is_err(p) && r->Err_0 is Protocol ==> err_reports(p, cap, Err(r->Err_0->Protocol_0))
    }
}
/// The next packet decides, and nothing after it was read.
pub open spec fn decided(cap: CapabilityFlags, inp: Seq<u8>, seq: u8, b: Connection, r: Result<(), Error>) -> bool {
    parse_packet(inp, seq) matches Some(y) && b.stream.inp() == y.1 && verdict(y.0, cap, r)
}
/// The masked password was sent, encrypted under `k`, and the packet after it decided.
pub open spec fn sealed(t: Tell, k: PublicKey, cap: CapabilityFlags, inp: Seq<u8>, seq: u8, out: Seq<u8>, b: Connection, r: Result<(), Error>) -> bool {
    exists|e: Seq<u8>| #[trigger] encrypted(e, k, masked(t.pw + seq![0u8], t.nonce)) && b.stream.out() == out + frames(e, seq) && decided(cap, inp, seq_after(e, seq), b, r)
}
/// The server wanted the password itself.
pub open spec fn asked_for_all(t: Tell, cap: CapabilityFlags, inp: Seq<u8>, seq: u8, out: Seq<u8>, b: Connection, r: Result<(), Error>) -> bool {
    if t.secure {
        let p = t.pw + seq![0u8];
        b.stream.out() == out + frames(p, seq) && decided(cap, inp, seq_after(p, seq), b, r)
    } else if t.key is Some {
        sealed(t, key_of(t.key->Some_0), cap, inp, seq, out, b, r)
    } else {
        parse_packet(inp, seq_after(seq![2u8], seq)) matches Some(y) && y.0.len() > 0 && {
            let asked = out + frames(seq![2u8], seq);
            ||| y.0[0] == 0xff && b.stream.out() == asked && verdict(y.0, cap, r)
            ||| y.0[0] == 1 && exists|k: PublicKey| Some(#[trigger] k.key()) == pem_key(y.0.skip(1)) && sealed(t, k, cap, y.1, y.2, asked, b, r)
        }
    }
}
/// How the proof of the password ends when no other method is asked for.
#[verifier::opaque]
pub open spec fn ends(t: Tell, sha2: bool, cap: CapabilityFlags, inp: Seq<u8>, seq: u8, out: Seq<u8>, b: Connection, r: Result<(), Error>) -> bool {
    glitch(r) || (parse_packet(inp, seq) matches Some(x) && {
        let more = if sha2 && x.0.len() >= 2 && x.0[0] == 1 { x.0[1] } else { 0 };
        if more == 3 { b.stream.out() == out && decided(cap, x.1, x.2, b, r) }
        else if more == 4 { broken(r) || asked_for_all(t, cap, x.1, x.2, out, b, r) }
        else { b.stream.out() == out && b.stream.inp() == x.1 && verdict(x.0, cap, r) }
    })
}
/// How a switch ends: refused, or answered with the response for the new nonce and then decided.
pub open spec fn switch_ends(secure: bool, a: Connection, inp: Seq<u8>, seq: u8, plugin: AuthPlugin, nonce: Seq<u8>, b: Connection, r: Result<(), Error>) -> bool {
    let p = auth_wire(plugin, nonce, a.options.s_password());
    broken(r) || (plugin_admitted(&a.options, plugin) && ends(Tell { nonce, ..tell(secure, a) }, plugin is Sha2, a.data.capabilities, inp, seq_after(p, seq), a.stream.out() + frames(p, seq), b, r))
}
/// How the whole proof ends.
pub open spec fn concludes(secure: bool, sha2: bool, a: Connection, b: Connection, r: Result<(), Error>) -> bool {
    if asks_switch(a) {
        let x = parse_packet(a.stream.inp(), a.seq_id)->Some_0;
        broken(r) || (switch_plugin(x.0) is Some && switch_ends(secure, a, x.1, x.2, switch_plugin(x.0)->Some_0, switch_nonce(x.0), b, r))
    } else {
        ends(tell(secure, a), sha2, a.data.capabilities, a.stream.inp(), a.seq_id, a.stream.out(), b, r)
    }
}
pub open spec fn same_session(a: Connection, b: Connection) -> bool {
    &&& b.options == a.options && b.pending_result == a.pending_result
    &&& b.data.capabilities == a.data.capabilities && b.data.id == a.data.id && b.data.version == a.data.version
    &&& b.data.is_mariadb == a.data.is_mariadb && b.data.max_allowed_packet == a.data.max_allowed_packet
}
%fn Connection::continue_auth
    ensures
        same_session(*old(self), *final(self)),
        conversation(T::secure(), *old(self), *final(self)),
        concludes(T::secure(), first_plugin(*old(self)) is Sha2, *old(self), *final(self), r),
    decreases (if old(self).data.auth_switched { 0int } else { 1int }), 2int
%fn Connection::continue_mysql_native_password_auth
    ensures
        same_session(*old(self), *final(self)),
        conversation(T::secure(), *old(self), *final(self)),
        concludes(T::secure(), false, *old(self), *final(self), r),
    decreases (if old(self).data.auth_switched { 0int } else { 1int }), 1int
%at entry
    broadcast use {bc_told_none, bc_told_nothing, bc_told_is};
    reveal(ends);
%fn Connection::continue_caching_sha2_password_auth
    ensures
        same_session(*old(self), *final(self)),
        conversation(T::secure(), *old(self), *final(self)),
        concludes(T::secure(), true, *old(self), *final(self), r),
    decreases (if old(self).data.auth_switched { 0int } else { 1int }), 1int
%attr #[verifier::loop_isolation(false)]
%rw T::SECURE => T::vx_secure()
%at entry
    broadcast use {bc_told_none, bc_told_nothing, bc_told_is};
    reveal(ends);
    let ghost t = tell(T::secure(), *self);
%at let pass
    let ghost c1 = *self;
    let ghost mut under = arbitrary::<PublicKey>();
    let ghost mut sealed_bytes = Seq::<u8>::empty();
    proof { assert(pass@.len() == 0); }
%at before call write_packet
    let ghost m1 = *self;
    proof { assert(pass@ =~= t.pw + seq![0u8]); lemma_tell(t, old(self).stream.out(), *self, pass@, self.seq_id); }
%at before call write_packet#1
    let ghost ask = seq![2u8];
    proof { lemma_tell(t, old(self).stream.out(), *self, ask, self.seq_id); assert([2u8]@ =~= ask); }
%loop 0
    invariant
        pass@.len() == t.pw.len() + 1, self.data.nonce@.len() > 0, self.data.nonce@ == t.nonce,
        forall|j: int| 0 <= j < pass@.len() ==> #[trigger] pass@[j] == (if j < i { masked(t.pw + seq![0u8], t.nonce)[j] } else { (t.pw + seq![0u8])[j] }),
%at loop 0 after
    proof { assert(pass@ =~= masked(t.pw + seq![0u8], t.nonce)); }
%at before call try_from_pem
    proof { assert(packet@.subrange(1, packet@.len() as int) =~= packet@.skip(1)); }
%at let encrypted_pass
    proof { under = key_of(server_key); sealed_bytes = encrypted_pass@; }
    proof { assert(encrypted(encrypted_pass@, key_of(server_key), masked(t.pw + seq![0u8], t.nonce))); lemma_tell(t, old(self).stream.out(), *self, encrypted_pass@, self.seq_id); }
%at let res
    proof {
        let cap = self.data.capabilities;
        if !T::secure() {
            let s1 = if t.key is Some { c1.seq_id } else { parse_packet(c1.stream.inp(), seq_after(seq![2u8], c1.seq_id))->Some_0.2 };
            assert(encrypted(sealed_bytes, under, masked(t.pw + seq![0u8], t.nonce)));
            if t.key is Some {
                assert(key_of(t.key->Some_0) == under);
                assert(self.stream.out() == old(self).stream.out() + frames(sealed_bytes, s1));
            } else {
                assert([2u8]@ =~= seq![2u8]);
                let y = parse_packet(c1.stream.inp(), seq_after(seq![2u8], c1.seq_id))->Some_0;
                assert(Some(under.key()) == pem_key(y.0.skip(1)));
                assert(self.stream.out() == old(self).stream.out() + frames(seq![2u8], c1.seq_id) + frames(sealed_bytes, s1));
            }
        }
    }
%fn Connection::perform_auth_switch
    requires !old(self).data.auth_switched
    ensures
        same_session(*old(self), *final(self)),
        switched(T::secure(), *old(self), *final(self), auth_switch_request.plugin, auth_switch_request.data@, old(self).seq_id),
        switch_ends(T::secure(), *old(self), old(self).stream.inp(), old(self).seq_id, auth_switch_request.plugin, auth_switch_request.data@, *final(self), r),
    decreases 1int, 0int

%rw *self.options => self.options
%at entry
    broadcast use {bc_told_none, bc_told_nothing, bc_told_is};
%const DEFAULT_MAX_ALLOWED_PACKET
%raw
impl VOptions {
    pub uninterp spec fn s_key(&self) -> Option<VKey>;
    #[verifier::external_body]
    pub fn server_key(&self) -> (r: Option<VKey>) ensures r == self.s_key() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_sleep() -> (r: &'static VSleep) { unimplemented!() }
pub fn vx_bytes_or_empty(x: &Option<AuthPluginData>) -> (r: &[u8])
    ensures r@ == (match *x { Some(d) => pd_bytes(d), None => Seq::empty() })
{ match x { Some(d) => d.vx_deref(), None => { let e: &[u8] = &[]; assert(e@ =~= Seq::empty()); e } } }
/// What the client knows after a greeting `p`, and what it will use.
pub open spec fn met(p: Seq<u8>, o: VOptions, d: ConnectionData) -> bool {
    let v = match version_of(vstd::utf8::decode_utf8(nul_val(p.skip(1)))) { Some(x) => x, None => ((0u16, 0u16, 0u16), false) };
    &&& d.id == le_val(gr_fixed(p).take(4))
    &&& d.version == v.0 && d.is_mariadb == v.1
    &&& d.capabilities.bits == gr_caps(p) & o.s_caps()
    &&& d.nonce@ == gr_nonce(p)
    &&& d.auth_plugin == (if gr_has(p, CapabilityFlags::PLUGIN_AUTH) { gr_plugin(p)->Some_0 } else { AuthPlugin::Native })
    &&& d.server_key == o.s_key()
    &&& d.max_allowed_packet == (match o.s_max() { Some(m) => m, None => 4194304usize })
    &&& !d.auth_switched
}
%fn Connection::handle_handshake
    ensures
        final(stream).out() == old(stream).out(),
        r is Ok ==> (parse_packet(old(stream).inp(), *old(seq_id)) matches Some(x) && x.0.len() > 0 && gr_wellformed(x.0) && met(x.0, options, r->Ok_0)
            && final(stream).inp() == x.1 && *final(seq_id) == x.2),
%rw &sleep => vx_sleep()
%at let auth_plugin
    proof {
        let x = parse_packet(old(stream).inp(), *old(seq_id))->Some_0;
        assert(packet@ =~= x.0);
        assert(gr_reports(x.0, handshake));
        vstd::utf8::encode_utf8_decode_utf8(handshake.server_version@);
        assert(handshake.server_version@ == vstd::utf8::decode_utf8(nul_val(x.0.skip(1))));
        assert(DEFAULT_MAX_ALLOWED_PACKET == 4194304) by (compute_only);
    }
%raw
/// The method that is used first.
pub open spec fn first_plugin(c: Connection) -> AuthPlugin { match c.options.s_plugin() { Some(p) => p, None => c.data.auth_plugin } }
/// One packet: the answer for the method, with the response the method prescribes.
pub open spec fn introduced(a: Connection, h: HandshakeResponse) -> bool {
    &&& hr_consistent(h) && hr_other(h.capabilities) == hr_other(a.data.capabilities)
    &&& h.user@ == a.options.s_user()
    &&& (h.db_name is Some <==> a.options.s_db() is Some) && (h.db_name is Some ==> h.db_name->Some_0@ == a.options.s_db()->Some_0)
    &&& h.auth_plugin == Some(first_plugin(a)) && h.connect_attributes is None
    &&& h.scramble@ == auth_response(first_plugin(a), a.data.nonce@, a.options.s_password())
    &&& h.max_packet_size == a.data.max_allowed_packet as u32
}
%fn Connection::do_handshake_response
    ensures
        final(self).stream.inp() == old(self).stream.inp(), same_but_io(*old(self), *final(self)), final(self).pending_result == old(self).pending_result,
        final(self).stream.out() == old(self).stream.out() || (plugin_admitted(&old(self).options, first_plugin(*old(self))) && exists|h: HandshakeResponse| #[trigger] introduced(*old(self), h) && {
            ||| sent_part(*old(self), *final(self), hr_wire(h), old(self).seq_id)
            ||| sent(*old(self), *final(self), hr_wire(h), old(self).seq_id)
        }),
        r is Ok ==> exists|h: HandshakeResponse| #[trigger] introduced(*old(self), h) && sent(*old(self), *final(self), hr_wire(h), old(self).seq_id),
%rw auth_data.as_deref().unwrap_or_default() => vx_bytes_or_empty(&auth_data)
%opt map=option
%rw Default::default() => None
%rw *self.options => self.options
%at let handshake_response
    let ghost h = handshake_response;
    proof { assert(introduced(*self, h)); }
