%# The user's options: what the getters say is what the user set. The contracts are those that VOptions has.
%use auth
%path Duration::from_secs => vx_secs
%path String::new => vx_string_new
%raw
pub uninterp spec fn secs(n: u64) -> VDuration;
#[verifier::external_body]
pub fn vx_secs(n: u64) -> (r: VDuration) ensures r == secs(n) { unimplemented!() }
#[verifier::external_body]
pub fn vx_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
pub fn vx_opt_str(x: &Option<String>) -> (r: Option<&str>)
    ensures r is Some <==> x is Some, r is Some ==> r->Some_0@ == x->Some_0@
{ match x { Some(s) => Some(s.as_str()), None => None } }
%type ConnectionOptions
%raw
pub trait ConnectionOptionsTrait {
    spec fn o_password(&self) -> Seq<u8>;
    spec fn o_clear_ok(&self) -> bool;
    spec fn o_plugin(&self) -> Option<AuthPlugin>;
    spec fn o_user(&self) -> Seq<u8>;
    spec fn o_db(&self) -> Option<Seq<u8>>;
    spec fn o_caps(&self) -> u32;
    spec fn o_max(&self) -> Option<usize>;
    spec fn o_key(&self) -> Option<VKey>;
    spec fn o_timeout(&self) -> VDuration;
    fn user(&self) -> (r: &str) ensures vstd::utf8::encode_utf8(r@) == self.o_user();
    fn password(&self) -> (r: &str) ensures vstd::utf8::encode_utf8(r@) == self.o_password();
    fn db_name(&self) -> (r: Option<&str>)
        ensures r is Some <==> self.o_db() is Some, r is Some ==> vstd::utf8::encode_utf8(r->Some_0@) == self.o_db()->Some_0;
    fn max_allowed_packet(&self) -> (r: Option<usize>) ensures r == self.o_max();
    fn timeout(&self) -> (r: VDuration) ensures r == self.o_timeout();
    fn get_capabilities(&self) -> (r: CapabilityFlags) ensures r.bits == self.o_caps();
    fn allow_cleartext_password(&self) -> (r: bool) ensures r == self.o_clear_ok();
    fn auth_plugin(&self) -> (r: Option<AuthPlugin>) ensures r == self.o_plugin();
    fn server_key(&self) -> (r: Option<VKey>) ensures (r is Some <==> self.o_key() is Some), r is Some ==> key_of(r->Some_0) == key_of(self.o_key()->Some_0);
}
/// The features this library can speak.
pub open spec fn our_caps(db: bool) -> u32 {
    let base = CapabilityFlags::PROTOCOL_41.bits | CapabilityFlags::SECURE_CONNECTION.bits | CapabilityFlags::TRANSACTIONS.bits | CapabilityFlags::PS_MULTI_RESULTS.bits
        | CapabilityFlags::DEPRECATE_EOF.bits | CapabilityFlags::PLUGIN_AUTH.bits;
    if db { base | CapabilityFlags::CONNECT_WITH_DB.bits } else { base }
}
%impl <ConnectionOptions as ConnectionOptionsTrait>
    open spec fn o_password(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self.password@) }
    open spec fn o_clear_ok(&self) -> bool { self.allow_cleartext_password }
    open spec fn o_plugin(&self) -> Option<AuthPlugin> { self.auth_plugin }
    open spec fn o_user(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self.user@) }
    open spec fn o_db(&self) -> Option<Seq<u8>> { match self.db_name { Some(x) => Some(vstd::utf8::encode_utf8(x@)), None => None } }
    open spec fn o_caps(&self) -> u32 { our_caps(self.db_name is Some) }
    open spec fn o_max(&self) -> Option<usize> { self.max_allowed_packet }
    open spec fn o_key(&self) -> Option<VKey> { self.server_key }
    open spec fn o_timeout(&self) -> VDuration { self.timeout }
%fn <ConnectionOptions as ConnectionOptionsTrait>::{{user,password,max_allowed_packet,timeout,allow_cleartext_password,auth_plugin,server_key,get_capabilities}}
%fn <ConnectionOptions as ConnectionOptionsTrait>::db_name
%rw self.db_name.as_deref() => vx_opt_str(&self.db_name)
%impl <ConnectionOptions as Default>
%fn <ConnectionOptions as Default>::default
    ensures
        !r.allow_cleartext_password, r.auth_plugin == Some(AuthPlugin::Sha2), r.server_key is None, r.max_allowed_packet is None, r.db_name is None,
        r.user@.len() == 0, r.password@.len() == 0, r.timeout == secs(10),
%const <TcpStream as Stream>::SECURE as TCP_SECURE
%raw
/// A plain TCP stream is not a secure transport.
pub proof fn c09_tcp() ensures !TCP_SECURE { }
