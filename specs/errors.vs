%use prelude
%path io::Error => IoError
%path std::io::Error => IoError
%path io::ErrorKind => VxErrorKind
%path std::io::ErrorKind => VxErrorKind
%path crate::utils::crypt::Error => CryptError
%ty Box<dynfmt::Debug> => VxDebug
%ty FromUtf8Error => VxFromUtf8Error
%raw
/// Stand-in for std::io::Error: only its kind is looked at.
pub struct IoError { pub kind: VxErrorKind }
pub enum VxErrorKind { UnexpectedEof, TimedOut, InvalidData, Other }
impl IoError {
    #[verifier::external_body]
    pub fn new<E>(kind: VxErrorKind, e: E) -> (r: IoError)
        ensures r.kind == kind
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VxDebug { x: () }
#[verifier::external_body]
pub struct VxFromUtf8Error { x: () }
%type utils::crypt::Error as=CryptError
%type AuthPlugin derive=Clone,Copy,PartialEq,Eq,Structural
%type AuthPluginMismatch
%type RuntimeError
%type WrongValue
%type InvalidFlags
%type ParseError
%type SerializeError
%type UnexpectedPacket
%type InvalidPacket
%type ProtocolError
%type Value
%type NamedValue
%type ValueType
%fn ProtocolError::eof
    ensures r is Io
%fn ProtocolError::unexpected_packet
    ensures r is UnexpectedPacket, r->UnexpectedPacket_0.0 == got
%fn ProtocolError::invalid_packet
    ensures r is InvalidPacket
%fn ParseError::wrong_value
    ensures r is WrongValue
%raw
use vstd::std_specs::convert::FromSpecImpl;
impl FromSpecImpl<InvalidFlags> for ParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidFlags) -> Self { ParseError::UnknownBitflags(v) }
}
impl FromSpecImpl<Utf8Error> for ParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Utf8Error) -> Self { ParseError::Utf8(v) }
}
impl FromSpecImpl<VxFromUtf8Error> for ParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: VxFromUtf8Error) -> Self { ParseError::FromUtf8(v) }
}
impl FromSpecImpl<InvalidFlags> for ProtocolError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidFlags) -> Self { ProtocolError::Parse(ParseError::UnknownBitflags(v)) }
}
impl FromSpecImpl<Utf8Error> for ProtocolError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Utf8Error) -> Self { ProtocolError::Parse(ParseError::Utf8(v)) }
}
impl FromSpecImpl<VxFromUtf8Error> for ProtocolError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: VxFromUtf8Error) -> Self { ProtocolError::Parse(ParseError::FromUtf8(v)) }
}
impl FromSpecImpl<ParseError> for ProtocolError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParseError) -> Self { ProtocolError::Parse(v) }
}
impl FromSpecImpl<SerializeError> for ProtocolError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: SerializeError) -> Self { ProtocolError::Serialize(v) }
}
impl FromSpecImpl<IoError> for ProtocolError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IoError) -> Self { ProtocolError::Io(v) }
}
impl FromSpecImpl<CryptError> for SerializeError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: CryptError) -> Self { SerializeError::Encryption(v) }
}
%fn <ParseError as From<InvalidFlags>>::from
%fn <ParseError as From<Utf8Error>>::from
%fn <ParseError as From<FromUtf8Error>>::from
%fn <ProtocolError as From<InvalidFlags>>::from
%fn <ProtocolError as From<Utf8Error>>::from
%fn <ProtocolError as From<FromUtf8Error>>::from
%fn <ProtocolError as From<ParseError>>::from
%fn <ProtocolError as From<SerializeError>>::from
%fn <ProtocolError as From<Error>>::from
%fn <SerializeError as From<Error>>::from
%fn NamedValue::name
    ensures r@ == self.0@
%fn NamedValue::value
    ensures *r == self.1
