#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the file stays valid JSON lines).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

C="src/connection/"
p("C01","Outgoing payloads are framed exactly as the MySQL protocol demands",
  "Every payload the client sends appears on the wire as the original bytes cut into chunks of at most 16777215 bytes, each preceded by its 3-byte little-endian length and a sequence number that goes up by one per chunk modulo 256. A payload whose length is a multiple of 16777215 (zero included) is closed by an empty chunk, and nothing else is written. Every command starts again at sequence number 0.",
  ["inputs","histories"],"all payload lengths and contents, all starting sequence numbers, all stream behaviours",
  "No test writes a packet; the 16 MiB boundary, wrap-around of the sequence number and the trailing empty chunk need inputs no sample reaches.",
  [C+"io.rs",C+"query.rs",C+"mod.rs"],
  [("chunking loop and header word","Connection::write_packet"),("sequence reset per command","Connection::write_command, Connection::execute_command"),("serialise into a fresh buffer","Connection::write_struct")],
  ["bytes handed to the user-supplied stream"],[("seq_id","sequence number of the next packet in either direction","Connection")])
p("C02","Incoming chunks are reassembled into exactly the payload the server sent",
  "Whatever the chunking, the payload handed to the decoders is the concatenation of the chunk bodies the server sent up to and including the first chunk shorter than 16777215 bytes, and not one byte more is consumed. A chunk whose sequence number is not the expected one is reported as out of sync and is never decoded as data. Each accepted chunk advances the expected sequence number by one modulo 256.",
  ["inputs","histories","fault_sequences"],"all server byte streams, all chunk sizes, all starting sequence numbers, all read errors",
  "No test reads from a stream; multi-chunk packets, exact multiples of 16 MiB and wrong sequence numbers are unbounded families.",
  [C+"io.rs"],[("header parse and chunk read","Connection::read_chunk_to_buf, utils::read_u32"),("reassembly and sequence check","Connection::read_packet_to_buf"),("fresh buffer","Connection::read_packet")],
  ["rows, OK packets and errors returned to the caller"],[("seq_id","expected sequence number","Connection")])
p("C03","Length-encoded integers and strings round-trip and are minimal",
  "A length-encoded integer is written in the shortest legal form (1, 3, 4 or 9 bytes) and reading that form back yields the same number and consumes exactly those bytes, for every 64-bit value. A length-encoded byte string reads back as the same bytes and leaves what follows it untouched. The announced sizes used to plan packets equal the sizes written.",
  ["inputs"],"all 64-bit integers, all byte strings, all trailing data",
  "Tests contain no length-encoded value at all; the boundaries 250/251, 65535/65536, 2^24 and every byte order mistake need all inputs.",
  [C+"parse_buf.rs","src/utils/buf_mut_ext.rs","src/utils/mod.rs"],
  [("writer","BufMutExt::put_lenenc_int / put_lenenc_slice"),("reader","ParseBuf::checked_eat_lenenc_int / checked_eat_lenenc_slice and the fixed width readers"),("size prediction","lenenc_int_len, lenenc_slice_len")],
  ["bound byte parameters on the wire, byte columns in rows"])
p("C04","No server byte sequence makes the client panic or read out of bounds",
  "Decoding any bytes a server (or whoever sits between) may send, in any protocol state, ends with a value or an error: it never panics, never overflows arithmetic, never reads outside the packet. Truncated, over-long, empty and contradictory packets are errors. This covers the greeting, authentication exchange, OK and ERR packets, column definitions, statement headers and rows of both protocols.",
  ["inputs","fault_sequences"],"all byte sequences, all declared lengths, all capability combinations",
  "The tests decode nothing; a crash needs one unlucky malformed packet out of an unbounded set, and unchecked reads are memory unsafety rather than a test failure.",
  [C+"parse_buf.rs",C+"serialization.rs",C+"packets/ok.rs",C+"packets/err.rs",C+"packets/handshake.rs",C+"packets/column_def.rs",C+"packets/stmt.rs",C+"packets/auth_switch_request.rs",C+"types/auth_plugin.rs",C+"types/null_bitmap.rs",C+"result_set.rs",C+"init.rs","src/types/value/bin.rs","src/types/value/text.rs"],
  [("checked cursor","ParseBuf"),("packet decoders","Deserialize impls"),("row decoders","Value::deserialize_bin, Value::deserialize_text"),("packet dispatch","ResultSet::next, Connection::cleanup, Connection::decode_response")])
p("C05","Bound parameters are encoded in the binary protocol without loss",
  "Every value bound to a prepared statement is written in the binary format its announced type requires, little endian, with the shortest date and time form that loses nothing (a zero time has no sign), and decoding those bytes as a server does gives back the identical value. NULL writes nothing.",
  ["inputs"],"all values of all variants, including all dates, times, signs, microseconds and byte strings",
  "No test encodes a value; one wrong field width, order or form selection corrupts data only for particular values.",
  ["src/types/value/bin.rs","src/types/value/mod.rs","src/utils/buf_mut_ext.rs"],
  [("encoder","Serialize for Value"),("announced type and signedness","Value::column_type, Value::is_unsigned"),("size prediction","Value::bin_len")],["COM_STMT_EXECUTE on the wire"])
p("C06","Binary protocol rows decode to exactly the values the server encoded",
  "For every row of a prepared statement result, each column yields NULL exactly when its bit in the row's NULL bitmap (offset two) is set, and otherwise the value encoded for its announced type and signedness. Columns are decoded in order, each consuming exactly its own bytes, so that one column can never shift its neighbours.",
  ["inputs"],"all column lists, all NULL patterns, all values, all date and time length forms",
  "No test decodes a binary row; bitmap arithmetic and cursor drift depend on the column count and on which columns are NULL.",
  [C+"types/protocol.rs",C+"types/null_bitmap.rs","src/types/value/bin.rs",C+"parse_buf.rs"],
  [("row loop","BinaryProtocol::read_result_set_row"),("bitmap","NullBitmap"),("per type decoding","Value::deserialize_bin and helpers")],["rows returned to the caller"])
p("C07","Text protocol rows decode to exactly the values the server wrote",
  "For every row of a text result, each column yields NULL exactly when its marker byte says so, and otherwise the number, byte string, date, time or datetime that the server's text denotes, for the column's announced type and signedness. Text that denotes no value of that type is an error and never a wrong value. Columns are decoded in order, each consuming exactly its own bytes.",
  ["inputs"],"all column lists, all texts, all fractional second precisions, negative times, hours beyond 24",
  "No test decodes a text row; sign, fraction and day arithmetic go wrong only for particular texts.",
  [C+"types/protocol.rs","src/types/value/text.rs",C+"parse_buf.rs"],
  [("row loop","TextProtocol::read_result_set_row"),("per type decoding","Value::deserialize_text and helpers")],["rows returned to the caller"])
p("C08","A statement execution sends every parameter once, typed, in order",
  "Executing a prepared statement with as many values as it has placeholders sends the statement id, a NULL bitmap whose bit i is set exactly when value i is NULL, one type and signedness pair per value and then the encodings of the non-NULL values in order, so that a server recovers exactly the bound list. Any other number of values is refused before anything is sent. Byte strings too large for one packet are sent beforehand in pieces under the right statement and parameter numbers, every byte once and in order.",
  ["inputs"],"all parameter counts, all NULL patterns, all values, all sizes across the 16 MiB switch",
  "No test executes a statement; the layout depends on the number of parameters and on which are NULL, and the long-data path starts at 16 MiB.",
  [C+"packets/stmt_execute_request.rs",C+"packets/stmt_send_long_data.rs",C+"io.rs",C+"prepared_statement.rs",C+"types/null_bitmap.rs"],
  [("request layout","StmtExecuteRequest::new and its Serialize"),("NULL bitmap","NullBitmap::set"),("long data","Connection::send_long_data, StmtSendLongData"),("count check","PreparedStatement::query / execute")],["bytes handed to the stream"])
p("C09","The password never crosses an insecure transport in the clear",
  "On a transport not declared secure, no byte the client writes during authentication contains the password unless the user allowed clear-text passwords: the client sends only the challenge response or the RSA-OAEP encryption of the nonce-masked password under the server's key. This holds whatever packets the server sends, including authentication switches, and a switch to a method other than the one the user pinned is refused.",
  ["inputs","histories","configurations"],"all server packet sequences, all option combinations, all passwords and nonces",
  "No test authenticates; secrecy is a statement about every packet an adversarial server may send.",
  [C+"auth.rs",C+"init.rs",C+"types/auth_plugin.rs","src/utils/crypt.rs","src/utils/scramble.rs"],
  [("choice of response","AuthPlugin::gen_data"),("full authentication","Connection::continue_caching_sha2_password_auth"),("switch handling","Connection::perform_auth_switch")],["bytes handed to the stream"])
p("C10","Authentication responses follow the published challenge formulas",
  "The native response is SHA1(password) xor SHA1(nonce, SHA1(SHA1(password))) and the caching-sha2 response is SHA256(password) xor SHA256(SHA256(SHA256(password)), nonce), computed with the most recent nonce the server sent. An empty password yields an empty response. A server that stores only the double hash can therefore verify every response. Where the server asks for the whole password instead, it gets exactly that, followed by a zero byte: as it is on a secure transport, otherwise masked with the most recent nonce and encrypted under its key, which is requested unless the user supplied it. A client with the right password is therefore let in whatever course the server chooses.",
  ["inputs","histories"],"all passwords, all nonces, greeting or switch",
  "No test computes a response; a swapped operand or stale nonce only shows against a real server.",
  ["src/utils/scramble.rs","src/utils/crypt.rs",C+"types/auth_plugin.rs",C+"auth.rs",C+"init.rs"],
  [("formulas","scramble_native, scramble_sha256"),("full authentication","Connection::continue_caching_sha2_password_auth, Connection::perform_auth_switch"),("byte-wise xor","scramble::xor"),("selection and framing of the response","AuthPlugin::gen_data, Serialize for AuthPluginData")],["bytes handed to the stream"])
p("C11","A command never sees a previous result's packets",
  "Whatever part of a result set the caller read before dropping it, the next command first consumes the remainder of that result up to its terminator and then sends itself with sequence number 0, so that its own response is the first thing read afterwards. A result set yields each row once, in order, then reports its end for good. Nothing is consumed when no result is outstanding.",
  ["histories","inputs"],"all histories of commands, partial reads, early drops and repeated calls",
  "Tests never issue two commands on one connection; desynchronisation depends on the history.",
  [C+"result_set.rs",C+"query.rs",C+"io.rs"],
  [("outstanding result flag","Connection::pending_result"),("draining","Connection::cleanup"),("row iteration and end","ResultSet::next, finish, one, collect"),("command start","Connection::write_command, Connection::execute_command")],None,
  [("pending_result","rows of an earlier command are still unread","Connection")])
p("C12","Server replies are classified and reported faithfully",
  "A reply that starts with the OK marker yields success with exactly the affected rows, last insert id, status and warning count the server sent; a reply that starts with the error marker yields the server's error code, SQL state and message; any other first byte is reported as unexpected. An error reply is never reported as success nor a success as an error, at any point of the protocol.",
  ["inputs","histories"],"all reply packets in all protocol states",
  "No test decodes a reply; the classification is a statement about all first bytes and states.",
  [C+"io.rs",C+"packets/ok.rs",C+"packets/err.rs",C+"result_set.rs",C+"auth.rs",C+"prepared_statement.rs"],
  [("dispatch","Connection::decode_response, ResultSet::read, Connection::prepare_statement"),("OK and end-of-rows fields","OkPacket::read_ok, OkPacket::read_eof"),("error fields","ErrPacket, ErrorPacket")])
p("C13","An escaped string literal always denotes the original string",
  "For every string, the quoted literal is exactly one complete MySQL string literal: no input can end the literal early. Reading the literal back under MySQL's escape rules yields the original string.",
  ["inputs"],"all Unicode strings",
  "One test fixes a single sample; injection safety is about all strings.",
  ["src/types/value/text.rs"],[("escaping loop","write_escaped_chars, Display for StringEscape")],["formatted text"])
p("C14","An escaped identifier always denotes one identifier and cannot be broken out of",
  "For every string, the quoted identifier is exactly one backtick-quoted identifier whose content is the input restricted to the permitted characters U+0001 to U+FFFF and without trailing white space. The unquoted form contains only characters that are legal in an unquoted identifier, in their original order.",
  ["inputs"],"all Unicode strings",
  "Two tests fix single samples; injection safety is about all strings.",
  ["src/types/value/text.rs"],[("quoting loop","Display for IdentifierEscape"),("filter","Display for UnquotedIdentifierEscape")],["formatted text"])
p("C15","Generated statements list every column once, with its placeholder, in order",
  "A generated insert names each given column exactly once in order and has exactly one placeholder per column; a generated update assigns each given column one placeholder in order and ends with the primary key placeholder; a generated select lists every column of the model and of every referenced model, qualified by its reference path, with one join per reference. The values are bound in the same order as the placeholders.",
  ["inputs","programs"],"all column lists and reference trees, all table names",
  "One model is tested; separators and alignment depend on the number, order and nesting of columns.",
  ["src/model/active_model/named_value.rs","src/model/into_query.rs","src/model/active_model/update_model.rs"],
  [("insert and update text","NamedValue::into_insert, NamedValue::into_update"),("select text","IntoQuery::build_query, QueryColumn::append_to_select, QueryColumnReference::join"),("value order","UpdateModel::update, ActiveModel::insert")],["statement text sent to the server"])
p("C16","Converting a Rust value to a database value and back is the identity",
  "Converting any Rust value to a database value and back to its own type yields the same value (dates and times up to microsecond precision), or the first conversion fails. Converting a database value to a type that cannot hold it is an error and never a different value (a datetime may be read as its date, and a number as a truth value), and NULL converts only to the absent option.",
  ["inputs"],"all values of the supported Rust types, all database values",
  "No test converts anything; sign and carry errors need particular durations and dates.",
  ["src/types/value/conversion.rs","src/types/value/mod.rs"],[("conversions","From / TryFrom / TryInto impls of Value")],["row access and parameter binding"])
p("C17","Hex text and bytes convert back and forth without loss",
  "Every byte string is printed as 0x followed by two lower-case hex digits per byte, and parsing that text, with or without either prefix and in either letter case, returns the same bytes. Text that is not hex is an error and never a panic.",
  ["inputs"],"all byte strings, all texts and byte inputs including very short ones",
  "One sample is tested; short and malformed inputs are not.",
  ["src/types/hex.rs"],[("parsing","Hex::try_from_hex, FromStr for Hex"),("printing","Display for Hex")])
p("C18","Migrations run in version order, each at most once",
  "Versions are compared component by component, most significant first, and this is a total order. Migrating up runs exactly the not yet applied migrations whose version does not exceed the target, in ascending order, and migrating down exactly the applied ones above the target, in descending order; the migrator notes a migration as applied (or no longer applied) exactly when it ran successfully and never runs a noted one again; each successful run is followed by its record in the migrations table before the next migration starts, and the first failure, of a migration or of its record, ends the run.",
  ["inputs","histories","fault_sequences"],"all version triples, all migration lists, all already applied sets, all targets, failures at any step",
  "No test runs the migrator; ordering and idempotence depend on lists and histories.",
  ["src/migrator/migration.rs","src/migrator/migrator_inner.rs"],
  [("order","Ord for Version, MigrationList::ordered"),("selection","Migrator::up_to_version, Migrator::down_to_version, Migrator::one_down"),("applied set","Migrator::insert_applied, Migrator::get_applied")])
p("C19","The connection handshake is parsed and answered consistently",
  "From any well-formed greeting the client takes the connection id, the 20-byte nonce, the version and the capabilities exactly as sent, and the capabilities it goes on to use are those both sides support. Its answer announces exactly the optional fields it contains (database, plugin, attributes) and encodes the challenge response in the form the announced capabilities prescribe, so that a server parses back the same user, response, database and plugin (whatever the form can represent: no zero byte within text that a zero byte ends, at most 255 bytes behind a one-byte length). Unless the user set a packet limit, the client asks for the server's and adopts it.",
  ["inputs","configurations"],"all greetings, all capability masks, all users, databases, plugins and response lengths",
  "No test performs a handshake; each flag combination has its own layout.",
  [C+"packets/handshake.rs",C+"packets/handshake_response.rs",C+"init.rs",C+"types/ints.rs",C+"types/auth_plugin.rs",C+"bitflags.rs"],
  [("greeting parser","HandshakePacket::deserialize, parse_server_version"),("answer","HandshakeResponse::new and its Serialize"),("capability intersection","Connection::handle_handshake")],["bytes handed to the stream, connection data accessors"])
p("C20","A recycled buffer never carries a previous user's bytes",
  "A buffer taken from the shared pool is always empty whatever was in it when it was returned, and a returned buffer keeps no more than the configured capacity. No packet sent or decoded can therefore contain bytes of another packet or connection.",
  ["inputs","histories"],"all histories of taking, filling, dropping and returning buffers",
  "No test uses the pool; leaks depend on what earlier users left behind.",
  ["src/pool/sync_pool.rs","src/pool/pool_item.rs",C+"io.rs"],
  [("reset on return","SyncPoolContent for Vec::reset, PoolPut for SyncPool"),("take","SyncPool::get"),("return on drop","Drop for PoolItem")],["packets on the wire"])
p("C21","RSA-OAEP padding and key parsing follow RFC 8017 and DER",
  "Padding a message for a key of n bytes yields n bytes from which OAEP decoding with SHA-1 recovers exactly the message, for every message that fits, and is refused for every longer one; the encrypted block always has the key's length. A PKCS#1 or PKCS#8 public key yields its modulus and exponent, and malformed keys are errors, never panics.",
  ["inputs"],"all messages, seeds and key sizes, all DER and PEM inputs",
  "One fixed key and message are tested; lengths, masks and malformed keys are unbounded.",
  ["src/utils/crypt.rs"],[("padding","OaepPadding::pad, OaepPadding::mgf1"),("block size","PublicKey::num_octets, PublicKey::encrypt_padded"),("DER reader","eat_len, eat_uint, eat_sequence, eat_bit_string, try_from_pkcs1, try_from_pkcs8")])
p("C22","An operation ends with its own result or a timeout, result first",
  "Every wait for bytes to be read from or written to the stream ends with the operation's own result if that result is ready, and with a timed-out error only if the operation is not ready while the timer has expired. It is pending exactly when both are pending.",
  ["schedules","histories"],"all orders in which the operation and the timer become ready",
  "No test uses a timeout; the outcome depends on which of the two is ready at which poll.",
  [C+"timeout.rs"],[("poll order","Future for Timeout")])
p("C23","A connection pool never holds more than its capacity and never strands a waiter",
  "At no time are there more live pooled connections than the pool's capacity, and a caller waiting for a connection proceeds once one is returned, or a creation fails or is abandoned.",
  ["schedules","fault_sequences"],"all interleavings of takers, returners and failing constructors",
  "No test uses the pool; the defects are interleavings.",
  ["src/pool/async_pool.rs","src/pool/pool_item.rs"],[("slot counter and queue","PoolTake::poll"),("return","PoolPut for AsyncPool")])
p("C24","Generated model code maps every selected column to its own field",
  "For every model definition the derive macros accept, a row of the model's own query fills each field, nested references included, from the column of that name and path, and reports missing columns as errors; saving an active model writes each field that is set to its own column, and nothing else.",
  ["programs","inputs"],"all model definitions, all column orders",
  "Two model shapes are compiled by the tests and none is filled from a row.",
  ["macros/src/lib.rs","macros/src/parse.rs","src/model/from_query_result.rs"],[("generated mapping","FromQueryResult derive"),("prefix stripping","FromQueryResultMapping::set_mapping")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
