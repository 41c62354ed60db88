#!/usr/bin/env python3
"""known_findings.json. Never run by a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = [
    ("C11", "c11-more-results", "a reply with SERVER_MORE_RESULTS_EXISTS (status bit 8): the further results are left in the input and the next command reads them as its own reply"),
    ("C13", "c13-sub", "StringEscape writes the byte 0x1A as \\z, which MySQL reads as the letter z (the existing unit test pins this form)"),
    ("C16", "c16-days", "From<chrono::Duration> for Value keeps only the low 32 bits of the number of days (durations of 2^32 days and more; From cannot fail)"),
]
fixed = """C12 3c7ff34 the EOF packet after a result set was decoded with its header byte as part of the warnings
C04 487b0ff an empty packet inside a result set panicked
C11 edf8139 without DEPRECATE_EOF the EOF packets around rows were not recognised
C12 1457494 an error packet in mid-result was decoded as a row and did not end the result
C11 1457494 after an error packet in mid-result the next command waited for a terminator that never comes
C04 85aa81b a LOCAL INFILE request panicked
C06 0a68545 strings of a column definition were read with a one-byte length
C07 0a68545 strings of a column definition were read with a one-byte length
C04 d915c3b the column count claimed by the server was reserved in memory unchecked
C07 7fa266a the fraction of a time was read with the wrong number of digits
C07 1b3c9d1 a datetime with a bad separator or more than 23 hours was accepted
C04 f95bf38 an unsupported column type panicked
C07 f95bf38 an unsupported column type panicked
C06 e558fe8 binary dates, times and datetimes of an unexpected length left bytes for the next column
C05 fc3ba84 the zero date was written in a form other than the announced length
C04 d3bf986 formatting a time with many days overflowed
C12 ec01192 the reply after a fast authentication was not looked at
C04 f681cf2 an empty nonce divided by zero
C04 84aace2 a malformed greeting panicked
C04 5bd6946 long authentication data overflowed
C19 5bd6946 long authentication data overflowed
C04 5297b10 a server version that is not ASCII panicked
C17 08caac3 text shorter than a prefix panicked
C16 1bee01c negative durations shorter than a second lost their sign
C21 8538ee1 the length of a key whose bits are no multiple of eight was rounded down
C21 7c9d125 the longest messages OAEP allows were refused
C21 9d235a6 truncated keys panicked
C04 9d235a6 truncated keys panicked
C21 7f258d9 a key whose begin and end lines overlap panicked
C04 7f258d9 a key whose begin and end lines overlap panicked
C14 266d074 an identifier of only white space kept one white space character
C23 ceb66c4 a failed or abandoned creation kept its place in the pool
C23 0c244aa a task waiting for an item was not woken when one was returned
C24 109f741 a reference with the name of the model's own table took that table's columns
C24 b01f919 the columns of fields with raw identifiers were named with r#""".splitlines()
json.dump({"known": [dict(property=a, key=b, what=c) for a, b, c in known],
           "fixed": ["fixed: property=" + f for f in fixed]}, open(V + "/known_findings.json", "w"), indent=1)
