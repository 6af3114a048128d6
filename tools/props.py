# Single source of truth for properties.jsonl and MANIFEST.json (see gen_meta.py).
PROPS = []
NOT_APPLICABLE = {}

def P(id, title, statement, over, qtext, why, files, mech, technique, level, note, observe=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": qtext}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                 **({"observe_at": observe} if observe else {})},
        technique=technique, level=level, level_note=note))

P("C01", "Request parsing does not depend on how the stream is cut into chunks",
  "Take any sequence of HTTP/1.x requests whose request lines carry a protocol version and whose bodies are delimited by Content-Length or chunked coding. However the bytes are cut into chunks, the resulting transactions (all parsed fields, headers, flags, lengths), the bytes handed to the header, trailer and body callbacks, the order of callbacks, the logged messages, the connection byte counter and the final stream status are the same as when the whole stream arrives in one chunk. (The flag that says the request head spanned several packets is the only thing that may differ.)",
  ["inputs", "schedules"], "every byte stream of the grammar and every way of cutting it into non-empty chunks",
  "A stream of n bytes has 2^(n-1) segmentations; the tests replay about a hundred captures with one segmentation each, nearly all unsegmented.",
  ["src/request.rs", "src/connection_parser.rs", "src/headers.rs"],
  [("per-direction buffer of an incomplete line, header remainder buffer", "src/request.rs (handle_request_absent_lf, request_headers)"),
   ("suspendable request state machine", "src/connection_parser.rs handle_request_state")],
  "bounded-exhaustive exploration of all chunkings of the real parser against its unsegmented run", "exploration",
  "Exhaustive over a message grammar x all segmentations up to k cuts, all segmentations inside every sliding window, and byte-at-a-time. Not covered: streams outside the grammar, more simultaneous far-apart cuts.",
  ["callbacks", "Transaction fields", "stream status"])

P("C02", "Response parsing does not depend on how the stream is cut into chunks",
  "Take any sequence of HTTP/1.x responses with well-formed status lines and header lines ended by CRLF (or LF not followed by CR), delimited by Content-Length, chunked coding or connection close. However the bytes are cut into chunks, the resulting transactions, the bytes handed to the header, trailer and body callbacks, the order of callbacks, the logged messages, the byte counter and the final stream status are the same as when the stream arrives in one chunk.",
  ["inputs", "schedules"], "every response stream of the grammar and every way of cutting it into non-empty chunks",
  "Same as for requests: 2^(n-1) segmentations per stream, of which the tests exercise one each.",
  ["src/response.rs", "src/connection_parser.rs", "src/headers.rs"],
  [("per-direction buffer of an incomplete line, header remainder buffer", "src/response.rs (handle_response_absent_lf, response_headers)"),
   ("suspendable response state machine", "src/connection_parser.rs handle_response_state")],
  "bounded-exhaustive exploration of all chunkings of the real parser against its unsegmented run", "exploration",
  "Exhaustive over a message grammar x all segmentations up to k cuts, all segmentations inside every sliding window, and byte-at-a-time. Stray bytes between responses are outside the grammar (the parser guesses there from what the chunk shows).",
  ["callbacks", "Transaction fields", "stream status"])

EXPL = "exploration"

P("C03", "Every call returns: no panic, no overflow, no endless loop",
  "For every sequence of calls (data in either direction in any chunks, gaps, empty chunks, closing calls in any order), every byte content and every configuration, each call returns within bounded time without a panic, an arithmetic overflow or an out-of-range access.",
  ["histories", "inputs", "configurations"], "every history of calls, every byte string and every configuration",
  "The parser reads attacker-controlled bytes; the tests replay fixed captures and cannot show that no other input or call order panics or loops.",
  ["src/connection_parser.rs", "src/request.rs", "src/response.rs", "src/headers.rs", "src/util.rs", "src/decompressors.rs"],
  [("state loops", "src/connection_parser.rs (request_data, response_data)"), ("byte-level parsers", "src/util.rs, src/headers.rs, src/parsers.rs")],
  "exhaustive exploration of call histories, byte strings in every grammar position, and all single-byte mutations, on the real parser with overflow checks on", EXPL,
  "Exhaustive within: call sequences to depth 3-4 over 32 actions x 5 configurations; all strings to length 3 over the special bytes in 22 positions x 7 configurations; all one-byte edits of grammar messages. A call still running after 8 s counts as endless.")

P("C04", "Byte accounting and the suspend/resume contract",
  "Each data call on a direction that has not failed or been stopped adds exactly the chunk's length to that direction's byte counter and nothing to the other's, never reports more consumed bytes than offered, answers \"more data\" only when the whole chunk was consumed and \"waiting for the other direction\" only when some of it was not; on a failed or stopped direction it counts and consumes nothing, and an empty chunk has no effect. When the caller resubmits the unconsumed rest once the other direction has moved, the transactions come out as if the parser had never suspended. It makes no difference whether the bytes come as slice, vector or pointer, and a fresh parser has consumed nothing.",
  ["histories", "schedules"], "every history of data, gap and close calls and every interleaving of the two directions",
  "Callers (IDS engines) rely on the consumed count to resubmit data; tests check it in a handful of CONNECT captures.",
  ["src/connection_parser.rs", "src/connection.rs", "src/request.rs"],
  [("consumed counters and DATA_OTHER", "src/connection_parser.rs (request_data, response_data)"), ("byte counters", "src/connection.rs track_inbound_data")],
  "exhaustive exploration of call histories and of all interleavings of suspended conversations, contract monitored at every call", EXPL,
  "Histories to depth 4 over 32 actions x 5 configurations; refused-CONNECT conversations in all cuts and interleavings of the bound.")

P("C05", "Callbacks follow the documented protocol",
  "In every history, the callbacks of a transaction run in the documented order (request: start, URI normalisation, line, header data, headers, body data, trailer, complete; response likewise, an interim 100 response starting over), each non-data callback at most once, while the progress of the transaction is at the stage it reports, only for the transaction currently being parsed in that direction, transactions starting in order and never going backwards in progress. Transaction-complete runs exactly once, when both sides are complete, and nothing runs for the transaction afterwards. For a well-formed conversation the sequence is exactly the one its messages prescribe, however the bytes are cut.",
  ["histories", "inputs", "configurations"], "every history of calls and every configuration",
  "The order is a safety property of event sequences; tests look at selected callbacks in selected captures.",
  ["src/connection_parser.rs", "src/request.rs", "src/response.rs", "src/hook.rs"],
  [("state transitions that run the hooks", "src/connection_parser.rs (state_request_*, state_response_*)"), ("raw header data receivers", "src/request.rs, src/response.rs (receiver_*)")],
  "exhaustive exploration of call histories with a monitor automaton over all callbacks, plus exact callback sequences from a message model", EXPL,
  "Histories to depth 4 (quick) / 5 (thorough) over 31 actions x 5 configurations. Excluded: closing the same connection twice.")

P("C06", "A failed, stopped or tunnelled direction stays inert",
  "Once a direction has reported an error, has been stopped by a callback or has become a tunnel, every later data call on it returns that same state, runs no callback, consumes nothing and changes no transaction, whatever the other direction does in between; closing the connection does not revive a failed direction.",
  ["histories", "fault_sequences"], "every history, with every callback answering error or stop",
  "The state must survive every later call, including those of the other direction; tests make at most one call after an error.",
  ["src/connection_parser.rs"],
  [("stream status", "src/connection_parser.rs (request_status, response_status)")],
  "exhaustive exploration of call histories x single callback faults, inertness monitored at every later call", EXPL,
  "Histories to depth 4 over 32 actions x 5 configurations; single faults at the first 12 callbacks over a 15-action alphabet.")

P("C07", "A well-formed message is reported exactly as it was sent",
  "For every well-formed HTTP/1.x request or response (bodies with Content-Length, chunked with extensions and trailers, or delimited by close; HEAD, 204, 304; interim 100 responses; CRLF or LF line ends), the transaction carries exactly the sent method, target, protocol, status, reason and headers, the body callbacks deliver exactly the body bytes, the recorded lengths match, and a following message on the connection begins at the right byte.",
  ["inputs", "schedules"], "every message of the grammar, every body content and every way of cutting the stream",
  "Body bytes that look like line ends, chunk lengths or new messages, at every cut, are a product space the captures do not sample.",
  ["src/request.rs", "src/response.rs", "src/transaction.rs", "src/parsers.rs"],
  [("body framing decision", "src/transaction.rs process_request_headers, src/response.rs response_body_determine"), ("chunked and identity body states", "src/request.rs, src/response.rs")],
  "exhaustive enumeration of a message specification grammar, written out by a reference model and replayed against the parser in all segmentations of the bound", EXPL,
  "Method x framing x body bytes x line ending x status x interim, single and pipelined; every one-cut segmentation, all segmentations of 3-byte windows, byte-at-a-time (thorough: two cuts, windows of 6). A close/CL body starting with CR behind a bare-LF blank line is outside the grammar (the parser accepts LF CR as a line end).")

P("C08", "Responses are paired with their requests under every interleaving",
  "For every interleaving of the two directions in which no response precedes the head of its request, the k-th response is attached to the k-th request's transaction with both messages complete and exact, with or without automatic destruction of finished transactions, however messages are cut or glued together; and the connection is flagged as pipelined exactly when a request completed while an earlier response was still outstanding.",
  ["schedules", "inputs", "configurations"], "every conversation of the grammar and every interleaving of its segments",
  "The number of interleavings is binomial in the number of segments; the captures fix one each.",
  ["src/connection_parser.rs", "src/connection.rs", "src/response.rs", "src/transactions.rs"],
  [("next request / response indices", "src/connection_parser.rs (request_next, response_next)"), ("transaction ring", "src/transactions.rs")],
  "exhaustive exploration of all causally possible interleavings of segmented conversations on the real parser against the message model", EXPL,
  "Conversations of 1-3 transactions, all interleavings of message-aligned segments and of one- and two-cut byte-stream segments.")

P("C09", "CONNECT, upgrades and 100-continue are followed correctly",
  "A CONNECT request waits for its response: a refusal leaves both directions parsing the following messages as ordinary HTTP, an acceptance turns opaque traffic into a tunnel (counted but never parsed) while HTTP inside the tunnel is still followed, and a 101 response makes both directions a tunnel. A 100 Continue response never ends its transaction, and a final 4xx answer to an Expect: 100-continue request with a Content-Length, before any byte of its body, ends exactly that request (never a pipelined one behind it). A 100 or 101 that announces a body by length or chunks is an ordinary final response and makes no tunnel. All this holds for every cut and interleaving that the protocol allows.",
  ["schedules", "inputs"], "every such conversation, cut and interleaving",
  "These hand-over points couple the two state machines; tests fix one schedule per capture.",
  ["src/request.rs", "src/response.rs", "src/connection_parser.rs"],
  [("CONNECT wait and probe states", "src/request.rs (request_connect_*)"), ("tunnel and Expect handling", "src/response.rs response_body_determine")],
  "exhaustive exploration of segmentations and interleavings of hand-over conversations against a specification", EXPL,
  "Statuses x framings x following messages; all one-cut and selected two-cut segmentations in all causally possible interleavings.")

P("C10", "Callback verdicts are obeyed",
  "A callback that declines changes nothing. One that answers error or stop makes the call return exactly that state for its direction at that point: no later callback of the same event and no further callback of that direction runs until the connection is closed (for decompressed body data a stop is reported as an error; verdicts on the end-of-body mark of a compressed body and on header bytes delivered because a chunk ended inside the headers are not considered). Callbacks registered on one event run in registration order, those of the transaction before those of the configuration.",
  ["fault_sequences", "histories"], "every callback of every history, every verdict, every combination of verdicts on one event",
  "Each of the callbacks of each history is a fault point; tests exercise a few.",
  ["src/hook.rs", "src/connection_parser.rs", "src/request.rs", "src/response.rs"],
  [("hook dispatch", "src/hook.rs"), ("error propagation through the state machines", "src/connection_parser.rs handle_request_state/handle_response_state")],
  "exhaustive fault injection: every callback of every history to a depth x every verdict, compared with the fault-free run", EXPL,
  "Histories to depth 3 (quick) / 4 (thorough) over 25 actions x 3 configurations; all 4^3 resp. 4^5 verdict combinations for 18 events.")

P("C11", "Configured limits bound what is kept",
  "What a direction retains between calls never exceeds the configured field limit: an incomplete line, header, chunk length or trailer longer than the limit (and any longer request or status line) fails the stream, one within it is parsed normally. Transactions alive at once never exceed the configured maximum: a request beyond it fails the stream without disturbing the others, and with automatic destruction any number of sequential transactions is handled. Repetitions of a header beyond the allowed number are dropped while all distinct headers and earlier repetitions are kept in order.",
  ["inputs", "histories", "configurations"], "every limit, every element length around it, every segmentation, every history",
  "Memory bounds under an adversary need every accumulation path at every limit; tests use the default limit and one path.",
  ["src/config.rs", "src/request.rs", "src/response.rs", "src/transactions.rs", "src/transaction.rs"],
  [("buffer limit checks", "src/request.rs check_request_buffer_limit, src/response.rs check_response_buffer_limit"), ("max_tx", "src/transactions.rs"), ("header repetitions", "src/request.rs, src/response.rs process_*_header")],
  "exhaustive enumeration of limits x element lengths x segmentations, and of call histories under small transaction limits", EXPL,
  "Limits 48,49,64 (thorough 44-79) x lengths limit-6..limit+11 x 8 places x all two-cut segmentations; max_tx 1-3 with histories to depth 5.")

P("C12", "Compressed bodies are delivered decoded, however they are cut",
  "For every request (with request decompression on) and response whose body is encoded with gzip (any combination of optional header fields), deflate, lzma or a chain of these within the layer limits, labelled in any letter case or with x-gzip/x-deflate, framed by length, chunks or close and cut anywhere, the body callbacks deliver exactly the bytes the sender encoded, all before the message completes. The entity length is the number of those bytes and the message length the number of received ones, and the next message is parsed as usual. A zlib-wrapped deflate body, and gzip, deflate or zlib data labelled as another of the three, are covered when the first 10 bytes arrive together; with decompression off or an unknown coding the bytes are delivered as received.",
  ["inputs", "schedules", "configurations"], "every payload, encoder, label, chain, framing and every way of cutting the compressed stream",
  "Decoder state, 8192-byte output buffer and header parser must survive every cut; the tests decode a few captures, each in one cut.",
  ["src/decompressors.rs", "src/request.rs", "src/response.rs"],
  [("gzip header parser and decoder chain", "src/decompressors.rs (GzipBufWriter, InnerDecompressor)"), ("selection of decoders", "src/request.rs request_initialize_decompressors, src/response.rs response_initialize_decompressors")],
  "bounded-exhaustive enumeration of encoded bodies x framings x cuts on the real parser, against the bytes given to independent encoders", EXPL,
  "All 16 gzip header flag combinations, raw deflate, zlib, lzma; stored/fast/best; chains of 2-3; payloads 0..300 bytes in all one-cut segmentations, 3-byte windows (thorough: two cuts, windows of 5), sizes around multiples of 8192 in uniform pieces and near-edge cuts. The wall-clock decompression limit is set out of reach.")

P("C13", "Damaged or oversized compressed bodies are contained",
  "A body labelled gzip, deflate or lzma that is truncated, corrupted, followed by extra bytes or not compressed at all never fails the stream or disturbs the following message; a truncated one delivers a prefix of the payload and bytes behind the end of a gzip or deflate stream are ignored. A gzip or deflate body (or chain) that decodes to more than both the bomb limit and the bomb ratio times the received bytes makes the stream answer error; delivery never exceeds the larger of the limit and the ratio (at least 1) times the received bytes by more than one output buffer (8192 bytes, for lzma its memory limit), and a body within the bomb limit, or of at most as many bytes as the ratio, is never refused. At most the configured number of listed layers (for lzma, of lzma layers) is removed, and lzma with a memory limit of 0 is delivered undecoded.",
  ["inputs", "configurations", "schedules"], "every damaged body, payload size, limit, ratio and cut",
  "Attackers choose the compressed bytes; tests have two damaged captures and one bomb.",
  ["src/decompressors.rs", "src/request.rs", "src/response.rs"],
  [("restart and passthrough", "src/decompressors.rs InnerDecompressor"), ("bomb limits", "src/request.rs request_decompressor_callback, src/response.rs response_decompressor_callback")],
  "exhaustive enumeration of truncations, single-byte damage, arbitrary short bodies, and of payload sizes x limits x ratios on the real parser", EXPL,
  "All truncations and (thorough) all single-byte replacements of 50 streams, all bodies to length 3 (thorough 4) over 11 bytes behind 9 stream heads; 12 sizes x 7 limits x 6 ratios x 6 encodings x 5 piece sizes; 1-4 layers x limits.")

P("C14", "Bytes missing from the capture are accounted for exactly",
  "When any parts of a Content-Length body (or, in responses, of one delimited by close) are reported as gaps, the body callbacks receive a gap notice of exactly the missing length at exactly its place among the present bytes, the message ends at the right byte and the following messages are parsed as usual; a gap reaching beyond the end of the body ends there. Exactly the transaction with missing bytes is flagged for that direction, and the connection's byte counter includes them (as does the message length of a Content-Length body). A gap in a message head, chunked body or trailer, or between messages is refused with nothing consumed or reported, and apart from the flag the message continues as if the gap had not been submitted; a gap before the first request fails the request stream.",
  ["histories", "schedules"], "every placement, size and number of gaps and every cut of the present bytes",
  "A body of n bytes has 2*3^(n-1) patterns of present and missing pieces; the tests have one gap per direction.",
  ["src/request.rs", "src/response.rs", "src/connection_parser.rs"],
  [("gap branches of the body states", "src/request.rs request_body_identity, src/response.rs response_body_identity_*"), ("gap admission", "src/request.rs request_data, src/response.rs response_data")],
  "exhaustive enumeration of gap patterns on the real parser against the message model and against the run without the gap", EXPL,
  "Bodies of 1-6 (thorough 7) bytes in all 2*3^(n-1) patterns x gluing x overrun 0-3; a gap at every other byte of 40 conversations, pairs of gaps; each message begins in a chunk of its own for the refused gaps.")

P("C15", "Request targets are taken apart at their delimiters, losing nothing",
  "For every request target the raw URI holds exactly the scheme, credentials, host, port, path, query and fragment that its delimiters mark (credentials only inside the authority, a bracketed address as one host, query up to the first '#'), byte for byte; a target starting with '/' has no scheme or authority, and the target of CONNECT is host and port. In the normalized URI the scheme and host are lowercase, the host loses trailing dots, components are percent-decoded, the port number is the decimal value 1-65535 or none, and the partial and complete normalized URIs are these components joined by their delimiters. The flag HOSTU_INVALID is set exactly for an authority with an invalid host name or port, and invalid encodings, encoded NULs and raw NULs in credentials, host and fragment are flagged as those in the path are. (Unspecified: an empty host, text behind a bracketed address, 'scheme:text' without slashes.)",
  ["inputs", "configurations"], "every request target",
  "The grammar is recursive in its delimiters: any of them can occur in any component; the tests have some forty URIs.",
  ["src/parsers.rs", "src/uri.rs", "src/transaction.rs", "src/util.rs"],
  [("component parsers", "src/parsers.rs scheme, credentials, hostname, port, path, query, fragment"), ("assembly and normalization", "src/uri.rs, src/transaction.rs normalize_parsed_uri"), ("host validation", "src/util.rs validate_hostname, convert_port")],
  "exhaustive enumeration of targets on the real parser against an independent RFC 3986 splitter", EXPL,
  "Product of 3 schemes x 7 userinfos x 12 hosts x 10 ports x 192 tails; all strings to length 6 (thorough 7) over ten delimiter characters behind '', '/' and 'http://'; 190 CONNECT targets; 11 encodings in each component x 5 configurations.")

P("C16", "Paths are decoded as configured, and every evasion is flagged",
  "For every path and every combination of decoder settings (backslash and case conversion, separator compression and decoding, NUL termination, %u decoding, UTF-8 best fit, the three treatments of invalid encodings, the replacement byte) the normalized path is what those settings prescribe, with dot segments removed. The flags for encoded NUL, invalid encoding, overlong and half/full-width %u, encoded separator and valid, invalid and overlong UTF-8 are set exactly when the path contains them. When a construct with a configured unwanted reaction occurs the expected response status is one of the configured reactions, whatever follows it in the path; otherwise it stays unset. A server personality is a preset of these settings and leaves the others as they were. (Unspecified: truncated UTF-8 at the end; whether a final dot segment leaves its slash.)",
  ["inputs", "configurations"], "every path under every decoder configuration",
  "Evasions combine encodings, and 8 switches, 3 treatments and 7 reactions multiply; the tests fix one setting at a time.",
  ["src/urlencoded.rs", "src/utf8_decoder.rs", "src/uri.rs", "src/unicode_bestfit_map.rs", "src/config.rs"],
  [("path decoder", "src/urlencoded.rs path_decode_uri*"), ("UTF-8 stage", "src/utf8_decoder.rs decode_and_validate_inplace"), ("dot segments", "src/uri.rs normalized_path, normalize_uri_path_inplace")],
  "exhaustive enumeration of token sequences x decoder configurations on the real parser against an independent decoder", EXPL,
  "34 tokens in sequences to 3 x 151 configurations (thorough: all 768, 2 tokens, and 3 for the 151); all strings to 6 (8) over 7 characters x 4 configurations, to 10 (13) over '/.a'; all 65536 %u codes; all UTF-8 sequences of 2 and 3 bytes, boundary ones of 4; every pair of bytes, raw and encoded, x 3 configurations; the server personalities over two base configurations.")

P("C17", "Query parameters are those of the query string, in order, however divided",
  "For every urlencoded string and every decoder configuration the parameters are the ampersand-separated pieces in order, each split at its first '=' and decoded as configured (plus to space, percent and %u encodings, NUL handling, the three treatments of invalid encodings); the URLEN_ flags and the expected status are set exactly when the string has the constructs they stand for. With another argument separator, or with decoding switched off, the parser does just that. The result is the same when the string is parsed whole or in any division into parts, and the parameters of a request's query are exactly these.",
  ["inputs", "configurations", "schedules"], "every form string, configuration and division",
  "The streaming parser carries half a parameter from part to part; the tests divide one string once.",
  ["src/urlencoded.rs", "src/transaction.rs"],
  [("streaming parser", "src/urlencoded.rs Parser"), ("decoder", "src/urlencoded.rs decode_uri"), ("query of a request", "src/transaction.rs process_request_headers")],
  "exhaustive enumeration of strings x divisions x configurations on the real parser against an independent decoder", EXPL,
  "All strings to length 6 (thorough 7) over 'a=&%41+' in all divisions; to 9 (11) over 'b=&'; 24 tokens in sequences to 3 (4) x 96 configurations, whole and in two parts; every pair of bytes behind '%' and all 65536 %u codes; four other separator and decoding settings over strings to 6 (7) of 'a=&;%41'.")

P("C18", "Start lines are read the same way whatever their spelling",
  "The first line of a request, after any number of empty lines (counted as ignored), is split into method (to the first white space, leading white space skipped unless configured as unwanted), target (to the next blank, or with allow_space_uri to the last one) and protocol (the rest); the method number is that of the exact known name, otherwise unknown; without a protocol the request is 0.9. Case, padding blanks and leading zeros in the version do not matter, and every other protocol is invalid; APACHE_2 ends the line at a NUL. A status line is split into protocol, status (100-999, otherwise invalid) and message (the rest), and STATUS_LINE_INVALID is set exactly if the protocol or status is; behind an interim response the line is read afresh. A line that does not begin like a status line is ignored if one follows at once.",
  ["inputs", "configurations", "schedules"], "every request and status line",
  "Lines that are almost right are how messages are smuggled past a parser; tests hold one spelling each.",
  ["src/request.rs", "src/response.rs", "src/parsers.rs"],
  [("request line", "src/request.rs parse_request_line"), ("status line", "src/response.rs parse_response_line"), ("protocol and status", "src/parsers.rs parse_protocol, parse_status")],
  "exhaustive enumeration of token sequences and spellings on the real parser against an independent tokenizer", EXPL,
  "10 request tokens in sequences to 6 (thorough 7), 5 (6) under three other configurations and LF; 38 methods x 27 protocols x 49 separators x 6; 11 status tokens to 6 (7); statuses 90-1010; whole or bytewise.")

P("C19", "Header fields become exactly the table that the lines describe",
  "Every sequence of header lines, in a request or response header or trailer and with CRLF or LF, yields a table with one entry per distinct field name (compared without case) in order of first appearance, named as first spelled; its value is the trimmed value, continuation lines joined, and values of repeated fields joined by ', '. A line without a colon becomes the value of a nameless field flagged FIELD_UNPARSEABLE (also on the transaction), a name that is empty, not a token or followed by white space is FIELD_INVALID (likewise), folded and repeated fields are FIELD_FOLDED and FIELD_REPEATED; white space in front of the first name sets INVALID_FOLDING on field and transaction; no other field carries these flags, and the next message starts where the empty line ends.",
  ["inputs", "histories"], "every sequence of header lines",
  "Fields interact: repetition, folding and malformed lines change how their neighbours are read; tests have one oddity per message.",
  ["src/headers.rs", "src/request.rs", "src/response.rs", "src/table.rs"],
  [("header parser", "src/headers.rs Parser"), ("table update", "src/request.rs process_request_header, src/response.rs process_response_header")],
  "exhaustive enumeration of header line sequences in four places on the real parser against the meaning of each line", EXPL,
  "31 (thorough 34) kinds of line in sequences to 4 (5) x 4 places; to 3 with CRLF or LF, to 2 whole and bytewise and with line endings chosen per line.")

P("C20", "Conflicting framing is resolved by fixed rules and always flagged",
  "For every combination of Transfer-Encoding and Content-Length fields (absent, repeated, invalid, overflowing, folded, in any order and letter case): Transfer-Encoding: chunked decides if present, otherwise the first Content-Length (its first run of digits); a request with both, with more than one or a folded Content-Length, or with chunked before HTTP/1.1, and a response with both or more than one Content-Length, is flagged REQUEST_SMUGGLING and no other message is. A request with a transfer encoding other than chunked or with a first Content-Length without digits or beyond 64 bits is flagged REQUEST_INVALID with REQUEST_INVALID_T_E or _C_L and fails the stream, as does a response with such a Content-Length; chunked before 1.1 is REQUEST_INVALID_T_E too. Otherwise the body has the prescribed bytes and the next message starts right behind it; responses to HEAD, and 204 and 304 without framing fields, have no body, and a response without framing lasts until the close.",
  ["inputs"], "every combination of framing fields",
  "Request smuggling lives in exactly these combinations (tens of thousands); tests cover about a dozen.",
  ["src/transaction.rs", "src/request.rs", "src/response.rs", "src/util.rs"],
  [("request framing", "src/transaction.rs process_request_headers"), ("response framing", "src/response.rs response_body_determine")],
  "exhaustive enumeration of framing field combinations on the real parser against the framing rules", EXPL,
  "133 Transfer-Encoding lists (11 values, to 2) x 307 Content-Length lists (17 values, to 2) x order x 3 versions x 2 line endings as requests, and (quick: one list of length 2) x 3 statuses x 2 methods x multipart as responses.")

P("C21", "Host, credentials and content type are those of the request's headers",
  "The request's host and port are those of the target's authority, or else of the Host field (lowercase; port only if valid); HOST_MISSING is set exactly for an HTTP/1.1 request without Host field, HOST_AMBIGUOUS exactly if Host contradicts the target in host or port, HOSTH_INVALID exactly if the Host field's host or port is invalid. Basic credentials decode to the user and password around the first colon, Digest ones to the quoted username with escapes removed, Bearer ones to the token, and AUTH_INVALID is set exactly if a Basic or Digest field cannot be read so; with auth parsing off nothing is reported. The content type is the lowercase value up to its first delimiter, and no value of an interpreted header field (content type, host, authorization, content encoding, expect, connection) fails the stream or disturbs the following message.",
  ["inputs", "configurations"], "every Host, Authorization and Content-Type value",
  "Identity and routing decisions rest on these fields, whose syntax an attacker controls; tests have a few of each.",
  ["src/transaction.rs", "src/parsers.rs", "src/util.rs"],
  [("host resolution", "src/transaction.rs process_request_headers"), ("credentials", "src/parsers.rs parse_authorization"), ("content type", "src/parsers.rs parse_content_type")],
  "exhaustive enumeration of header values on the real parser against an independent reading", EXPL,
  "10 targets x 1407 Host lists x 2 versions; Basic over all strings to 6 (thorough 7) of 7 bytes x 3 spellings; 13 tokens to 5 (6), Digest user names of 7 tokens to 6 (7); 9 field names x all values to 4 (5) of 15 bytes in both directions.")

P("C22", "Every anomaly is logged once, with its code, and the level only filters",
  "For every request line, header list and listed misuse of the parser, the connection's log holds exactly one entry per anomaly met, with the code and level that belong to it, and nothing for clean traffic: request lines with leading white space, non-compliant or NUL-terminated separators, unknown method, invalid protocol; header fields without colon, with an empty, non-token or blank-padded name (each once per transaction), invalid folding, repetition (at the second occurrence of a name); gaps where they cannot be absorbed, data after an error or stop, opening twice, empty chunks, lines over the limit; framing that is ambiguous or out of place (differing or invalid repeated lengths, lengths with extra data; in responses also chunked before HTTP/1.1 or beside other codings, an invalid length, bodies where none belongs, a 101 with one, unframed byte ranges) and listed content codings that are unknown, oddly written or too many. Log levels only filter: at every level exactly the entries at or above that severity are kept, and the transactions are the same. Both accessors give the same entries in order, each carrying the connection's ports.",
  ["inputs", "configurations", "histories"], "every anomaly under every log level",
  "Users act on the log; which entries appear depends on combinations of anomalies and levels, where tests look at one message each.",
  ["src/log.rs", "src/request.rs", "src/response.rs", "src/headers.rs", "src/connection.rs"],
  [("log entries", "src/log.rs Logger::log, htp_log!"), ("delivery", "src/connection.rs get_logs, get_next_log"), ("request anomalies", "src/request.rs parse_request_line, process_request_header")],
  "exhaustive enumeration of anomalous inputs x log levels on the real parser against the list of anomalies", EXPL,
  "10 request line tokens in sequences to 5 (thorough 6) x allow_space_uri; 14 field kinds to 4 (5) per direction and combinations of both; all combinations of version x status x Transfer-Encoding x Content-Length x Content-Type for both directions; lists of content codings x layer limits; 22 exchanges in every two-part division x 7 levels x 2 accessors; 22 scripts of misuse x 7 levels.")

P("C23", "The C functions are the same parser as the Rust interface",
  "For every history of calls, configuration and callback answer, the C functions behave as the Rust interface does: the same stream states, consumed and byte counts and number of transactions after every call, the same callbacks in the same order with the same data and transaction (and the parser they were registered for), the same effect of every status a callback returns and of every configuration setter, the same logged messages, and every getter for transactions, URIs, headers (by index and by name) returns the field it is named after, with NULL or -1 where there is none. User data is returned as last stored; a parser keeps its own copy of the configuration; addresses, ports and times are taken over exactly when valid. Functions documented to accept NULL do so and return their documented error value; string functions compare, copy and escape NULs exactly.",
  ["histories", "configurations", "inputs"], "every C caller",
  "The library's users are C programs, but the tests exercise the Rust side; the hundred and fifty C wrappers are mostly unvisited.",
  ["src/c_api/mod.rs", "src/c_api/transaction.rs", "src/c_api/connection_parser.rs", "src/c_api/config.rs", "src/c_api/header.rs", "src/c_api/bstr.rs", "src/c_api/uri.rs", "src/c_api/log.rs", "src/hook.rs"],
  [("C functions", "src/c_api/*.rs"), ("external callbacks", "src/hook.rs run_all"), ("gaps from C", "src/connection_parser.rs From<(*const u8, usize)>")],
  "exhaustive enumeration of call histories, settings and callback answers through both interfaces, compared step by step", EXPL,
  "36 calls in histories to 3 (thorough 4) x 5 configurations; 19 exchanges x all pairs of 71 settings; every callback of every exchange x 6 answers x one or two callbacks per hook x 5 configurations; 105 functions with NULL; 6561 addresses/ports, 70 times; all pairs of strings to 3 (4) of 8 bytes.")

P("C24", "Byte string comparison, search and header lookup mean what they say",
  "For every pair of byte strings: comparing gives the lexicographic order of the bytes, with ASCII letters folded in the nocase forms (and no other bytes), with the NULs of the left string left out in the nozero forms, and with surrounding blanks of the left string left out in the trimmed forms; equality is exactly that order being equal; starts_with, index_of and its nocase and nozero forms give the first place where the other string occurs (as a place in the unmodified string), split gives the pieces between occurrences, add appends, add_noex appends what fits without growing. Tables and header tables keep the order of insertion under every access and iteration, and a lookup by name returns the first entry whose trimmed name is equal in that sense (ignoring NULs in the nozero forms), or nothing.",
  ["inputs"], "every pair of strings, every table",
  "These functions decide which header is Host, Content-Length or Transfer-Encoding; tests compare a dozen hand-picked strings.",
  ["src/bstr.rs", "src/table.rs", "src/transaction.rs"],
  [("comparison and search", "src/bstr.rs cmp_*, index_of*, LowercaseIterator, LowercaseNoZeroIterator"), ("tables", "src/table.rs get_nocase"), ("headers", "src/transaction.rs Headers::get_nocase_nozero")],
  "exhaustive enumeration of string pairs and small tables on the real functions against a naive reference", EXPL,
  "all pairs of bytes; all pairs of strings to 4 (thorough 5) of 6 characters; haystacks to 8 (10) of 4 characters x all needles to 3 (6); tables to 4 (5) entries of 16 keys x 14 lookups.")

P("C25", "Chunked framing of arbitrary bytes follows one grammar, however it is cut",
  "For every byte string that follows the head of a chunked message, and for every way of cutting it into calls: a size line ends at LF and is read as an optional run of white space, hexadecimal digits of either case with any number of leading zeros, and anything; that many bytes of body follow, then anything up to the next LF; size zero leads to the trailer, after which the next message starts. Body data, entity and message length, progress and the number of chunk extensions logged are those of this reading. A size line without digits (once that is certain) or, in a request, of 2^31 or more, or of only white space other than a lone LF, fails a request with an error that no later data undoes; a response (where lines of only white space are skipped) falls back to an identity body that begins with that very line and lasts until close. Either is logged once as an invalid chunk length.",
  ["inputs", "segmentation"], "every chunked body",
  "Chunk framing is where request smuggling lives; the tests use well-formed chunks and a handful of broken ones in fixed cuts.",
  ["src/request.rs", "src/response.rs", "src/parsers.rs", "src/util.rs"],
  [("size lines", "src/request.rs request_body_chunked_length, src/response.rs response_body_chunked_length, src/parsers.rs parse_chunked_length"), ("data", "request_body_chunked_data, response_body_chunked_data, *_data_end"), ("partial lines", "src/util.rs is_valid_chunked_length_data, is_chunked_ctl_line")],
  "exhaustive enumeration of body byte strings and their cuts on the real parser against a reference machine", EXPL,
  "all byte strings to 6 (thorough 8) of 8 bytes in both directions in all one- and two-cut divisions and byte by byte; 40 size spellings x 4 line ends x 5 data x 6 endings, alone and followed by a second and third chunk. Response sizes from 2^31 to 2^64 are left out.")

P("C26", "Closing at any point finishes what arrived and invents nothing",
  "Whatever prefix of a well-formed conversation has arrived, and however it was cut: closing makes complete a request cut inside its start line, head or trailer, and a response cut inside its status line (at least four bytes of it), head, trailer, Content-Length body or close-delimited body; a message cut inside a chunked body, a request cut inside its Content-Length body and a response of which only a 100 arrived stay incomplete. An unfinished start line is read as if it were the whole line; header lines whose end has arrived are in the table and an unfinished one is not; every body byte that arrived is delivered exactly once. Completion callbacks run exactly once per completed message and transaction; with flush_incomplete every other started transaction gets its transaction-complete callback once, as its last callback, and with auto-destroy all transactions so ended are removed. Byte counters do not change. Closing only the request direction does not affect the responses that still come.",
  ["inputs", "crash points", "segmentation"], "every prefix of every well-formed conversation; beginnings shorter than a method or than 'HTTP', and cuts inside a line end, are left open",
  "Connections end anywhere; the tests close only between messages or in a handful of places.",
  ["src/connection_parser.rs", "src/request.rs", "src/response.rs", "src/transaction.rs"],
  [("closing", "src/connection_parser.rs close, request_close, flush_incomplete_transactions"), ("unfinished lines", "src/request.rs request_idle, request_line; src/response.rs response_idle, response_line, response_headers"), ("unfinished bodies", "request_body_*, response_body_*")],
  "exhaustive enumeration of truncation points of all conversations of the message grammar on the real parser against an independent reader of the prefix", EXPL,
  "every byte of either stream of all (quick: every second) conversations of the specification grammar x 2 x 2 configurations x 3 segmentations x closing the request direction first or not.")

P("C27", "HTTP/0.9 exchanges: one short line, then only a body",
  "A request line without protocol that ends its chunk, or is followed there by nothing but white space (up to 16 bytes), is an HTTP/0.9 request: it is complete at once, has no headers, and all request data that follows is consumed and ignored, starts no transaction, and sets the HTTP_0_9_EXTRA flag exactly if some came in a later call. Everything the server then sends is the body, byte for byte until close, whatever it looks like: no status line, no response headers or trailers, and the response ends when the connection does. If anything else follows in the same chunk, it is a request without protocol, which is logged once, has headers, and is answered and followed like any other.",
  ["inputs", "segmentation", "interleavings"], "every HTTP/0.9 exchange",
  "One test covers HTTP/0.9; confusion between 0.9 and 1.x is an evasion technique.",
  ["src/request.rs", "src/response.rs", "src/transaction.rs"],
  [("recognition", "src/request.rs request_protocol"), ("ignored data", "src/request.rs request_ignore_data_after_http_0_9"), ("body", "src/transaction.rs state_response_start, src/response.rs response_body_identity_stream_close")],
  "exhaustive enumeration of request lines, followers and response data in all cuts on the real parser against a reference", EXPL,
  "9 request lines x 2 line ends x 23 followers in the same chunk x every cut of the line x 5 lists of later request data x responses of up to 3 (thorough 4) of 9 tokens, whole and in tokens.")

P("C28", "A response without a request gets a transaction of its own",
  "A response that starts while the request parser is idle on that transaction gets a placeholder: method absent, target and path '/libhtp::request_uri_not_seen', no request callbacks, logged exactly once; its status, headers and body are reported as for any response. Requests that come later take the transactions behind it, and their responses are matched from there in order. If the request parser is still busy with an earlier request, no placeholder is made: the transaction is filled by its request when it comes. Every transaction is complete (once) when both sides are done, with and without automatic destruction, whatever the interleaving of requests and responses.",
  ["inputs", "interleavings", "segmentation"], "every interleaving of requests and responses",
  "Mid-stream pick-up and packet loss make servers speak first; the tests have two such histories.",
  ["src/response.rs", "src/connection_parser.rs", "src/transaction.rs"],
  [("placeholder", "src/response.rs response_idle"), ("matching", "src/connection_parser.rs response, response_next, request_next")],
  "exhaustive enumeration of sequences of whole and halved requests and responses on the real parser against a reference machine", EXPL,
  "all sequences to 9 (thorough 11) steps of whole, first-half and second-half requests and responses, with and without automatic destruction.")

P("C29", "Parsers do not influence one another",
  "For any number of parsers with their own configurations, used alternately in one process, and for every interleaving of the calls made on them (data, gaps, closing, dropping one and creating another in its place): the answers, callbacks, transactions, counters and logs of each connection are those of the same calls on that connection alone.",
  ["interleavings", "configuration"], "every interleaving of calls on several connections",
  "An IDS runs thousands of parsers; the tests run one at a time, so state shared between them (statics, thread locals, shared configuration) cannot show.",
  ["src/connection_parser.rs", "src/config.rs", "src/decompressors.rs", "src/transactions.rs", "src/log.rs"],
  [("parser state", "src/connection_parser.rs ConnectionParser"), ("decoder state", "src/decompressors.rs"), ("log", "src/connection.rs, src/log.rs")],
  "exhaustive exploration of the interleavings of the calls of two and three live parsers, each compared with itself alone", EXPL,
  "each alone in a process of its own; all interleavings of every pair of 13 scripts of 4 to 6 calls, and of the first 2 (thorough 3) calls of every three of them.")

P("C30", "A complete transaction can be removed without disturbing the others",
  "A user may remove a transaction (remove_tx, htp_tx_destroy) between any two calls once it is complete: all later callbacks, log records, stream states, counters, transaction indices and the transaction count are the same as if it had been kept, the other transactions keep their index, contents and user data, and the removed one never comes back. Only transactions that are kept count against the transaction limit, so a connection whose complete transactions are removed goes on for ever. Removing an index that is not there does nothing, and removing one that is not complete never panics and leaves the complete ones and all earlier callbacks as they were. User data of the connection and of each transaction stays what the user set.",
  ["histories", "schedules"], "every dialogue, interleaving and moment of removal",
  "Transactions are kept in a table that both directions index into; tests never remove one in the middle of a dialogue.",
  ["src/transactions.rs", "src/connection_parser.rs", "src/transaction.rs"],
  [("removal", "src/connection_parser.rs remove_tx"), ("table", "src/transactions.rs Transactions")],
  "exhaustive enumeration of interleavings x removal times on the real parser, step by step against the run without removal", EXPL,
  "Six kinds of exchange: all pairs (two segments per message, every stop), all triples and 36 (thorough 216) dialogues of four, under every interleaving x removal 0, 1, 2 steps after completion or never for each transaction x flush_incomplete; removal of any transaction at any step; 24 dialogues of eight under limits 2 to 5.")

P("C31", "The connection records who, when and how much",
  "For every sequence of calls: the addresses and ports are those of the first opening, which is accepted only on an unused connection; opening again is logged as CONNECTION_ALREADY_OPEN and changes nothing. The open and close times are those given when opening and closing, the request and response times those of the last accepted call with a time in that direction (closing counts as one). The data counters are the bytes, gaps included, of all calls except those on a direction that has failed or stopped. An empty call is refused while the direction is not closed. User data is what was last set, and is returned only as its own type. Every log record carries the addresses of the connection and is handed out once. Two connections are equal exactly when addresses and ports are.",
  ["histories", "inputs"], "every sequence of API calls",
  "State lives across calls of six kinds; tests open once, never pass a time, and never look at the records after an error.",
  ["src/connection.rs", "src/connection_parser.rs", "src/request.rs", "src/response.rs", "src/log.rs"],
  [("connection", "src/connection.rs Connection"), ("call prologue", "src/request.rs request_data, src/response.rs response_data"), ("opening and closing", "src/connection_parser.rs open, close, request_close")],
  "exhaustive exploration of all operation sequences up to a depth on the real parser against an explicit-state model of eight variables", EXPL,
  "All sequences of up to 4 (thorough 5) out of 34 operations.")

P("C32", "Memory is given back, and does not grow with what passes through",
  "After any sequence of calls, in any state of either direction, destroying the parser (and, through the C functions, the configuration, log records and strings handed out) frees everything it allocated. Removing a complete transaction, by hand or automatically, frees what it held: a connection that carries one exchange after another, its logs drained, holds no more after many than after a few, and so does one that carries an endless body of any framing or coding, tunnelled data, data behind a failure, gaps, empty lines or repetitions of one field. A line that does not end makes the parser hold at most a fixed multiple of the field limit (plus a constant).",
  ["histories", "inputs", "configurations"], "every history of calls and every kind of endless stream",
  "Growth shows only in the difference between long runs; tests end after one capture and never measure.",
  ["src/connection_parser.rs", "src/transactions.rs", "src/request.rs", "src/response.rs", "src/decompressors.rs", "src/c_api/"],
  [("transactions", "src/transactions.rs remove, check_free"), ("buffers", "src/request.rs request_buf, src/response.rs response_buf"), ("decoders", "src/decompressors.rs"), ("C functions", "src/c_api/ htp_connp_destroy_all, htp_config_destroy, htp_log_free, htp_tx_destroy")],
  "exhaustive exploration of all call sequences up to a depth, and of every kind of stream to 400 rounds, on the real parser under a counting allocator", EXPL,
  "45 calls: all sequences up to 3 under three configurations and up to 2 under three more (thorough 4 and 3), through C up to 2; destroyed behind every prefix of ~90 messages; ~45 streams x 6 configurations x 400 rounds; 12 endless lines x 3 limits x 3 piece sizes")

COST = {}
