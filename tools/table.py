NOT_APPLICABLE = []
CONV = 'The oracle sees only what the generated conversations produce: 1 to 12 well-formed exchanges, all transfer codings, bodies up to 60 kB, segmentations from one call per message to one call per byte, requests and responses interleaved as the API allows.'
prop('C03', 'Segmentation independence',
 'For every well-formed conversation, what the parser reports about every transaction - request and status line, URI, headers, bodies, raw header and trailer data, lengths, flags except the one that records that a head spanned segments, the set of log codes, and the order of the callbacks of each side - depends only on the bytes exchanged. It does not depend on how each byte stream was cut into data calls or on how the calls of the two directions were interleaved.',
 ['inputs', 'schedules'], 'every well-formed conversation, every segmentation of both streams and every admissible interleaving',
 'The test captures replay one recorded segmentation each; a segmentation bug needs one particular cut inside a particular message.',
 [REQ, RES, CP], [('request/response state machines with carry-over buffers', REQ + ' request_line, request_headers, request_body_chunked_length; ' + RES + ' response_line, response_headers, response_body_chunked_length'), ('buffering of incomplete lines', CP + ' request_buf, response_buf, request_header, response_header')],
 ['all callbacks', 'transaction snapshot at completion', 'log queue'],
 'runtime monitoring: differential trace comparison between segmentations of generated conversations',
 'Exploration: ' + CONV)
prop('C04', 'Body delivery fidelity',
 'For every well-formed message, the bytes handed to the body callbacks, concatenated, are exactly the entity that was sent, whether it was framed by Content-Length, by chunks (with extensions and trailers) or by connection close, and a message without a body delivers none. The reported entity length, message length, content length and transfer coding agree with what was on the wire. When a chunk length line of a response is broken, all from that line on up to the close is body data as it is, and the lengths count each byte once.',
 ['inputs', 'schedules'], 'every body, framing, position in a pipelined connection and segmentation',
 'The tests hold a few dozen fixed messages; losing, duplicating or misattributing a byte depends on sizes and cuts they do not contain.',
 [REQ, RES, TXN], [('body states', REQ + ' request_body_identity, request_body_chunked_*; ' + RES + ' response_body_*'), ('length accounting', TXN + ' request_message_len, request_entity_len, response_*')],
 ['request/response body data callbacks', 'transaction length fields'],
 'runtime monitoring: conservation monitor over body callbacks against generator ground truth',
 'Exploration: ' + CONV)
prop('C05', 'Decompression fidelity',
 'A message body carried with the gzip, deflate (raw or zlib-wrapped) or lzma content coding, or with a stack of codings within the configured limits, is delivered to the body callbacks as exactly the original content when decompression is enabled for that direction, however the stream is cut into data calls and whatever optional gzip header fields it carries. When decompression is disabled, or the coding is unknown, the coded bytes are delivered unchanged. Other messages of the connection, whatever their coding and also when their streams break off, do not matter. The transaction reports the coding that a Content-Encoding field naming one coding names.',
 ['inputs', 'schedules', 'configurations'], 'every content, coding stack within limits, transfer framing and segmentation',
 'The tests decompress a handful of fixed files, mostly in one piece.',
 ['src/decompressors.rs', RES, REQ], [('decompressor chain and restart', 'src/decompressors.rs'), ('selection of codings', RES + ' response_initialize_decompressors; ' + REQ + ' request_initialize_decompressors')],
 ['body data callbacks'],
 'runtime monitoring: round-trip conservation monitor over body callbacks',
 'Exploration: contents up to a few hundred kB compressed with flate2/lzma-rs/own gzip framing at all levels; the time limit is set out of reach because it depends on the wall clock.')
prop('C06', 'Decompression limits',
 'The amount of decompressed data delivered for one message is bounded by the configured bomb limit and ratio: a message is stopped with an error once its output exceeds both, and is never stopped before it exceeds both. Once decompressing a message has taken longer than the time limit (waiting for data does not count), from the next data call on at the latest its bytes are delivered undecoded, and this is logged. The number of decompression layers applied to a message is bounded by the configured layer limits, and deeper stacks are still delivered, undecoded, rather than lost; within the limits, of which the one for lzma counts only lzma layers, every layer is decoded.',
 ['inputs', 'configurations', 'schedules'], 'every compressed message, bomb limit, layer limit and segmentation',
 'The tests contain one bomb at the default limits.',
 ['src/decompressors.rs', RES, REQ], [('bomb check', RES + ' / ' + REQ + ' body data callbacks'), ('layer limits', 'src/decompressors.rs Options; ' + RES + ' response_initialize_decompressors')],
 ['body data callbacks', 'return status of the data calls'],
 'runtime monitoring: resource-bound monitor on delivered bytes versus wire bytes',
 'Exploration: bomb limits from 0 to 3 MB and ratios from 0 up, the defaults, layer limits 0 to 4; a slow callback exceeds the time limit.')
prop('C07', 'Request/response pairing',
 'On every connection, however requests are pipelined ahead of responses, the n-th final response is attached to the n-th request, transactions complete in the order of their requests, and interim 100 responses are attached to the transaction whose final response follows, without shifting the pairing; their headers are not headers of the final response, and each one after the first is logged. A 100 response that announces a body with its Content-Length is not interim but the final response. A request with Expect: 100-continue, in any case of the letters, that announces a body and is answered with 4xx before any of the body was sent ends there: what the client sends next is the next request; any other request answered early goes on with its body. A connection is flagged as pipelined if and only if a request was complete before the response to the one preceding it was.',
 ['inputs', 'schedules', 'histories'], 'every conversation and interleaving of its two byte streams',
 'Only a few recorded captures are pipelined, each with one interleaving.',
 [CP, RES, 'src/transactions.rs'], [('request/response indices', 'src/transactions.rs'), ('interim handling', RES + ' response_body_determine')],
 ['transaction complete callback', 'transaction index, URI, response headers'],
 'runtime monitoring: online pairing monitor with uniquely tagged messages',
 'Exploration: up to 12 exchanges per connection, each request and response carrying a unique tag.')
prop('C08', 'Transaction lifecycle and callback order',
 'For each transaction of a well-formed conversation every stage callback (start, line, headers, trailer, complete) is delivered exactly once per side and in protocol order, body data only between headers and complete, request and response progress never goes back, and the transaction complete callback comes exactly once, after both sides completed, with nothing after it. Only an interim response repeats the response line callback. Also when the conversation is not well-formed, callbacks fail or data is missing, as long as no response precedes its request, no start, headers, trailer or complete callback is repeated, none precedes the start of its side, and none follows transaction complete.',
 ['inputs', 'schedules', 'histories'], 'every conversation, segmentation and interleaving',
 'The tests look at final transaction state, not at the sequence of callbacks.',
 [CP, REQ, RES, TXN], [('state_request_*/state_response_* transitions', CP), ('progress', TXN + ' request_progress, response_progress')],
 ['all 18 callbacks'],
 'runtime monitoring: online callback automaton per transaction',
 'Exploration: ' + CONV)
prop('C09', 'Raw header and trailer data',
 'For every well-formed message the raw header data callbacks deliver, concatenated, exactly the bytes between the first line and the end of the empty line that ends the header block, and the raw trailer data callbacks exactly the trailer block of a chunked message. Nothing is delivered twice, dropped, or taken from the body.',
 ['inputs', 'schedules'], 'every message and segmentation',
 'Existing tests compare raw header data for two fixed inputs.',
 [REQ, RES, CP], [('data receivers', CP + ' request_receiver_*, response_receiver_*')],
 ['request/response header data and trailer data callbacks'],
 'runtime monitoring: conservation monitor over raw data callbacks',
 'Exploration: ' + CONV)
prop('C10', 'Header table fidelity',
 'For every well-formed message the header table holds one entry per distinct name (compared without case) in order of first appearance, with the value on the wire stripped of surrounding whitespace and folded lines joined, repeated fields merged with ", " and marked as repeated (a repeated Content-Length keeps its first value; after 64 fields repeated more than once, counted over all names of the message, further such repetitions are dropped), and trailer fields added by the same rules. Well-formed fields carry no anomaly flag.',
 ['inputs', 'schedules'], 'every list of header fields and trailers and every segmentation',
 'Tests hold a few fixed header blocks.',
 [REQ, RES, 'src/headers.rs', 'src/table.rs'], [('header parser', 'src/headers.rs'), ('merging', REQ + ' process_request_header; ' + RES + ' process_response_header')],
 ['transaction header tables at completion'],
 'runtime monitoring: header tables checked against the generator',
 'Exploration: ' + CONV)
prop('C24', 'Byte counters',
 'After every data call the per-connection byte counter of that direction equals the total number of bytes (missing bytes of a gap included) offered in the calls of that direction so far, up to and including the call that stopped or failed that direction.',
 ['inputs', 'schedules'], 'every history of data calls',
 'Not asserted by the tests over histories.',
 ['src/connection.rs', REQ, RES], [('track_inbound_data, track_outbound_data', 'src/connection.rs')],
 ['connection counters'],
 'runtime monitoring: counter invariant after every call',
 'Exploration: ' + CONV)
prop('C25', 'Reporting of anomalies',
 'Every departure from HTTP of a kind the library knows is reported with its log code and level and marks the transaction (and the header field) with its flag, and nothing else is reported: in a request, white space before the method, delimiters other than a space, a protocol with extra data, an unknown method together with an invalid protocol, a missing protocol with headers or with an unknown method, a line that is still incomplete when its answer begins, a body nothing announces; in both directions header lines without a colon, with an empty name, with a name that is not a token, with white space before the colon or before the name, folded and repeated fields, Content-Length repeated, contradictory, with junk, invalid, or next to Transfer-Encoding, chunk extensions and invalid chunk lengths, abnormal content codings and too many layers; in a response, an invalid protocol or status, an abnormal or outdated transfer coding, a deformed end of line, a second 100, a body in 101, 1xx, 204, 304, multipart/byteranges without a length; and calls out of order. Kinds documented as once per transaction are reported once per transaction, the others once per occurrence. A conversation without such a departure produces no message but the notes on repeated fields, chunk extensions and interim responses, and sets none of these flags. Segmentation and pipelining do not matter.',
 ['inputs', 'schedules'], 'every conversation made of well-formed messages with any number of the listed departures, in any segmentation',
 'The tests look at single anomalies in single transactions; an evasion consists in an anomaly that goes unreported in combination, in a later transaction or in another segmentation.',
 [REQ, RES, 'src/transaction.rs', 'src/headers.rs', 'src/parsers.rs', 'src/log.rs', 'src/connection_parser.rs'], [('warnings', REQ + ' and ' + RES + ' htp_warn!, htp_warn_once!, htp_error!'), ('header anomalies', 'src/headers.rs, process_request_headers, process_response_headers'), ('framing anomalies', 'src/transaction.rs process_request_headers, ' + RES + ' response_body_determine')],
 ['log messages with code and level', 'transaction flags', 'header field flags'],
 'runtime monitoring: log and flags of executions checked against the list of departures planted in the input',
 'Exploration: 1 to 3 exchanges per connection with 0 to ~8 departures each, well-formed conversations of the C03 generator, histories of calls out of order.')
prop('C11', 'First lines',
 'For every request line and status line, the method, request URI, protocol, status and reason phrase reported are the parts of the line the bytes delimit: leading white space is skipped (or, for a server personality that rejects it, kept in the method and the expected status set), the URI runs to the first space (to the last one when spaces in URIs are allowed), the method number is that of the known method spelled exactly so and UNKNOWN otherwise, the protocol number is 0.9, 1.0, 1.1 or invalid, a missing protocol means HTTP/0.9, the status number is the three-digit number in 100..999 or invalid, the status line flag is set exactly when protocol or status is invalid, empty lines before the request line are counted and otherwise ignored, and so are empty lines, and a line that is no status line, before a status line. Segmentation does not matter.',
 ['inputs', 'schedules', 'configurations'], 'every first line, segmentation and server personality',
 'The tests hold a few dozen lines, each in one piece, mostly under one personality.',
 [REQ, RES, 'src/parsers.rs', 'src/util.rs'], [('request line parser', REQ + ' parse_request_line'), ('status line parser', RES + ' parse_response_line'), ('protocol and status', 'src/parsers.rs parse_protocol, parse_status')],
 ['transaction fields', 'response line callback'],
 'runtime monitoring: reported fields checked against an independent line model',
 'Exploration: lines of up to ~60 bytes built from known and unknown methods, all white space bytes, 8-bit and control bytes, mutated protocols and statuses; all personalities.')
prop('C12', 'URI decomposition and normalisation',
 'For every request URI with a scheme and authority, every origin-form URI and every authority-form CONNECT target, the raw components (scheme, user, password, host, port, path, query, fragment) are exactly the substrings the delimiters separate, and the normalised ones are their decoding under the configured rules: percent and %u decoding, plus, invalid encodings (kept, removed or processed), NUL handling, backslash and encoded separators, separator compression, case folding, control characters, UTF-8 conversion with best-fit mapping, and dot-segment removal. Every deviation found sets its flag and no other, the expected status is the one configured for the rule that fired last, URIs that are still encoded after decoding are logged as double encoded where double decoding is configured, invalid hosts and ports are flagged, and the partial and complete normalised URIs are the concatenation of the normalised components.',
 ['inputs', 'configurations', 'schedules'], 'every URI and decoder configuration, including all supported personalities',
 'The tests hold a few hundred URIs, nearly all under one configuration; evasion depends on combinations of encodings and options.',
 ['src/uri.rs', 'src/urlencoded.rs', 'src/utf8_decoder.rs', 'src/util.rs', 'src/parsers.rs', 'src/config.rs'], [('decomposition', 'src/parsers.rs parse_uri; src/uri.rs'), ('decoding', 'src/urlencoded.rs path_decode_uri_inplace, decode_uri_inplace'), ('UTF-8', 'src/utf8_decoder.rs, src/uri.rs'), ('options', 'src/config.rs DecoderConfig and personalities')],
 ['parsed URI, raw URI, flags, expected status, normalised URIs'],
 'runtime monitoring: parsed and normalised URIs checked against an independent reference normaliser',
 'Exploration: generated URIs over an alphabet biased to encodings and delimiters, random decoder options and every accepted personality.')
prop('C13', 'Urlencoded parameters',
 'For every string, separator and decoder configuration the urlencoded parser reports the name/value pairs the separators delimit, in order, with repeats and empty names or values kept, decoded under the configured rules, and flags exactly the deviations present. The result is the same whether the string is parsed in one piece or in any pieces, and the parameters of a request query string are those of its query.',
 ['inputs', 'schedules', 'configurations'], 'every string, cut and decoder configuration',
 'The tests parse a few fixed strings with a few cuts.',
 ['src/urlencoded.rs', TXN], [('streaming parser', 'src/urlencoded.rs Parser'), ('query parameters', TXN + ' parse_request_params / request line processing')],
 ['parameter table, flags, expected status, parameter processor'],
 'runtime monitoring: parameter tables checked against an independent reference decoder, whole versus pieces',
 'Exploration: strings of up to ~60 pieces and random bytes, three cuts each.')
prop('C14', 'Framing ambiguity',
 'For every combination of Transfer-Encoding and Content-Length fields (missing, repeated, folded, malformed, in any case, with embedded NUL bytes, in any HTTP version), the parser frames the message by chunked coding if Transfer-Encoding names it, otherwise by the Content-Length, otherwise as no body (requests, and responses with status 1xx, 204 or 304) or until close (other responses; a response to HEAD never has a body), delivers the body so framed and finds the next message right after it. It sets the request smuggling flag exactly when the framing is ambiguous (both fields, chunked below HTTP/1.1, repeated or folded Content-Length of a request, repeated Content-Length of a response), and fails with an error and without delivering body data when the framing cannot be determined, setting the matching invalid flag.',
 ['inputs', 'schedules', 'configurations'], 'every combination of framing fields, body and segmentation',
 'The tests hold about a dozen such messages; smuggling detection depends on combinations.',
 [TXN, RES, REQ, 'src/util.rs'], [('request framing', TXN + ' process_request_headers'), ('response framing', RES + ' response_body_determine'), ('numbers', 'src/util.rs / src/parsers.rs content length')],
 ['flags, transfer coding, body callbacks, following message, return status'],
 'runtime monitoring: framing decision and flags checked against a decision table',
 'Exploration: up to two fields of each kind plus unrelated ones, bodies up to 60 bytes, followed by a second message.')
prop('C15', 'Host, credentials and content type',
 'For every request head the reported host and port are those of the URI if it names one and otherwise those of the Host field, in lower case; a missing Host in HTTP/1.1, an invalid one, and one that contradicts the URI are flagged, and nothing else is. With authorization parsing on, the credential type, user name, password and token are exactly those of a well-formed Authorization field of the Basic, Digest or Bearer scheme, malformed ones are flagged, and other schemes are reported as unrecognised; with it off nothing is reported. The content type of a request, and of a response with a body, is the media type in lower case without parameters.',
 ['inputs', 'schedules', 'configurations'], 'every request head and segmentation',
 'The tests hold a few fixed hosts and credentials.',
 [TXN, RES, 'src/parsers.rs', 'src/util.rs'], [('host', TXN + ' process_request_headers; src/parsers.rs parse_hostport'), ('credentials', 'src/parsers.rs parse_authorization'), ('content type', 'src/parsers.rs parse_content_type')],
 ['transaction fields and flags'],
 'runtime monitoring: reported fields checked against generator ground truth and a reference host parser',
 'Exploration: hosts from names, addresses and malformed strings; 0 to 2 Host fields; Basic, Digest, Bearer and other credentials.')
prop('C01', 'Memory safety and totality',
 'No sequence of calls of the public API - any bytes in either direction, any segmentation and interleaving, gaps, empty calls, closes at any point, any configuration, transactions removed when complete, callbacks that fail at any point - makes the parser panic, abort, loop without end, exhaust memory or access memory it does not own, and no transaction reports more message bytes than were offered.',
 ['inputs', 'schedules', 'histories', 'configurations', 'faults'], 'every history of API calls under every configuration',
 'Network input is hostile by definition and one crash stops the inspection of all traffic; tests sample a few hundred benign histories and do not look at memory.',
 ['src/'], [('state machines', REQ + ', ' + RES), ('raw pointers', 'src/transaction.rs, src/connection_parser.rs, src/c_api/*'), ('decompressors', 'src/decompressors.rs')],
 ['process outcome', 'panics', 'AddressSanitizer reports', 'CPU time per case', 'address space'],
 'runtime monitoring: hostile workload generator with fault injection under overflow checks and AddressSanitizer, with crash, hang and memory watchdogs',
 'Exploration: mutated conversations, protocol fragments, corrupt compressed bodies and random bytes; a callback failure injected in a quarter of the histories. A hang is 40 s of CPU time for a case of a few kB.')
prop('C02', 'Contract of the data calls',
 'After every data call the returned state, the recorded state of that direction and the consumed count agree: DATA means everything was consumed, DATA_OTHER that some input is left and the other direction has to be fed first, and a caller that feeds the rest back when the other direction progressed never loses or deadlocks data. STOP (returned only when a callback asked for it) and ERROR are final: no later call or close makes a callback, consumes a byte or changes the state. A direction in tunnel mode stays so and only counts bytes. Empty calls change nothing. A call makes only callbacks of its own direction, and changes the state of the other one only by releasing it from DATA_OTHER or by entering the tunnel.',
 ['inputs', 'schedules', 'histories', 'faults'], 'every history of calls, every configuration, a callback failing at any point',
 'The tests check a handful of return values.',
 [REQ, RES, CP], [('request_data, response_data, close', CP + ', ' + REQ + ', ' + RES), ('HtpStreamState', CP)],
 ['return value, request_status, response_status, consumed and counter after every call', 'callbacks per call'],
 'runtime monitoring: online monitor of the data-call protocol over hostile histories with injected callback results',
 'Exploration: the histories of C01; callbacks return OK, DECLINED, ERROR or STOP.')

prop('C23', 'The C interface mirrors the parser',
 'For the same settings and the same history of calls, the C interface behaves as the Rust interface: every setter has the effect of its counterpart, the configuration is copied when a parser is made, every registered callback is called with the same transaction, data, length, order and parser pointer, its result has the same effect, and every getter returns the value the transaction holds (NULL, -1 or ERROR where there is none). User data set on a parser or a transaction comes back unchanged, header lookup ignores case, strings are copied faithfully, log messages are handed out once and in order, timestamps are taken as given, and every function documented to accept NULL does so.',
 ['inputs', 'schedules', 'configurations', 'faults'], 'every configuration, history of calls and callback result',
 'The C interface is what Suricata uses; the C++ tests are not part of the suite and the Rust tests do not touch it.',
 ['src/c_api/'], [('getters, setters, registration', 'src/c_api/config.rs, connection_parser.rs, transaction.rs, header.rs, uri.rs, log.rs, bstr.rs'), ('external callbacks', 'src/hook.rs')],
 ['return values', 'arguments of external callbacks', 'getters', 'log queue'],
 'runtime monitoring: lock-step differential monitor between the C and the Rust interface over hostile histories',
 'Exploration: the histories of C01 under random settings; timestamps from the whole range of timeval.')
prop('C16', 'Byte-string, table and number primitives',
 'For all operands: the byte-string comparisons, prefix tests and searches (case sensitive, without case, ignoring zero bytes) agree with their definition on the plain byte sequences, including strings with NUL and 8-bit bytes; a comparison is a total order consistent with equality; trimming and splitting remove exactly the bytes they name. A lookup in a table returns the first element with that name under the chosen comparison and nothing otherwise, in insertion order. Content lengths, chunk lengths, status codes and port numbers are read as the exact number written or reported as invalid - never wrapped, truncated or partially read; host names and content types are classified by their grammar, and character classes are those of the standard.',
 ['inputs', 'data'], 'every string, needle, table and digit sequence',
 'Header lookup, method detection and all framing rest on these; the tests try a few literals of each.',
 ['src/bstr.rs', 'src/table.rs', 'src/util.rs', 'src/parsers.rs'], [('Bstr', 'src/bstr.rs'), ('Table', 'src/table.rs'), ('numbers, trimming, host names', 'src/util.rs, src/parsers.rs')],
 ['return values of the primitives'],
 'runtime monitoring: results of the primitives checked against naive reference definitions over generated operands',
 'Exploration: strings of up to a few dozen bytes over small alphabets that make matches likely, digits around 2^15, 2^16, 2^31, 2^32, 2^63 and 2^64. Searching for an empty needle without case is left out (not specified).')
prop('C18', 'Callback results',
 'A callback that returns OK or DECLINED changes nothing. One that returns ERROR or STOP, at any point of any history of calls, ends that direction there: the data call in progress returns that status, no further callback of any kind is made for that direction, neither in that call nor later, and later data calls return the same. Of several callbacks registered on a hook, all are called in order for every event with the same data, and those behind a failing one are not called for that event. Callbacks registered on one transaction get exactly the body data of that transaction.',
 ['inputs', 'schedules', 'faults'], 'every conversation, callback, occurrence and result',
 'The tests return ERROR from two callbacks.',
 ['src/hook.rs', TXN, REQ, RES], [('hook lists', 'src/hook.rs run_all'), ('propagation', TXN + ' state_* functions, ' + REQ + ', ' + RES)],
 ['callbacks', 'return value of data calls'],
 'runtime monitoring: fault injection at every callback with a monitor of the consequences against the fault-free trace',
 'Exploration: one fault per conversation at a random occurrence of any of the 18 callbacks, also behind decompressors and for bytes reported missing. Results returned while the connection is being closed are not reported by the API.')
prop('C19', 'CONNECT, tunnels and upgrades',
 'The request side waits after CONNECT until the response head was seen, and meanwhile asks the caller to feed the other side. After a 2xx answer the client data is inspected: if it is not HTTP, both directions go to tunnel mode, count every byte and report nothing more; if it is, parsing goes on and every exchange inside is reported as usual. After any other answer the connection goes on as if CONNECT had been an ordinary request, and pipelined requests are paired with their responses. Interim 100 answers change nothing of this. A 101 answer without body framing puts both directions into tunnel mode, whatever the client is just sending, and is marked as HTTP/2 upgrade if and only if its Upgrade field names h2c; a 101 answer with body framing has that body. None of this depends on segmentation.',
 ['inputs', 'schedules'], 'every conversation with CONNECT or an upgrade, every segmentation and interleaving',
 'The tests hold about ten such captures, each with one segmentation.',
 [REQ, RES, CP], [('CONNECT states', REQ + ' request_connect_check, request_connect_wait_response, request_connect_probe_data'), ('response side', RES + ' response_body_determine, response_finalize'), ('yield', CP)],
 ['stream states, counters, callbacks, transaction snapshots'],
 'runtime monitoring: tunnel state monitor and generator ground truth over segmented conversations',
 'Exploration: up to three exchanges before the CONNECT or upgrade and up to four after it. The client speaks first inside a CONNECT tunnel (server-first data is parsed as a response, as in the C library); nothing is pipelined behind a CONNECT answered with 407.')
prop('C17', 'Bounded resources',
 'However long a connection lasts and whatever a peer sends, memory stays bounded by the configured limits when the caller reads the log and finished transactions are removed: bodies of any framing and coding, any number of exchanges or interim responses, gaps, tunnels, endless or repeated or folded header lines, endless first lines, chunk lines, trailers and compressed-stream headers, and data after an error do not make it grow, nor does the amount of copying per byte. A line or field of exactly the field limit is taken and one byte more is refused with an error and its log message, in both directions and all parser states that collect a line, in any segmentation (chunk lines and the first line inside of a CONNECT tunnel only when they are not there as a whole in one data call); the default limit is 18000. At most max_tx transactions are kept, none is refused while fewer are, the next one is refused with an error, and the admitted ones are still answered.',
 ['inputs', 'histories', 'schedules', 'configurations'], 'every length of connection, every limit and segmentation',
 'Unit tests run for a few messages and do not measure memory.',
 [REQ, RES, CP, 'src/transactions.rs', 'src/decompressors.rs'], [('field limit', REQ + ' check_request_buffer_limit; ' + RES + ' check_response_buffer_limit'), ('transaction limit and removal', 'src/transactions.rs'), ('repetition cap', REQ + ' process_request_header; ' + RES + ' process_response_header')],
 ['heap in use and bytes allocated (counting allocator)', 'return states', 'log codes', 'transactions kept'],
 'runtime monitoring: counting allocator over endless streams, and limit probes from both sides',
 'Exploration: 37 kinds of endless streams of 0.1 to 2 MB each with several limits and piece sizes. The number of distinct header names of a message is not limited by the library and not part of the property.')
prop('C20', 'Gaps',
 'Missing bytes announced inside a body with Content-Length or a response body until close are given to the body callbacks as a gap of that length at their place, counted in the message length and not in the entity length, and mark that transaction (and no other) as missing bytes in that direction; everything after them - the rest of the body, later messages, pairing, completion - is reported as if the bytes had been there. The part of a gap that goes beyond a body is not consumed and refused. A gap in a head, a chunked body or between two messages is refused with its log message, delivers nothing, leaves the stream states alone and changes nothing of what is reported later; a gap before the first byte of a direction is refused.',
 ['inputs', 'schedules', 'faults'], 'every conversation, every placement and division of gaps',
 'The tests contain five captures with gaps.',
 [REQ, RES, CP], [('gap handling', REQ + ' request_data, request_body_identity; ' + RES + ' response_data, response_body_identity_*'), ('ParserData', CP)],
 ['body callbacks, flags, lengths, return states, log'],
 'runtime monitoring: loss injection with a reconstruction monitor against generator ground truth',
 'Exploration: up to three missing ranges per body, split into any number of gaps, in up to four exchanges. Bodies with gaps are not compressed.')
prop('C21', 'Streams that end early',
 'When a well-formed conversation ends at any byte of either stream, closing the connection reports everything received: messages that were complete are reported as ever; of a cut body, exactly the bytes received (of a compressed one, a prefix of the content); of a cut head, the first line and all fields received in full. Responses cut in their head, their trailer or an unchunked body and requests cut in their head or trailer are completed by the close, other cut messages are not; a transaction completes exactly once if both its messages do. With flushing of incomplete transactions on, every transaction that was started completes exactly once, in order, and is removed if so configured; with it off no other does. Closing again does nothing. Closing the request direction does not disturb responses.',
 ['inputs', 'schedules', 'crash_points', 'configurations'], 'every conversation and every point at which it can end',
 'The tests close a few connections at fixed points.',
 [CP, REQ, RES, TXN], [('close', CP + ' request_close, close, flush_incomplete_transactions'), ('states on close', REQ + ', ' + RES)],
 ['callbacks, transaction snapshots'],
 'runtime monitoring: conversations cut at every kind of point, monitored against the ground truth of the received prefix',
 'Exploration: one random cut per conversation of up to four exchanges; a stream cut inside a method or status line may report the fragment as data of the message before it and is only checked for crashes.')
prop('C22', 'Determinism, isolation and the log',
 'What a connection reports is a function of its configuration and its history of calls: running it again, or side by side with other connections in any interleaving, gives the same callbacks, results, transactions and log. The log level selects exactly the messages at or above that severity and changes nothing else; messages are handed out once, in the order they were logged, whichever way they are read, and carry the addresses of their connection. A registered log callback is called for every message.',
 ['inputs', 'schedules', 'histories', 'configurations'], 'every pair of histories, interleaving, level and way of reading the log',
 'The tests drive one connection at a time and look at single messages.',
 ['src/log.rs', 'src/connection.rs', CP], [('logger', 'src/log.rs Logger'), ('log queue', 'src/connection.rs get_logs, get_next_log'), ('state', CP)],
 ['callbacks, calls, transactions, log queue'],
 'runtime monitoring: differential monitor of repeated and interleaved executions over hostile histories',
 'Exploration: the histories of C01. One known finding: log callbacks are never called (see known-findings.txt).')
prop('C26', 'HTTP/0.9 exchanges',
 'A request line that names no protocol and ends its segment, or has at most 16 bytes of nothing but white space behind it there, is an HTTP/0.9 request: it is complete with that line, has method, URI and no headers (the white space is its body data), and its answer is everything the server sends until it closes, delivered byte for byte and undecoded as the response body, with the gaps in it reported, with no status line, no headers and no callbacks for them, and complete only at the close. Whatever the client sends afterwards is consumed and counted but never parsed, and is recorded on the connection, which is marked exactly then. A line without a protocol with anything else behind it in its segment is an ordinary request, reported as missing its protocol; so is a line that names HTTP/0.9, without that report. Exchanges before and after such an ordinary request are not disturbed.',
 ['inputs', 'schedules'], 'every conversation that contains such a line, every content of the answer, every segmentation and interleaving',
 'The tests replay four HTTP/0.9 captures.',
 [REQ, CP], [('detection', REQ + ' parse_request_line, request_protocol'), ('end of the request', REQ + ' request_ignore_data_after_http_0_9'), ('answer', CP + ' state_response_start')],
 ['callbacks', 'transaction snapshots', 'connection flags', 'results of data calls'],
 'runtime monitoring: trace monitor of HTTP/0.9 exchanges against the ground truth of the generator',
 'Exploration: up to two ordinary exchanges before, pipelined or not; answers up to 15 kB that look like HTTP or compressed data as often as not; client data up to 40 kB afterwards, gaps included. The answer begins a segment of its own (behind the end of an earlier response in the same segment it is taken for more of that response, as in the C library).')
prop('C27', 'Connection record, user data and stored transactions',
 'Opening a connection records the addresses, ports and, when given, the time; opening it again, at any later point, or for the first time after data was fed, is refused with one error in the log and changes nothing; closing records the time when given, and half-closing does not. Two connections are equal exactly when the four addresses and ports are. Every transaction that started stays available under its index, with what was reported at its completion, until the user removes it or, when automatic destruction is on, until it is complete and no longer; the number of transactions seen counts those that are gone. Removing completed transactions between data calls, or having them destroyed automatically, changes nothing that is reported about the others. User data belongs to its parser or its transaction: it is what was set there, is only seen under its own type, is replaced by setting it again, and is dropped exactly once, when it is replaced or its owner goes.',
 ['inputs', 'schedules', 'histories'], 'every conversation, schedule and choice of removals',
 'The tests attach user data to every transaction but never remove one, and open each connection once.',
 ['src/connection.rs', 'src/transactions.rs', TXN, CP], [('record', 'src/connection.rs open, close, eq'), ('refusal', CP + ' open'), ('store', 'src/transactions.rs'), ('user data', TXN + ' user_data; ' + CP + ' user_data')],
 ['connection record', 'availability of every transaction after every data call', 'drops of user data', 'transaction snapshots'],
 'runtime monitoring: ownership and availability monitor after every data call, with the run without removals as the reference',
 'Exploration: up to 12 exchanges; removals of random completed transactions at random times.')
