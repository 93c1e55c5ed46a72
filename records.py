AL = 'src/algorithm.cpp include/pion/algorithm.hpp'
HP = 'src/http_parser.cpp include/pion/http/parser.hpp include/pion/http/message.hpp'
P('C01', 'Base64 encoding round-trips and rejects what is not base64', 'Encoding any byte string gives its RFC 4648 text, and decoding that text gives the string back. Decoding any other byte string either rejects it, exactly when it holds a character outside the alphabet or a dangling digit, or yields the bytes its digits denote. No input makes the decoder read or write outside its tables and buffers.',
  'inputs', 'every byte string up to the bound, bytes above 0x7f included', 'Tests decode a handful of ASCII strings; the alphabet, padding and high bytes interact at every position.', AL, [('lookup tables and group loop', 'src/algorithm.cpp:base64_decode, base64_encode')])
P('C02', 'URL escaping round-trips and malformed escapes stay literal', 'For every NUL-free string, URL-encoding gives only unreserved characters and two-digit escapes, and decoding restores the string. Decoding arbitrary text turns a plus into a space and a percent with two hex digits (other than 00) into that byte, and keeps everything else, malformed escapes included, unchanged.',
  'inputs', 'every byte string up to the bound', 'Tests use a few fixed strings; the decoder must be right for every byte after every percent sign, and at the very end of the text.', AL, [('character loop', 'src/algorithm.cpp:url_decode, url_encode')])
P('C03', 'XML escaping yields well-formed text for every byte string', 'For every byte string the result is well-formed UTF-8 made only of characters XML allows, with no raw markup characters. Well-formed characters are kept, markup is replaced by entities, and each byte that belongs to no well-formed character becomes one replacement character.',
  'inputs', 'every byte string up to the bound', 'Tests cover chosen valid and invalid sequences; overlong forms, surrogates and truncated sequences at the end need all byte combinations.', AL, [('UTF-8 validity conditions', 'src/algorithm.cpp:xml_encode')])
P('C04', 'Integers are read and written in network byte order', 'Reading an 8, 16, 24, 32 or 64 bit integer gives the value its bytes denote most significant first, writing stores exactly those bytes and no others, and writing then reading is the identity, for signed and unsigned and for both byte pointer types (24 bits are never extended by a sign).',
  'inputs', 'every value and every buffer content', 'Tests try a few values; sign extension and each byte position need all of them.', AL, [('shift and mask helpers', 'include/pion/algorithm.hpp:to_uint24 and its siblings')])
P('C05', 'Floating point numbers survive being written and read', 'Writing a finite number that a format of the given exponent and fraction bits can hold as a normal number stores its sign, exponent and fraction bits, and reading them gives the number back.',
  'inputs', 'every format and every number it holds', 'There are as many numbers as bit patterns; tests try a few.', AL, [('conversion', 'src/algorithm.cpp:float_from_bytes, float_to_bytes')])
N('C05', 'The code computes with x87 long double (80 bit) arithmetic, pow and ceil in loops that branch on every bit of the number. The encoding is QF_BV; z3 has no 80 bit extended format with an explicit leading bit, and forking on every bit of a number ends in one path per number, which is enumeration of concrete runs and not a verdict of the solver.')
P('H01', 'The HTTP parser is memory safe and total on arbitrary bytes', 'Whatever bytes arrive, parsing never touches memory outside the supplied buffer and its own storage, never throws and always ends with finished, failed or needs-more. Failure always comes with an error and success never does, stored content never exceeds the configured limit, and a message finished at end of stream has readable content.',
  'inputs', 'arbitrary bytes in every parser state, for requests and responses', 'The state machine has about forty states and each takes 256 bytes; tests walk the usual ones with well-formed data, and are not even built here.', HP, [('header, chunk and content state machines', 'src/http_parser.cpp:parse, parse_headers, parse_chunks, consume_content, finish')])
P('H02', 'HTTP parsing does not depend on how the stream is segmented', 'Feeding the same bytes in one piece, byte by byte or split at any point gives the same result, the same error, the same number of consumed bytes and an identical message. This holds for malformed input and for content delivered to a payload handler as well.',
  'inputs schedules', 'every split of every text up to the bound', 'Network segmentation is arbitrary; tests use one or two splits of valid messages.', HP, [('all parse state kept in the parser between calls', 'include/pion/http/parser.hpp, src/http_parser.cpp:parse')])
P('H03', 'Request and status lines are extracted exactly or rejected', 'For a well-formed first line the method, resource, query string, version, status code and status message are exactly the corresponding text, for either line ending, and a request line without a version is a complete simple request. A byte the grammar forbids at a place, and numbers too large to represent, are rejected with the error for that part.',
  'inputs', 'every legal text up to the bound, every forbidden byte at every place', 'Tests parse a few fixed first lines.', HP, [('header state machine', 'src/http_parser.cpp:parse_headers, update_message_with_header_data')])
P('H04', 'Headers are extracted exactly, all of them, and found in any case', 'Every header line of a well-formed message yields one entry with exactly its name and value, whatever line endings and blank after the colon are used; repeated headers are all kept and lookup ignores the case of the name. A header that was not sent is absent, saved raw headers are the bytes received, and headers-only parsing stops right after the headers.',
  'inputs', 'every legal header name and value up to the bound', 'Tests look up a few fixed headers.', HP + ' include/pion/hash_map.hpp', [('header states', 'src/http_parser.cpp:parse_headers'), ('case-insensitive dictionary', 'include/pion/hash_map.hpp')])
P('H05', 'Content with an announced length is framed exactly', 'A message that announces a content length ends exactly that many bytes after its headers; the stored content, or what the payload handler received, is those bytes, cut at the configured limit without changing where the message ends. A length that is not a plain decimal number is rejected, and a message cut short is reported as incomplete with the bytes that arrived.',
  'inputs schedules', 'every content, announced length and split up to the bound; every short length text', 'Framing errors desynchronise pipelined connections; tests use one length.', HP, [('length bookkeeping', 'src/http_parser.cpp:finish_header_parsing, consume_content'), ('length header', 'include/pion/http/message.hpp:update_content_length_using_header')])
P('H06', 'Chunked content is framed and decoded exactly', 'A chunked message decodes to the concatenation of its chunk data in order, cut at the configured limit, and ends right after its last chunk and footers, which become headers; a payload handler receives exactly the data. Sizes may be upper or lower case with leading zeros, trailing blanks or an extension; any other byte in the framing is an error, and chunked framing takes precedence over a length.',
  'inputs schedules', 'every chunk content, size spelling and split up to the bound', 'Tests parse a few captured messages.', HP, [('chunk state machine', 'src/http_parser.cpp:parse_chunks'), ('concatenation', 'src/http_message.cpp:concatenate_chunks')])
P('H07', 'End of stream inside a message is told from a proper end', 'A stream that ends inside a message is reported as premature, except in a response body without length, where the close is the proper end. What is kept of a cut message is a prefix of its content, and a message whose headers or announced content are incomplete is not valid.',
  'inputs crash_points', 'every cut position of representative messages', 'Tests cut at one or two places.', HP, [('premature end check and finishing', 'include/pion/http/parser.hpp:check_premature_eof, src/http_parser.cpp:finish')])
P('H08', 'Every part of an HTTP message is size limited', 'A method, resource, query string, header name, header value or status message at its documented maximum is accepted, and one byte more is rejected with the error for that part.',
  'inputs', 'the largest allowed and the smallest forbidden size of each part, with arbitrary characters', 'No test sends parts of the maximum size.', HP, [('size checks', 'src/http_parser.cpp:parse_headers')])
P('H09', 'Lost content bytes are bridged only when they fit', 'When bytes of the content are known to be lost, parsing goes on only if the gap fits the current content or chunk; each lost byte is replaced by one placeholder, counted, and subject to the content limit. A gap in headers or framing is an error, and the final status tells loss at the end from loss in the middle.',
  'inputs fault_sequences', 'every gap position and length up to the bound, every content', 'Tests try a few gaps.', HP, [('missing data handling', 'src/http_parser.cpp:parse_missing_data')])
P('H10', 'URIs are split into their parts exactly or rejected', 'A well-formed URI yields exactly its scheme, host, port, path and query, with the default port of http or https and the path / when none is given; a port that is no port number and a missing host are rejected. No text, well-formed or not, makes the splitter misbehave, and nothing of an earlier URI survives in its results.',
  'inputs', 'every legal text of each part up to the bound; arbitrary short texts', 'Tests split a few URIs; optional parts combine and ports overflow.', HP, [('URI pattern', 'src/http_parser.cpp:parse_uri')])
P('H11', 'URL-encoded forms are split exactly and round-trip', 'A query string or URL-encoded form yields one parameter per name=value pair and one per comma separated value, names and values decoded, empty names dropped, and is rejected exactly when it holds a control character or an oversized part. Parameters of the query string and of a form in the content both reach the request. Writing any set of parameters as a query string and parsing it gives the same set.',
  'inputs', 'every byte string up to the bound; every set of one or two parameters', 'Tests parse a few queries.', HP + ' src/http_types.cpp', [('form state machine', 'src/http_parser.cpp:parse_url_encoded'), ('query writer', 'src/http_types.cpp:make_query_string')])
P('H12', 'Cookies are extracted exactly and Set-Cookie headers round-trip', 'A Cookie header yields each cookie with exactly its name and its plain or quoted value, whatever the separators; attributes never become cookies and control characters are rejected, which does not affect the cookies of other header lines. A Set-Cookie header made for a name, value, path and lifetime carries them and parses back to exactly that cookie.',
  'inputs', 'every legal name, value and separator up to the bound; arbitrary short headers', 'Tests parse a few captured headers.', HP + ' src/http_types.cpp', [('cookie state machine', 'src/http_parser.cpp:parse_cookie_header'), ('header writer', 'src/http_types.cpp:make_set_cookie_header')])
P('H13', 'Multipart forms yield exactly their fields', 'A well-formed multipart form yields one parameter per named field holding exactly its bytes, whatever bytes those are, with fields that carry a non-text type coded as data URIs. A malformed form or content type never causes a fault, an exception or content that was not sent.',
  'inputs', 'every field content up to the bound; forms with arbitrary bytes at each structural place', 'Tests parse one well-formed form.', HP, [('form state machine', 'src/http_parser.cpp:parse_multipart_form_data')])
P('H14', 'Data URIs round-trip and malformed ones are rejected safely', 'Coding bytes as a data URI gives the type and the RFC 4648 text, and decoding gives type and bytes back. Arbitrary text is decoded or rejected without an exception and without writing outside the caller\'s buffer, and a buffer that is too small is left untouched.',
  'inputs', 'every byte string and type up to the bound; arbitrary texts', 'Not tested.', HP, [('data URI coder', 'src/http_parser.cpp:binary_2base64, base64_2binary')])
P('H15', 'The client address is the first public address forwarded', 'Of the addresses in a forwarded-for header the first public IPv4 address is reported; addresses in the private and loopback ranges are skipped, and when none is left the call fails and leaves its result alone.',
  'inputs', 'every address with the given digit counts in several surroundings; arbitrary short headers', 'Range borders such as 172.15, 172.16, 172.31 and 172.32 need all octets.', HP, [('address patterns', 'src/http_parser.cpp:parse_forwarded_for')])
P('H16', 'A reset HTTP parser carries nothing over', 'After a reset a parser treats every input exactly like a new parser, whatever it parsed before and wherever it was abandoned: same result, same consumed bytes, same message.',
  'inputs histories', 'arbitrary bytes after several finished and abandoned messages', 'State left over shows only for particular pairs of messages.', HP, [('reset and header reset', 'include/pion/http/parser.hpp:reset')])
SP = 'src/spdy_parser.cpp include/pion/spdy/parser.hpp src/spdy_decompressor.cpp include/pion/spdy/decompressor.hpp'
P('S01', 'The SPDY parser is memory safe and total on arbitrary packets', 'Whatever a packet holds, and whatever its header block decompresses to, parsing never reads outside the packet or the uncompressed data, never throws, and reports an error exactly when it fails. A header block is accepted exactly when its name/value pairs fit in it.',
  'inputs', 'arbitrary packets and arbitrary uncompressed header blocks up to the bound', 'Tests parse captured frames and even announce wrong sizes; every length field must be checked against what is there.', SP, [('frame and header block parsing', 'src/spdy_parser.cpp:populate_frame, parse_spdy_frame, parse_header_payload'), ('decompression buffer', 'src/spdy_decompressor.cpp:spdy_decompress_header')])
P('S02', 'SPDY frames are told apart, decoded and walked exactly', 'Each frame yields its kind, stream, flags and payload place and size; unknown frames and versions are rejected with the matching error, and go-away errors are reported. A packet with several frames is walked frame by frame, each visited once, with the remaining length and data pointer of each frame exact.',
  'inputs histories', 'every header and payload content of every frame kind up to the bound', 'Tests use one frame of each kind.', SP, [('frame header and dispatch', 'src/spdy_parser.cpp:populate_frame, parse_spdy_frame')])
P('S03', 'SPDY header blocks yield exactly their headers', 'The headers of a frame are exactly the name/value pairs of its uncompressed block, and the block handed to decompression is exactly what follows the fixed fields. Requests and responses keep separate compression state, and the dictionary is supplied when and only when the stream asks for it.',
  'inputs', 'every pair content, stream identifier and flag up to the bound', 'Tests decode one captured block.', SP, [('pair loop', 'src/spdy_parser.cpp:parse_header_payload'), ('stream choice and dictionary', 'src/spdy_decompressor.cpp:decompress, spdy_decompress_header')])

MS = 'include/pion/http/message.hpp include/pion/http/request.hpp include/pion/http/response.hpp src/http_message.cpp'
P('M01', 'Header, cookie and query dictionaries ignore case and keep every value', 'After any sequence of adding, changing and deleting, a name (in any letter case) gives exactly the values stored under it: adding keeps earlier values, changing leaves only the new one, deleting leaves none, and other names are untouched. Names that compare equal also hash equally.',
  'inputs histories', 'every name and value up to the bound, every combination of equal and different names', 'Tests use a few fixed names; equality, hashing and repeated entries interact for every pair of names.', MS + ' include/pion/hash_map.hpp', [('dictionary helpers', 'include/pion/http/message.hpp:change_value, delete_value, get_value'), ('equality and hash', 'include/pion/hash_map.hpp:iequal_to, ihash')])
P('M02', 'A message written to a stream or connection reads back the same', 'Writing any request or response and reading the bytes back gives the same first line, version, header values and content, plus one Content-Length header and one Connection header that says whether the connection stays open. The byte counts reported are the bytes written and read, and a stream that fails is an error. With headers only, no content is written. Content is always framed by its length, even if it was received in chunks.',
  'inputs', 'every text field, content, status code and version up to the bound, streams and connections', 'Tests round-trip a few fixed messages and are not built here.', MS, [('header preparation', 'include/pion/http/message.hpp:prepare_headers_for_send, prepare_buffers_for_send'), ('send, receive, write, read', 'src/http_message.cpp'), ('first lines', 'include/pion/http/request.hpp, response.hpp:update_first_line')])
P('M03', 'Copying, assigning and clearing messages is complete and independent', 'A copy or assigned message has every field of its source and does not change when the source does; assigning a message to itself changes nothing; clearing leaves nothing of the previous message, neither in its fields nor in what is sent next.',
  'inputs histories', 'every field content up to the bound, over fresh and previously used targets', 'Tests compare a few fields after one copy.', MS, [('copy, assignment, clear', 'include/pion/http/message.hpp:message, operator=, clear, content_buffer_t')])
P('M04', 'Keep-alive, implied lengths and chunk support follow version and status', 'A connection may be kept alive exactly from HTTP/1.1 on, unless the Connection header says close in any letter case. Exactly HEAD, 1xx, 204, 205 and 304 responses have no content. Chunks are supported exactly for 1.x requests from 1.1 on, and a version 0 request gets a response without version and status.',
  'inputs', 'all versions, status codes, methods and connection headers up to the bound', 'Tests try single versions and codes.', MS, [('rules', 'include/pion/http/message.hpp:check_keep_alive; include/pion/http/response.hpp:is_content_length_implied, update_request_info')])
P('M05', 'Receiving from a connection never loses, mixes or shortens messages', 'However the bytes of consecutive messages are split into segments, each receive delivers exactly the next message, leaves the following bytes to the next receive, and marks the connection as closing, kept alive or pipelined. A message cut short is reported with the error that cut it and is not valid; content beyond the limit is dropped without disturbing the next message; without a length the content runs to the close.',
  'inputs histories fault_sequences', 'every split of message pairs, every cut position and read error', 'Tests receive whole messages from a live socket; segment boundaries and failures are up to the network.', MS + ' include/pion/tcp/connection.hpp', [('receive loop and lifecycle', 'src/http_message.cpp:receive'), ('saved read position', 'include/pion/tcp/connection.hpp:save_read_pos, load_read_pos')])

WR = 'include/pion/http/writer.hpp include/pion/http/request_writer.hpp include/pion/http/response_writer.hpp src/http_writer.cpp'
P('W01', 'What is written to a response or request writer arrives exactly once', 'Whatever mixture of text, numbers, copied and uncopied binary pieces is written, the peer receives exactly those bytes in that order after one header block, framed by the length announced, by chunks, or by the end of the connection, as the peer\'s version allows. Responses that may not carry content (HEAD, 204, 304) carry none. The connection stays open only when the framing has an end; write errors reach the handler; memory taken for content is released.',
  'inputs histories fault_sequences', 'every content of the pieces up to the bound, every way of sending, versions 0.9 to 2.0', 'Tests of the writer are not built here; sending modes, versions and piece kinds multiply.', WR, [('content accumulation and buffers', 'include/pion/http/writer.hpp:write, write_no_copy, prepare_write_buffers, flush_content_stream'), ('sending modes', 'include/pion/http/writer.hpp:send, send_chunk, send_final_chunk'), ('response header preparation', 'include/pion/http/response_writer.hpp:prepare_buffers_for_send')])

SV = 'src/http_server.cpp include/pion/http/server.hpp src/http_reader.cpp include/pion/http/reader.hpp include/pion/http/request_reader.hpp'
TC = 'src/tcp_server.cpp include/pion/tcp/server.hpp include/pion/tcp/connection.hpp'
P('V01', 'Requests reach the most specific handler, after redirects', 'A request is handled exactly once, by the handler registered for the longest resource that equals the requested one or is followed in it by a slash; trailing slashes do not matter and removed resources no longer count. With no such handler the answer is 404. Registered redirects are followed first, up to ten of them; a longer chain or a loop is a server error and reaches no handler.',
  'inputs histories', 'every resource text up to the bound, every redirect graph up to the bound', 'Tests register a few unrelated names; prefixes of each other, shared stems such as /a and /ab, and redirect cycles combine.', SV, [('longest-prefix search', 'src/http_server.cpp:find_request_handler'), ('redirect loop', 'src/http_server.cpp:handle_request')])
P('V02', 'No handler runs for a request authentication did not accept', 'With an authentication object set, every request passes through it before any handler, with the resource a redirect led to; a handler is called exactly when it accepts, also for later requests on the same connection, and a refused request gets exactly the answer the authentication object sent.',
  'inputs histories', 'every accept/refuse history over three requests of a connection, direct and redirected', 'Tests check single requests.', SV + ' include/pion/http/auth.hpp', [('authentication gate', 'src/http_server.cpp:handle_request')])
P('V03', 'Every failed request gets exactly one well-formed error answer', 'A request that cannot be parsed gets one 400 answer and the connection is closed; an unknown resource 404, a handler that throws 500, refused access 403 and 405 answers as the server provides them. Whatever text of the request or of the failure goes into an answer is escaped. Exceptions of handlers never reach the caller of the server, and the connection can be used again or is closed, as the answer says.',
  'inputs fault_sequences', 'every byte at each place of a broken request; every failure text and resource up to the bound', 'Tests see the 404 answer of fixed resources only.', SV, [('error answers', 'src/http_server.cpp:handle_bad_request, handle_not_found_request, handle_server_error, handle_forbidden_request, handle_method_not_allowed'), ('exception boundary', 'src/http_server.cpp:handle_request')])
P('V04', 'Every request on a connection is answered once, in order, to its own client', 'However requests arrive (pipelined, split anywhere, one by one) and whether handlers answer at once, later or in chunks, each request is handled and answered exactly once in order, clients never see each other\'s answers, content beyond the limit does not disturb the next request, and the connection is closed exactly when a request asked for it. Handlers run without server locks. Stopping closes every connection, and none is left in the pool.',
  'inputs histories schedules', 'every split, every order of two clients\' segments and answers, several kinds of requests and handlers', 'Order, splitting and late answers depend on timing that tests do not control.', SV + ' ' + TC, [('read, handle, answer cycle', 'src/http_reader.cpp:consume_bytes, read_bytes; src/http_server.cpp:handle_connection'), ('keep-alive or close', 'src/tcp_server.cpp:finish_connection')])
P('V05', 'A client that stops sending is disconnected, a working one is not', 'Each wait for more of a request is limited; when the limit passes, the connection is closed, nothing is handled or answered and nothing is left in the pool. Data that arrives first wins: the expired or cancelled limit then neither closes the connection nor cancels later reads. No limit applies while a handler works.',
  'inputs schedules', 'every cut position of a request and every order of expiry and arrival', 'Tests would have to wait for real timeouts.', SV + ' src/tcp_timer.cpp include/pion/tcp/timer.hpp', [('timer start and cancel', 'src/http_reader.cpp:read_bytes_with_timeout, consume_bytes; src/tcp_timer.cpp')])

P('T01', 'A TCP server accepts, tracks and closes every connection exactly', 'While listening, a server always waits for the next client, also after failed accepts and handshakes. Every accepted connection is handled once, and again each time it is finished with keep-alive; finished, refused and abandoned connections are closed and no longer counted, and the count is exact. Starting and stopping are repeatable: a failed start leaves nothing behind, stop closes every connection and releases the scheduler, and start works again after both.',
  'inputs histories fault_sequences', 'every sequence up to the bound of connecting, failing, finishing, keeping, abandoning, stopping, starting and failing to bind, plain and SSL', 'Tests run fixed sequences against a live socket; orders of events and failures are up to the network.', TC, [('accept loop', 'src/tcp_server.cpp:listen, handle_accept, handle_ssl_handshake'), ('pool', 'src/tcp_server.cpp:finish_connection, prune_connections, get_connections'), ('start and stop', 'src/tcp_server.cpp:start, stop')])
P('T02', 'Schedulers run while they have users, stop completely, and restart', 'The first user starts the threads, work that is posted is done once whatever other work throws, and the scheduler runs until its last user has left, even if users come and go while it shuts down. Shutdown waits for the users, ends every thread and wakes those waiting in join; users are counted exactly. A stopped scheduler can be started again and is then idle when there is nothing to do.',
  'schedules histories', 'every schedule of the threads within the switch bound, both kinds of scheduler, one and two threads', 'Races between users, shutdown and threads depend on scheduling that tests cannot control.', 'src/scheduler.cpp include/pion/scheduler.hpp', [('users and shutdown', 'src/scheduler.cpp:add_active_user, remove_active_user, shutdown, join'), ('work loop and keep-alive timer', 'src/scheduler.cpp:process_service_work, keep_running')])
P('P01', 'Administrative rights are always given back, to the same user', 'Obtaining administrative rights makes the process an administrator exactly if it may become one, for one thread at a time. However the rights are given back (release, end of scope, exception), the process runs as exactly the user it ran as before; if they were refused nothing changes and others are not kept waiting.',
  'inputs schedules', 'every user identifier, every way of giving back, every schedule of three threads within the bound', 'Needs a privileged process; tests run as one fixed user.', 'src/admin_rights.cpp include/pion/admin_rights.hpp', [('upgrade and release', 'src/admin_rights.cpp:admin_rights, release')])
P('P02', 'A process runs as exactly the user or group named', 'Given a number or a name listed in the user or group file, the process runs with exactly that identifier; a change that is not allowed is reported, and an unknown name or a malformed entry changes nothing. The other identity is never touched.',
  'inputs', 'every name, identifier and password field up to the bound, well-formed and malformed files', 'Needs a privileged process and particular system files.', 'src/admin_rights.cpp include/pion/admin_rights.hpp', [('lookup', 'src/admin_rights.cpp:find_system_id'), ('change', 'src/admin_rights.cpp:run_as_user, run_as_group')])
AU = 'src/http_auth.cpp include/pion/http/auth.hpp'
P('A01', 'Exactly the protected paths require a user', 'With at least one user defined, a request needs valid credentials exactly when its resource equals, or lies below, a restricted path and neither equals nor lies below a permitted one; trailing slashes do not matter. Paths match whole segments only. With no users defined, or after the last was removed, nothing is required.',
  'inputs', 'every restricted, permitted and requested path up to the bound', 'Tests use a few unrelated paths; shared stems, nesting and the order of the sets matter.', AU + ' src/http_server.cpp', [('restrict and permit lists', 'src/http_auth.cpp:need_authentication, find_resource')])
P('A02', 'A user is known by its name and current password only', 'User accounts behave as a map from name to password: adding needs a new name, changing and removing an existing one, and a lookup with a password succeeds exactly with the current one. Passwords may also be given as hexadecimal SHA-256 or SHA-1 digests and then match exactly the password digested; anything else is refused and changes nothing.',
  'inputs histories', 'every name and password up to the bound over histories of three changes; any two characters of a digest', 'Tests check one user with one password.', 'include/pion/user.hpp', [('accounts', 'include/pion/user.hpp:user_manager'), ('digests', 'include/pion/user.hpp:set_password, set_password_hash, match_password')])
P('A03', 'Basic authentication lets through only valid user credentials', 'A protected resource is served exactly to requests whose Authorization header holds Basic credentials that decode to the name and password of a registered user; the handler sees that user. Any other request gets a 401 answer naming the realm and reaches no handler. A removed user is refused at once; an old password works for at most five minutes after it was last found valid.',
  'inputs histories', 'every header up to the bound; every history of three account changes and requests with arbitrary times between', 'Malformed headers are endless, and cached credentials outlive tests.', AU + ' src/http_basic_auth.cpp include/pion/user.hpp src/algorithm.cpp', [('header', 'src/http_basic_auth.cpp:parse_authorization, parse_credentials'), ('cache of credentials', 'src/http_basic_auth.cpp:handle_request')])
P('A04', 'Cookie sessions belong to one user, from login to logout or an hour idle', 'Logging in with a registered name and password, and only that, gives a new session identifier as a cookie. A protected resource is served exactly to requests that carry the identifier of a live session, as its user. A session ends when it is logged out, after an hour without use, or when its user is removed; identifiers that were not given out never count. Failures get 401 or the login page. What a client names as the page to be sent to becomes nothing but that address.',
  'inputs histories', 'histories of four logins, logouts, removals and requests with arbitrary times between; every one-character forgery; every name and password up to the bound', 'Session expiry and forged identifiers are out of reach of tests.', AU + ' src/http_cookie_auth.cpp include/pion/user.hpp', [('login and logout', 'src/http_cookie_auth.cpp:process_login'), ('sessions', 'src/http_cookie_auth.cpp:handle_request, expire_cache')])

P('R01', 'Accounts and authentication can be used by several threads at once', 'Any number of threads may look up, add, change and remove users and have requests authenticated, log in and log out, through the same objects at the same time: no memory is used by one thread while another changes it without something that orders the two, no thread waits for ever, and a user is added or removed exactly as often as the calls report.',
  'schedules inputs', 'every schedule of two or three threads within the switch bound, one operation each', 'Data races and deadlocks appear only in particular interleavings; tests run one thread.', AU + ' src/http_basic_auth.cpp src/http_cookie_auth.cpp include/pion/user.hpp', [('accounts', 'include/pion/user.hpp:user_manager'), ('caches', 'src/http_basic_auth.cpp:handle_request; src/http_cookie_auth.cpp:process_login, handle_request, expire_cache'), ('path lists', 'src/http_auth.cpp:add_restrict, add_permit, need_authentication')])
P('R02', 'A server can be changed and stopped while several threads serve requests', 'While threads handle connections and requests, others may add and remove resources and redirects, count connections, start, stop, join and clear the server: no memory is used by one thread while another changes it without something that orders the two, no thread waits for ever, and every request that is handled gets an answer.',
  'schedules inputs', 'every schedule of two or three threads within the switch bound', 'Data races and deadlocks appear only in particular interleavings; tests run one thread at a time.', 'src/http_server.cpp src/tcp_server.cpp src/http_reader.cpp src/http_writer.cpp include/pion/http/server.hpp include/pion/tcp/server.hpp include/pion/tcp/connection.hpp', [('resources and redirects', 'src/http_server.cpp:add_resource, remove_resource, add_redirect, handle_request, find_request_handler'), ('connections', 'src/tcp_server.cpp:listen, finish_connection, stop, get_connections')])
P('R03', 'Different messages can be processed in different threads', 'Parsing, encoding, writing and answering share nothing that changes: threads that work on different messages, parsers, writers and connections never use memory that another changes, whatever the messages contain, and get the results they get alone.',
  'schedules inputs', 'every pair of operations, every text up to the bound, every schedule within the switch bound', 'A hidden static buffer or lazily built table is harmless until two threads meet in it.', 'src/http_parser.cpp src/http_message.cpp src/http_writer.cpp src/http_server.cpp src/algorithm.cpp src/http_types.cpp', [('parser', 'src/http_parser.cpp'), ('writers and standard answers', 'src/http_writer.cpp; src/http_server.cpp:handle_bad_request, handle_not_found_request, handle_server_error, handle_forbidden_request, handle_method_not_allowed'), ('encodings', 'src/algorithm.cpp; src/http_types.cpp')])
P('R04', 'A scheduler can be used by several threads at once', 'Threads may come and go as users, post work, start the scheduler and shut it down at the same time as its workers run: no memory is used by one thread while another changes it without something that orders the two, and no thread waits for ever.',
  'schedules', 'every pair of operations besides one or two workers, every schedule within the switch bound, both kinds of scheduler', 'Data races and deadlocks appear only in particular interleavings.', 'src/scheduler.cpp include/pion/scheduler.hpp', [('users, start and shutdown', 'src/scheduler.cpp:add_active_user, remove_active_user, startup, shutdown'), ('services', 'include/pion/scheduler.hpp:get_io_service, post, stop_threads, finish_services')])
FI = 'services/FileService.cpp services/FileService.hpp'
P('F01', 'A file service never leaves its directory', 'Whatever path a request names, and however the directory was given, the file service neither looks at, reads, writes nor deletes anything outside the directory it was told to serve. Paths that lead out of it are answered with 403, directories with 403, files in it are served with exactly their content, and paths to nothing with 404.',
  'inputs', 'every path of the shapes listed up to the bound, plain and percent-encoded, for all methods and ways to give the directory', 'Traversal needs particular paths next to particular directories; the service has no tests here.', FI + ' include/pion/http/plugin_service.hpp src/algorithm.cpp', [('containment', 'services/FileService.cpp:operator()'), ('relative path', 'include/pion/http/plugin_service.hpp:get_relative_resource')])
P('F02', 'A file is served as it is, whatever the cache holds', 'A GET is answered with the complete current content of the file, its modification time and the type its extension says; a HEAD with the same but no content; one made conditional on the time last seen with 304 exactly if that is still the time of the file. Only a service told to ignore changes may answer with what the file held before. Files removed are gone, files added later are served unless additions were excluded, and a file that cannot be read is answered with an error or the end of the connection, never with anything else, and never with nothing.',
  'histories inputs fault_sequences', 'every history of requests, changes and read failures up to the bound, every cache, scan and chunk setting, any content', 'Cache staleness needs a sequence of requests, changes and failures in between.', FI + ' src/http_writer.cpp', [('cache', 'services/FileService.cpp:operator(), DiskFile::checkUpdated, DiskFile::read'), ('sending', 'services/FileService.cpp:DiskFileSender::send, handle_write')])
P('F03', 'Files are written and deleted exactly as requested, or an error is reported', 'If writing is allowed, PUT makes the file hold exactly the bytes sent, POST appends exactly them and DELETE removes it; what was written is what the next GET returns. Success is reported exactly if the change was made: a missing directory, a file or directory that cannot be written or a full disk is an error. If writing is not allowed nothing changes and the answer is 405. No other file changes.',
  'histories inputs fault_sequences', 'every sequence of requests up to the bound, every content, with each of the failures', 'Failing disks and requests within the same second are out of reach of tests.', FI, [('write and delete', 'services/FileService.cpp:operator()')])
PG = 'src/plugin.cpp include/pion/plugin.hpp'
P('G01', 'A plug-in library is loaded exactly while something refers to it', 'Opening a plug-in by name or file loads its library or finds the one loaded or linked in before; copies and assignments refer to the same one. The library stays loaded while any of them refers to it and is closed once, when the last one is closed, reassigned or destroyed. Objects are created and destroyed by the functions of the library named. An open that fails is reported and leaves nothing loaded, and none of this ever blocks.',
  'histories fault_sequences', 'every history of opening, closing, copying, assigning and creating up to the bound, with libraries that cannot be loaded or lack symbols', 'Reference counting errors need particular orders of operations.', PG, [('registry', 'src/plugin.cpp:open, open_file, release_data, grab_data'), ('loading', 'src/plugin.cpp:open_plugin, find_file, check_for_file')])
P('G02', 'A plug-in manager owns its plug-ins and finds them by the longest name', 'A manager keeps one plug-in for each identifier: it refuses duplicates when loading, destroys a plug-in exactly once, with the library it came from still loaded, when it is removed, replaced, cleared or the manager ends, and reports identifiers it does not have. A resource belongs to the plug-in with the longest identifier that equals it or that a slash follows in it, however many others there are.',
  'histories inputs', 'every history of changes up to the bound; every three identifiers and resource of the shapes listed', 'The search depends on how identifiers sort next to each other; leaks and double destruction on the order of operations.', 'include/pion/plugin_manager.hpp ' + PG, [('ownership', 'include/pion/plugin_manager.hpp:load, add, remove, replace, clone, clear'), ('search', 'include/pion/plugin_manager.hpp:find')])
P('G03', 'A service configuration file means what its lines say, or is refused', 'Loading a configuration file carries out each of its lines: services are bound to their resources, options reach their service with the name and value written, restricted resources need one of the users listed with the password written. Comments and blank lines mean nothing, commands may be written in any case, and lines end at a newline, a carriage return or the end of the file. A file with a line that makes no sense is refused.',
  'inputs', 'every file of the 29 shapes listed up to the bound', 'A line dropped without notice leaves a resource open; no test loads a configuration here.', 'src/http_plugin_server.cpp src/http_auth.cpp src/http_basic_auth.cpp include/pion/user.hpp', [('configuration', 'src/http_plugin_server.cpp:load_service_config')])
P('G04', 'Services live and run with the server they were added to', 'Each service is started once whenever its server starts, before it accepts connections, and stopped once whenever it stops; a service that fails to start keeps the server from starting. Requests reach the service of their resource and only that, with the path relative to it; options reach the service they name or are refused. Services are destroyed once, when they are cleared or with the server.',
  'histories', 'every history of starting, stopping, requests, options and clearing up to the bound', 'Life cycles need sequences of operations; the class has no tests here.', 'src/http_plugin_server.cpp include/pion/http/plugin_server.hpp include/pion/http/plugin_service.hpp include/pion/plugin_manager.hpp', [('life cycle', 'include/pion/http/plugin_server.hpp:before_starting, after_stopping, clear'), ('services', 'src/http_plugin_server.cpp:add_service, load_service, set_service_option')])
P('R05', 'Plug-ins can be opened and managed by several threads at once', 'Threads may open, copy and close plug-ins, search for them, register them and load, find, run, clone, replace, remove and clear plug-ins of one manager at the same time: no memory is used by one thread while another changes it without something that orders the two, no thread waits for ever, every object is destroyed once, and of two that load the same identifier exactly one succeeds.',
  'schedules', 'every pair of eighteen operations, every schedule within the switch bound', 'Data races appear only in particular interleavings; tests run one thread.', 'include/pion/plugin_manager.hpp ' + PG, [('registry', 'src/plugin.cpp:open, open_file, release_data, grab_data'), ('manager', 'include/pion/plugin_manager.hpp:load, get, find, run, remove, clear')])
P('R06', 'A file service can answer several threads at once', 'Threads may have requests for the same and for different files answered, and files written and deleted, by one file service at the same time: no memory is used by one thread while another changes it without something that orders the two, no thread waits for ever, and each answer has the content of the file asked for.',
  'schedules', 'every pair of seven operations, every schedule within the switch bound, four settings of the cache', 'Data races in the cache appear only in particular interleavings.', FI, [('cache', 'services/FileService.cpp:operator(), start, stop')])
P('N01', 'A stream carries bytes completely and in order', 'What is written to a stream arrives at the other end completely and in order, at the latest when it is flushed or destroyed, and what arrives is read in order and without loss; up to ten bytes can be put back. A stream ends only when the connection does. After a failure it can be used again: nothing is sent twice, left out in the middle or read twice, and its buffers are never left.',
  'inputs histories fault_sequences schedules', 'every sequence of operations up to the bound, every content, every division into pieces, every place of failure, early ends of waits, and a second thread that completes the operations', 'Partial writes, failures in the middle of a buffer and waits that end early do not occur over loopback.', 'include/pion/tcp/stream.hpp include/pion/tcp/connection.hpp', [('writing', 'include/pion/tcp/stream.hpp:overflow, xsputn, flush_output, sync'), ('reading', 'include/pion/tcp/stream.hpp:underflow, xsgetn'), ('waiting', 'include/pion/tcp/stream.hpp:operation_finished')])
P('N02', 'A client gets the answer to its request, once, and knows whether to go on', 'A request is sent as it is and its writing reported once. The answer is reported once, after its headers, with exactly the content sent, however it arrives in pieces and however its end is marked; bytes that follow belong to the next answer. Afterwards the connection is kept exactly if the answer says so. An answer that is cut short, broken or late is reported once, as an error, unless the close marks its end, and the connection is not used again. No time limit runs on after the answer.',
  'inputs schedules fault_sequences', 'every pair of answers of seven kinds, every division, every place of an end, error, time limit or wrong byte', 'The place where an answer is divided or cut decides; loopback tests see one.', 'include/pion/http/request_writer.hpp include/pion/http/response_reader.hpp src/http_reader.cpp src/http_writer.cpp src/http_parser.cpp', [('sending', 'src/http_writer.cpp:prepare_write_buffers; include/pion/http/request_writer.hpp:handle_write'), ('receiving', 'src/http_reader.cpp:consume_bytes, handle_read_error; include/pion/http/response_reader.hpp:finished_reading')])
P('N03', 'A connection is made to the first address that answers, or the failure is told', 'Connecting to a name tries the addresses found for it in order until one answers, and afterwards tells that address; if none does, or the name is not known, the reason is returned and the connection is not open. A stream is connected exactly if the connection and, for SSL, the handshake succeed.',
  'inputs fault_sequences', 'every number of addresses up to the bound and every set of those that refuse', 'Names with several addresses, some of which refuse, are not available to tests.', 'include/pion/tcp/connection.hpp include/pion/tcp/stream.hpp', [('connecting', 'include/pion/tcp/connection.hpp:connect, ssl_handshake_client'), ('streams', 'include/pion/tcp/stream.hpp:connect')])
P('N05', "A connection's own reads and writes transfer exactly what they say", 'Reading from a connection puts the bytes that arrived, in order and nothing else, where they were asked for, and never beyond; it ends without an error exactly if as many as wanted came, and otherwise tells the end of the stream or the error, once. Writing takes all buffers completely and in order, or tells the error and how much was taken. Operations that are started are reported once, later. Bytes go through SSL exactly if the connection uses it. What a connection waits for ends when it is cancelled or closed, and closing is final and harmless.',
  'inputs histories fault_sequences', 'every byte, segmentation, sequence of operations, and place of an error within the bound', 'Short reads, partial writes and errors in the middle do not occur with tests on one machine; none covers the SSL paths.', 'include/pion/tcp/connection.hpp', [('reading', 'include/pion/tcp/connection.hpp:read_some, read, async_read_some, async_read'), ('writing', 'include/pion/tcp/connection.hpp:write, async_write'), ('life', 'include/pion/tcp/connection.hpp:async_connect, async_accept, cancel, close')])
P('X01', 'The bundled services answer every request, and nothing sent turns into markup', 'Each of the echo, cookie, hello, log and allow-nothing services gives every request exactly one complete answer and leaves the connection usable. The echo service returns exactly what was sent. In the page of the cookie service nothing the client sent is taken for markup, or for another header of the answer; what it shows and links to decodes to what was sent, and exactly the cookies asked for are set or deleted. The log keeps the last entries, as many as it was told to.',
  'inputs', 'every path, query, header, cookie and content up to the bound', 'Injection needs particular bytes at particular places; the services have no tests here.', 'services/EchoService.cpp services/CookieService.cpp services/HelloService.cpp services/LogService.cpp services/AllowNothingService.cpp', [('echo', 'services/EchoService.cpp:operator()'), ('cookies', 'services/CookieService.cpp:operator()'), ('log', 'services/LogService.cpp:addLogString')])
P('P03', 'A process waits until it is told to shut down, and can go into the background', 'Threads that wait for the shutdown of the process go on exactly when it has been announced, by any thread and however often, before, while or after they begin to wait. Interrupting or terminating the process announces it, whenever the signal arrives; a closed connection, a child or the terminal never end it. Going into the background leaves one process, in a session of its own, with nothing open but the standard streams, which lead nowhere, and files it creates closed to others; the old process ends, with an error if there is no new one, and a daemon stays as it is.',
  'schedules inputs fault_sequences', 'every schedule of the threads within the switch bound, every place where a signal arrives, every set of open descriptors up to the bound', 'Lost wake-ups and signals at the wrong moment need particular schedules; tests cannot fork.', 'src/process.cpp include/pion/process.hpp', [('waiting', 'src/process.cpp:shutdown, wait_for_shutdown'), ('signals', 'src/process.cpp:initialize, handle_signal'), ('background', 'src/process.cpp:daemonize')])
P('D01', 'The programs serve what their command line says, or say why not and end', 'piond listens on the address and port asked for, on port 8080 of every address if nothing is said, with the key asked for exactly if encryption was asked for, and the service asked for, found among those linked in or in a library of a directory given, serves its resource after it got every option in the order written; or the services of the configuration file do. It goes on until the process is told to shut down and then reports success and leaves nothing behind. A command line that makes no sense (an unknown or incomplete option, a malformed address, a port above 65535, a missing resource or service) starts nothing; if the server cannot be started, failure is reported. helloserver greets every connection on the port asked for and closes it.',
  'inputs fault_sequences', 'every argument of the given shapes with arbitrary digits or bytes; the address free or taken', 'The programs are in no test, and numbers that do not fit or bytes that cannot be are not what one tries.', 'utils/piond.cpp utils/helloserver.cpp src/http_plugin_server.cpp src/tcp_server.cpp', [('command line', 'utils/piond.cpp:main'), ('greeting', 'utils/helloserver.cpp:main, HelloServer')])
P('N04', 'A time limit ends what a connection waits for when it has passed, not otherwise', 'A timer cancels the operations of its connection exactly when the time given at its last start has passed without the timer having been cancelled or started again since, whichever threads start, cancel and fire it and however these events are queued; it can be started again at any time, and lives until it is over.',
  'histories schedules', 'every history of starts, cancellations, times that pass and handlers that run up to the bound; every schedule of two threads within the switch bound', 'The order in which a deadline, its handler and a cancellation happen is not under the control of tests.', 'include/pion/tcp/timer.hpp src/tcp_timer.cpp include/pion/tcp/connection.hpp', [('timer', 'src/tcp_timer.cpp:start, cancel, timer_callback')])
