"""Per-property job tables: which harness entries decide the property, with which bounds per tier."""
import json, os
VD = os.path.dirname(os.path.abspath(__file__))
def known_findings(pid):
    out = []
    for l in open(VD + '/known_findings.jsonl'):
        l = l.strip()
        if l:
            d = json.loads(l)
            if d['property'] == pid: out.append(d)
    return out
def R(*a): return [(i,) for i in range(*a)]
def J(entry, quick, thorough=(), **k): return dict(entry=entry, quick=list(quick), thorough=list(thorough), **k)
PROPS = {}
ALG = ['src/algorithm.cpp']
PROPS['C01'] = dict(harness='codec.cpp', srcs=ALG, bounds='round trip: every byte string of length 0..9 (thorough 0..15); decoder: every byte string of length 0..6 (thorough 0..9); one arbitrary character at each position of a 3-group text',
    jobs=[J('b64_roundtrip', R(10), R(10, 16)), J('b64_decode_any', R(7), R(7, 10)), J('b64_decode_at', [(3, i) for i in range(12)], [(12, i) for i in range(0, 48, 5)])], must_reach=['decoded', 'rejected'])
PROPS['C02'] = dict(harness='codec.cpp', srcs=ALG, bounds='encode/decode round trip: every NUL-free byte string of length 0..4 (thorough 6); decoder: every byte string of length 0..6 (thorough 8)',
    jobs=[J('url_roundtrip', R(5), R(5, 7)), J('url_decode_any', R(7), R(7, 9))])
PROPS['C03'] = dict(harness='codec.cpp', srcs=ALG, bounds='every byte string of length 0..4 (thorough 5); windows of 1..4 arbitrary bytes between valid text',
    jobs=[J('xml_any', R(5), R(5, 6)), J('xml_window', R(1, 5), [])])
PROPS['C04'] = dict(harness='codec.cpp', srcs=ALG, bounds='all 2^64 values / all 8-byte buffers (no loop depends on the value)', jobs=[J('ints', [()]), J('ints_from', [()])])
HTTP = ['src/http_parser.cpp', 'src/http_types.cpp', 'src/http_message.cpp', 'src/algorithm.cpp', 'src/logger.cpp']
NREQ, NRES = 36, 15
TPL = [(1, i) for i in range(NREQ)] + [(0, i) for i in range(NRES)]
PROPS['H01'] = dict(harness='parser.cpp', srcs=HTTP, bounds='51 request/response texts that together enter every parser state, each with 2..4 arbitrary bytes; content limit 1 MB and 2; one parse call, then end of stream',
    jobs=[J('p_safe', TPL + [(r, i, 3) for r, i in TPL if (r and i >= 20) or (not r and i >= 8)])], must_reach=['error', 'done', 'more'])
PROPS['H02'] = dict(harness='parser.cpp', srcs=HTTP, bounds='the same 51 texts; split after every byte and split in two at an arbitrary position, against one piece', jobs=[J('p_bytes', TPL), J('p_split', [(r, i, 0, i % 2) for r, i in TPL if (r, i) not in ((1, 20), (1, 22), (1, 24), (1, 25), (0, 10))], [(1, 20), (1, 22), (1, 24), (1, 25, 0, 1), (0, 10)] + [(r, i, 0, 1 - i % 2) for r, i in TPL] + [(r, i, 3, 0) for r, i in TPL])])
G = dict(harness='grammar.cpp', srcs=HTTP)
PROPS['H03'] = dict(G, bounds='method 1..3, path 1..3, query 0..2 arbitrary legal bytes, versions of 1..4 digits, both line endings; status messages 0..3, all codes 100..999; all single forbidden bytes at 25 places',
    jobs=[J('g_request', [(a, b, c, e) for a in (1, 3) for b in (1, 3) for c in (0, 1, 3) for e in (0, 1) if a + b + c < 8], [(4, 5, 4, 0), (2, 6, 3, 1)]), J('g_version', [(r, a, b) for r in (0, 1) for a, b in ((1, 2), (2, 1), (3, 4), (4, 3))]), J('g_simple', [(n, s) for n in (0, 2) for s in (0, 1)]), J('g_status', [(n, e, h, 1) for n in (0, 3) for e in (0, 1) for h in (0, 1)] + [(0, 0, 0, 0)]), J('g_reject', R(25)), J('g_head_chunked', [(0,), (1,)])], must_reach=['implied', 'until close'])
PROPS['H04'] = dict(G, bounds='three header lines, names 1..2 and values 0..2 arbitrary legal bytes (thorough 3/3), both line endings and any mix of them, three ways to separate name and value, requests and responses',
    jobs=[J('g_headers', [(1, 1, 1, 1, 0, 1), (1, 2, 1, 0, 1, 0), (2, 1, 1, 1, 0, 0), (1, 0, 2, 1, 0, 1), (2, 0, 2, 0, 0, 1), (3, 0, 1, 0, 1, 1), (1, 1, 1, 1, 2, 0), (1, 0, 1, 1, 2, 1), (1, 2, 1, 1, 0, 1, 1), (1, 2, 1, 0, 1, 0, 2), (2, 1, 1, 1, 2, 1, 1), (1, 1, 1, 0, 0, 0, 1)], [(2, 2, 2, 2, 0, 1), (3, 1, 3, 1, 0, 0)]), J('g_raw', R(0, 3)), J('g_headers_only', R(6))], must_reach=['absent'])
PROPS['H05'] = dict(G, bounds='announced length 0..4 (thorough 6), 0..6 arbitrary bytes sent, limits none/0/2, with and without payload handler, split anywhere; lengths 6..9 with limits 3..5 split in three anywhere; header texts of 0..3 arbitrary characters; 13 extreme numbers',
    jobs=[J('g_length', [(r, s, l, n, h) for r in (0, 1) for n in (0, 1, 4) for s in (0, 3, 5) for l, h in ((0, 0), (3, 0), (0, 1), (1, 0))] + [(r, s, l, n, h, 1) for r, s, l, n, h in ((1, 8, 5, 7, 0), (0, 7, 6, 9, 0), (1, 8, 0, 7, 1), (0, 9, 5, 8, 0), (1, 6, 4, 6, 1), (1, 7, 0, 7, 0))], [(1, s, l, 6, h) for s in (5, 6, 7) for l, h in ((0, 0), (4, 0), (0, 1))]), J('g_length_text', [(n, r) for n in range(3) for r in (0, 1)], [(3, 1)]), J('g_length_huge', [(i, r) for i in range(13) for r in (0, 1)])], must_reach=['complete', 'truncated', 'number', 'not a number'])
PROPS['H06'] = dict(G, bounds='0..3 chunks of 1..3 (and one of 17) arbitrary bytes, four size spellings, footer 0..2 bytes, limits none/0/2, with and without payload handler, split anywhere; one forbidden byte at each framing place',
    jobs=[J('g_chunks', [(1, 1, 2, 3, 0, 0, 0, 0), (0, 2, 0, 0, 1, 1, 0, 0), (1, 3, 1, 0, 2, 3, 0, 0), (1, 2, 1, 0, 4, 0, 0, 1), (1, 2, 2, 0, 8, 2, 0, 1), (0, 0, 0, 0, 0, 0, 0, 0), (1, 3, 2, 0, 0, 0, 3, 0), (1, 2, 0, 0, 0, 2, 1, 0), (1, 17, 0, 0, 0, 0, 0, 0), (1, 10, 2, 0, 1, 0, 0, 0), (0, 0, 0, 0, 0, 2, 0, 1), (0, 3, 3, 3, 11, 2, 5, 0), (1, 6, 5, 0, 0, 0, 9, 0), (1, 2, 1, 0, 16, 0, 0, 0), (0, 1, 0, 0, 17, 0, 0, 1)], [(1, 33, 15, 1, s, 2, 0, h) for s in (0, 3, 11) for h in (0, 1)]), J('g_chunk_size', R(1, 4)), J('g_chunk_bad', R(8)), J('g_chunked_header', R(9)), J('g_head_chunked', [(0,), (1,)])], must_reach=['chunked', 'not chunked', 'implied'])
PROPS['H07'] = dict(G, bounds='six messages cut after every byte; announced lengths 3..6 with limits 0..9, cut anywhere; bodies without length of 0..7 arbitrary bytes in three pieces, limits none/0/4, with and without payload handler', jobs=[J('g_eof', R(6)), J('g_cut', [(n, l, r) for r in (0, 1) for n, l in ((3, 9), (6, 2), (6, 5), (5, 0))]), J('g_until_close', [(n, l, h) for n in (0, 3, 7) for l, h in ((0, 0), (5, 0), (1, 0), (0, 1))])])
PROPS['H08'] = dict(G, bounds='method, header name, status message, resource, query string and header value at exactly their limits of 1 KB to 1 MB and one above', jobs=[J('g_limits', [(p, o) for p in range(6) for o in (0, 1)], steps=200000000, time=60)])
PROPS['H09'] = dict(G, bounds='content of 5 arbitrary bytes (fixed length, chunk, until close), gap of 0..6 bytes after 0..5 of them, limits none/3, with and without payload handler; any gap length in headers or framing',
    jobs=[J('g_missing', [(k, b, l, h) for k in range(3) for b in (0, 1, 3, 4) for l, h in ((0, 0), (4, 0), (0, 1))]), J('g_missing_header', R(6))], must_reach=['bridged', 'too much'])
F = dict(harness='forms.cpp', srcs=HTTP)
PROPS['H10'] = dict(F, bounds='six schemes, hosts 0..2, ports of 0..5 digits, paths 0..2, queries 0..2 arbitrary legal bytes; any 5-byte text', jobs=[J('f_uri', [(p, h, o, a, q) for p in range(6) for h in (1, 2) for o, a, q in ((0, 0, 0), (0, 3, 2), (2, 1, 0))] + [(1, 0, 0, 1, 0), (1, 1, 2, 2, 3), (0, 2, 4, 0, 0), (1, 1, 1, 3, 1)], [(1, 1, 5, 1, 0)]), J('f_uri_any', R(4), time=120)], must_reach=['rejected', 'port'])
PROPS['H11'] = dict(F, bounds='every byte string of length 0..3 (thorough 4) and six patterns with 2..4 arbitrary bytes; round trip of 1..2 parameters, names 1..2, values 0..2 NUL-free bytes; 1 KB name limit', jobs=[J('f_urlenc', [(n, 0) for n in range(4)] + [(0, k) for k in range(1, 7)], [(4, 0)]), J('f_query_roundtrip', [(1, 0), (1, 1), (2, 1), (1, 2), (1, 1, 1, 1)], [(2, 2), (1, 1, 1, 2)]), J('f_urlenc_limit', [(0,), (1,)]), J('f_request_form', [(c, k, k) for c in range(3) for k in (0, 1)])], must_reach=['ok', 'bad', 'form', 'odd form'])
PROPS['H12'] = dict(F, bounds='two cookies, names 1..2 and values 0..2 arbitrary legal bytes, four separators, three quotings; any 4 bytes; three headers, the first with up to 2 arbitrary bytes; made headers with names 1..2, values 0..3, paths 0..2', jobs=[J('f_cookie', [(1, 1, 1, 1, s, q, k) for s in range(4) for q in range(3) for k in (0, 1)] + [(2, 2, 1, 0, 0, 0, 0), (1, 0, 2, 2, 0, 1, 1)]), J('f_cookie_any', [(n, k) for n in range(1, 4) for k in (0, 1)] + [(0, k, t) for k in (0, 1) for t in (1, 2, 3)], [(4, 0), (4, 1)]), J('f_setcookie', [(1, 0, 0, 0), (2, 2, 2, 1), (1, 3, 3, 0), (4, 1, 1, 1), (1, 1, 2, 1)]), J('f_cookie_headers', [(t, r) for t in range(4) for r in (0, 1)])], must_reach=['odd header', 'several headers'])
PROPS['H13'] = dict(F, bounds='two- and three-field forms, name 0..2, values 0..3 arbitrary bytes, text/binary/no type; 11 malformed forms with 3..4 arbitrary bytes; three content-type texts', jobs=[J('f_multipart', [(n, a, b, t, f) for n, a, b in ((1, 0, 0), (2, 1, 3), (1, 3, 1), (0, 1, 1), (1, 2, 2)) for t in range(3) for f in (0, 1)] + [(1, 1, 1, t, f) for t in range(3) for f in (4, 5)]), J('f_multipart_any', R(11)), J('f_multipart_type', R(3)), J('f_request_form', [(3, 0, 1), (3, 1, 0)])], must_reach=['parsed', 'form'])
PROPS['H14'] = dict(F, bounds='0..7 arbitrary bytes, type names 0..2; eight texts with 1..5 arbitrary bytes', jobs=[J('f_datauri', [(n, t) for n in range(8) for t in (0, 2) if n < 5 or t == 0]), J('f_datauri_any', R(8), time=120)], must_reach=['ok', 'rejected'])
PROPS['H15'] = dict(F, bounds='first address with every combination of octets of the given digit counts, followed and preceded by other text; four headers with 1..4 arbitrary bytes', jobs=[J('f_forwarded', [(2, 1, 1, 1, k, p) for k in range(5) for p in (0, 1)] + [(3, 3, 1, 1, 0, 0), (3, 2, 1, 2, 1, 2), (1, 2, 3, 1, 3, 3), (2, 3, 2, 3, 2, 0), (3, 3, 2, 2, 4, 1)]), J('f_forwarded_any', R(4))], must_reach=['public', 'skipped', 'none'])
PROPS['H16'] = dict(harness='parser.cpp', srcs=HTTP, bounds='the 51 texts of H01 after one of five other messages, finished or abandoned midway', jobs=[J('p_reset', [(r, i, 0, (i * 3 + r) % 5) for r, i in TPL], [(r, i, 0, k) for r, i in TPL for k in range(5)])])
S = dict(harness='spdy.cpp', srcs=['src/spdy_parser.cpp', 'src/spdy_decompressor.cpp', 'src/algorithm.cpp', 'src/logger.cpp'], assumptions=['zlib is a stand-in: inflate reads all its input and yields arbitrary bytes up to the bound, or fails'])
PROPS['S01'] = dict(S, bounds='packets of 12..20 arbitrary bytes (data frames 8..20), uncompressed header blocks of 0..6 arbitrary bytes; header blocks of 0..9 bytes with arbitrary lengths inside', jobs=[J('s_any', [(n, b) for n, b in ((8, 0), (11, 0), (12, 2), (14, 4), (15, 0), (16, 3), (20, 6))] + [(n, 4, t) for n in (16, 19) for t in range(1, 9)]), J('s_short', [(1,), (4,), (8,), (11,)]), J('s_block_any', [(n, 0) for n in range(7)] + [(7, 1), (9, 1), (6, 3), (8, 3)])], must_reach=['more', 'done', 'error', 'fits', 'truncated'])
PROPS['S02'] = dict(S, bounds='every frame kind with 0..12 arbitrary payload bytes and 0..9 bytes after it, all header bits; data frames of 65536, 65539 and 131075 bytes; three-frame packets', jobs=[J('s_fields', [(0, n, a) for n in (0, 1, 5) for a in (0, 1, 9)] + [(k, n, a) for k in (3, 4, 5, 6, 7, 9, 10) for n in (4, 8, 12) for a in (0, 8)] + [(1, 12, 0), (2, 8, 3), (8, 8, 0)]), J('s_large', [(65536, 0), (65539, 2), (131075, 1)]), J('s_reject', [()]), J('s_walk', [(0, 0, 3, 0, 1, 0), (4, 6, 0, 0, 5, 0), (2, 0, 8, 3, 4, 7), (4, 7, 4, 9, 2, 0)])], must_reach=['accepted', 'goaway', 'large'])
PROPS['S03'] = dict(S, bounds='0..2 name/value pairs of 0..3 arbitrary bytes, three frame types, all stream identifiers, with and without dictionary', jobs=[J('s_headers', [(t, 0) for t in (1, 2, 8)] + [(t, 1, a, b) for t in (1, 2, 8) for a, b in ((1, 0), (3, 3), (0, 2))] + [(t, 2, 1, 1, 2, 2) for t in (1, 2, 8)] + [(1, 2, 2, 0, 2, 1)])])
M = dict(harness='message.cpp', srcs=HTTP)
PROPS['M01'] = dict(M, bounds='three or four operations (adds, then add/change/delete) on headers, cookies and query parameters, keys of 1..2 and values of 0..2 arbitrary ASCII bytes; key pairs of 0..3 arbitrary bytes for equality and hashing', jobs=[J('m_dict', [(1, 1, 1, w, o, 1) for w in range(3) for o in range(3)] + [(2, 1, 2, w, o, 2) for w, o in ((0, 0), (1, 1), (2, 2))] + [(1, 1, 1, w, o, 1, 1) for w, o in ((0, 1), (1, 2), (2, 1))]), J('m_hash', [(a, b) for a in range(4) for b in range(a, 4) if a == b or b < 3])], must_reach=['present', 'absent', 'equal'])
PROPS['M02'] = dict(M, bounds='method 2, resource 2, query 0..2, status message 0..2, header name 1..2, value 0..2, content 0..3 arbitrary bytes, all status codes 100..899, four versions; streams and connections', jobs=[J('m_roundtrip', [(r, c, n, a, b, v, h, k, x, 0, t) for i, (n, a, b, v, x) in enumerate(((0, 1, 1, 0, 0), (3, 2, 0, 1, 2), (1, 1, 2, 2, 1), (2, 1, 1, 3, 0))) for r in (0, 1) for c in (0, 1) for h, k, t in ((0, i % 2, 0), (1, 1 - i % 2, i % 2), (0, 1, 1))]), J('m_params', [(k, a, b) for k in (0, 1) for a, b in ((1, 0), (1, 1))]), J('m_narrow', [(0, 2), (1, 0), (1, 3)])], must_reach=['fits', 'fails'])
PROPS['M03'] = dict(M, bounds='request and response with one arbitrary byte in every text field and content of 0..3 arbitrary bytes; every combination of six settings', jobs=[J('m_copy', [(r, h, n) for r in (0, 1) for h in range(5) for n in (0, 3)]), J('m_copy2', [(r, h) for r in (0, 1) for h in range(5)])])
PROPS['M04'] = dict(M, bounds='all 2^32 versions, all 2^32 status codes, connection headers of 0..6 ASCII characters, methods of 0..5 arbitrary bytes', jobs=[J('m_keepalive', [(n, 1) for n in range(7)] + [(0, 0)]), J('m_implied', R(6))], must_reach=['close', 'simple', 'none', 'content'])
PROPS['M05'] = dict(M, bounds='every pair of six messages, received in up to three segments split anywhere, the second into a new or the same object; six messages cut after every byte; content limits', jobs=[J('m_pipeline', [(a, b, 0) for a in range(6) for b in range(6)] + [(a, b, 1) for a in range(3) for b in range(4)] + [(1, 0, 2), (2, 1, 2)]), J('m_cut', [(k, e) for k in range(6) for e in (0, 1)]), J('m_close', [(n, e) for n in range(4) for e in range(3)]), J('m_limit', [(n, l) for n in (0, 3, 5) for l in (0, 2, 3, 9)]), J('m_head', [()])], must_reach=['pipelined', 'kept'])
PROPS['W01'] = dict(harness='writer.cpp', srcs=HTTP + ['src/http_writer.cpp'], bounds='two or three pieces of 0..3 arbitrary bytes (text, copied and uncopied strings and binary, numbers, in every order of two), preset content of 0..2 bytes; plain, chunked, final chunk only; versions 0.9 to 2.0; HEAD, 204, 304; four chunks for the memory claim',
    jobs=[J('w_response', [(a, b, c, n, m, v, 0, k, 0, p) for a, b, c, n in ((0, 1, 2, 2), (1, 2, 3, 3), (3, 0, 4, 1), (5, 1, 0, 0)) for m in (0, 1, 2) for v, k, p in ((11, 1, 0), (10, 0, 1), (20, 1, 0), (12, 1, 2))] + [(0, 1, 2, 2, m, v, h, 1, s, 0) for m in (0, 1, 2) for v in (11, 20) for h, s in ((1, 0), (0, 204), (0, 304), (1, 404))] + [(9, 9, c, 2, m, v, 0, 1, 0, p) for c, m, v, p in ((1, 0, 11, 0), (4, 0, 10, 1), (2, 1, 11, 0), (0, 2, 20, 0))]), J('w_request', [(a, b, n, m, p) for a, b, n in ((0, 1, 2), (1, 2, 3), (3, 0, 0), (5, 3, 1)) for m in (0, 1) for p in (0, 2)] + [(9, 9, 1, m, m) for m in (0, 1)]), J('w_large', [(n, c) for n in range(8) for c in (0, 1)], steps=200000000, time=60), J('w_error', [(a, b) for a in (0, 1) for b in (0, 1)]), J('w_leak', [()])])
SERVER = HTTP + ['src/http_server.cpp', 'src/http_auth.cpp', 'src/tcp_server.cpp', 'src/tcp_timer.cpp', 'src/http_reader.cpp', 'src/http_writer.cpp', 'src/scheduler.cpp', 'src/admin_rights.cpp']
V = dict(harness='serve.cpp', srcs=SERVER)
PROPS['V01'] = dict(V, bounds='three registered resources and a requested one of 1..4 arbitrary characters each, with and without trailing slashes, one removed again; every graph of one or two redirects over four names; chains of 10 and 11', jobs=[J('v_route', [(1, 1, 1, 1, 0, 0), (1, 2, 0, 3, 1, 0), (1, 1, 2, 2, 2, 1)]), J('v_redirect', [(1,), (2,)]), J('v_chain', [(10,), (11,)])], must_reach=['found', 'not found', 'loop', 'nothing', 'target'])
PROPS['V02'] = dict(V, bounds='two requests on one connection, each accepted or refused, direct, redirected up to four times, redirected to nothing and to a loop', jobs=[J('v_auth', R(7))])
PROPS['V03'] = dict(V, bounds='requests with 1 arbitrary byte at each of 7 places or 3 arbitrary bytes in all; resources and failure texts of 1..2 arbitrary bytes; eight ways to fail', jobs=[J('v_error', [(w, 1, 1, 0) for w in (0, 1, 2, 4, 6, 7, 8)] + [(5, 1, 0, 2)]), J('v_badalloc', [()]), J('v_bad', [(i, 0) for i in range(7)] + [(0, 3)])], must_reach=['rejected', 'handled'])
PROPS['V04'] = dict(V, bounds='three pipelined requests (GET, HEAD, POST with 2 arbitrary bytes, 1.0, unknown resource, Connection: close) with four handler styles, in one piece, request by request, or split anywhere; two clients in every order of six steps; content of 0..5 arbitrary bytes against limits 0..3', jobs=[J('v_pipe', [(a, b, 0, st, sp) for a in (0, 2, 4, 5) for b in (0, 1, 3) for st in range(4) for sp in (0, 2) if st < 3 or a == 0] + [(a, b, 2, st, 1) for a, b, st in ((0, 2, 0), (2, 0, 1), (5, 0, 0), (4, 2, 2), (2, 2, 3))]), J('v_two', [(s, a, b) for s in (0, 1, 2) for a, b in ((0, 0), (2, 1), (0, 2))]), J('v_limit', [(n, l, s) for n in (0, 3, 5) for l in (0, 2, 3) for s in (0, 1)])], must_reach=['open', 'closed'])
PROPS['V05'] = dict(V, bounds='a request cut at every position, fresh or reused connection, expiry before, after and without the rest', jobs=[J('v_timeout', [(h, b) for h in range(3) for b in (0, 1)]), J('v_working', [(0,), (1,), (9,)])], must_reach=['late', 'in time'])
PROPS['T01'] = dict(harness='tcp.cpp', srcs=SERVER, bounds='three steps of eight kinds, four steps of five kinds (thorough: five), plain and SSL', jobs=[J('t_history', [(3, 0, 0), (3, 1, 0), (4, 0, 0x8e), (4, 1, 0x0e)], [(5, 0, 0x8e), (5, 1, 0x0e), (4, 0, 0), (4, 1, 0)])], must_reach=['refused', 'kept', 'orphan', 'stopped', 'restarted', 'not bound'])
PROPS['T02'] = dict(harness='sched.cpp', srcs=['src/scheduler.cpp', 'src/logger.cpp'], bounds='up to three user threads and one or two worker threads, three preemptive switches less the number of workers (thorough: one more), both kinds of scheduler; three restarts', jobs=[J('t_restart', [(0,), (1,)])] + [J(e, [(k, n, 3 - n) for k in (0, 1) for n in (1, 2)], [(k, n, 4 - n) for k in (0, 1) for n in (1, 2)]) for e in ('t_work', 't_users', 't_late', 't_count')] + [J('t_down', [(0, 1, 1), (1, 1, 1)], [(0, 1, 2), (1, 1, 2), (0, 2, 1), (1, 2, 1)])] + [J('t_reenter', [(k, 0, 2) for k in (0, 1)])], must_reach=['restarted'])
PROPS['P01'] = dict(harness='rights.cpp', srcs=['src/admin_rights.cpp', 'src/logger.cpp'], bounds='all real, effective and saved user identifiers; five ways of giving back; three threads with two preemptive switches (thorough four)', jobs=[J('r_rights', R(5)), J('r_threads', [(0, 2), (1, 2)], [(0, 4), (1, 4)])], must_reach=['obtained', 'refused'])
PROPS['P02'] = dict(harness='rights.cpp', srcs=['src/admin_rights.cpp', 'src/logger.cpp'], bounds='names of 1..3 letters, identifiers of 1..2 digits, four password fields, all process identities; eight odd files', jobs=[J('r_find', [(g, d, n, p, o) for g in (0, 1) for d, n, p, o in ((1, 1, 0, 0), (2, 2, 1, 0), (1, 2, 2, 1), (2, 0, 0, 0), (1, 1, 3, 0))] + [(g, 1, n, 0, 0, r) for g in (0, 1) for n, r in ((1, 1), (2, 1), (2, 2), (3, 2))]), J('r_file', R(8))], must_reach=['unknown', 'changed', 'not allowed'])
AUTH = SERVER + ['src/http_basic_auth.cpp', 'src/http_cookie_auth.cpp']
A = dict(harness='auth.cpp', srcs=AUTH, symsrc=['sha.cpp'], assumptions=['SHA-1 and SHA-256 are stand-ins without collisions between passwords of up to 15 bytes'])
PROPS['A02'] = dict(A, bounds='eleven histories of three operations on names of 1..2 and passwords of 0..2 arbitrary bytes; two arbitrary characters at five places of a digest; odd lengths', jobs=[J('a_users', [(36, 0, 0, 0, 1), (6, 1, 1, 0, 2), (12, 2, 2, 0, 1), (72, 0, 1, 0, 2), (177, 1, 1, 0, 1), (96, 0, 2, 0, 2), (147, 1, 1, 0, 1), (42, 2, 0, 0, 2), (157, 1, 1, 0, 1), (195, 0, 1, 0, 2), (126, 1, 2, 0, 1)]), J('a_digest', [(0, 0), (0, 31), (0, 62), (1, 0), (1, 38), (2, 0), (2, 39), (2, 41), (2, 63), (2, 62)])], must_reach=['match', 'no match', 'good', 'refused'])
PROPS['A01'] = dict(A, bounds='ten combinations of up to two restricted and two permitted paths of 0..3 arbitrary characters and requests of 1..4, with and without trailing slashes; with users, without, and after removing the last', jobs=[J('a_paths', [(1, 2, 9, 9, 3, 0, 1), (1, 9, 3, 9, 4, 1, 1), (1, 1, 2, 9, 3, 2, 1), (0, 9, 1, 1, 2, 0, 1), (0, 9, 0, 9, 1, 16, 1), (2, 9, 9, 9, 3, 17, 1), (9, 9, 1, 9, 2, 0, 1), (1, 9, 9, 9, 1, 0, 0), (1, 9, 9, 9, 1, 0, 2), (1, 3, 2, 3, 4, 0, 1)])], must_reach=['refused', 'open'])
PROPS['A03'] = dict(A, bounds='names of 0..2 and passwords of 0..2 arbitrary bytes given and registered; arbitrary scheme; credentials of 3..4 arbitrary characters or with one changed; all 64 histories of three steps, waits of 0..1023 s each', jobs=[J('a_basic', [(0, 1, 1, 1, 1), (0, 1, 0, 1, 0), (0, 2, 1, 1, 2), (0, 1, 2, 2, 1), (0, 0, 1, 0, 1), (1, 0, 0, 1, 1), (2, 4, 0, 1, 1), (2, 3, 0, 1, 1), (3, 0, 0, 1, 1), (3, 3, 0, 1, 1), (4, 3, 0, 1, 1)]), J('a_change', R(64))], must_reach=['in', 'refused', 'removed', 'old refused', 'old accepted'])
PROPS['A04'] = dict(A, bounds='twelve histories of five steps, waits of up to 8191 s (5100 s in steps of 20 s for some); identifiers with one arbitrary character, cut, extended, or of 1..2 arbitrary characters; names and passwords of 0..2 characters; redirect addresses with up to 2 arbitrary bytes', jobs=[J('a_session', [(sum(x * 8 ** k for k, x in enumerate(h)), r) for r, h in enumerate([(0, 5, 5, 5), (0, 3, 5, 5), (0, 4, 5, 5), (0, 1, 4, 5), (0, 0, 3, 5), (2, 0, 5, 2), (6, 5, 3, 5), (1, 5, 4, 5), (0, 1, 3, 5), (0, 5, 1, 5), (0, 4, 7, 5), (0, 5, 4, 7)])]), J('a_forged', [(0, 0), (0, 5), (0, 27), (1, 0), (1, 27), (1, 29), (2, 1), (2, 2)]), J('a_login', [(1, 1), (2, 0), (1, 0), (2, 1), (0, 0), (0, 1)]), J('a_sent', [(o, t) for o in (0, 1) for t in range(5)])], must_reach=['logged in', 'not logged in', 'in', 'refused', 'sent', 'odd'])
RC = dict(harness='race.cpp', srcs=AUTH, symsrc=['sha.cpp'], flags=('-fno-access-control',))
PROPS['R01'] = dict(RC, bounds='two threads with one operation each out of eleven kinds, one preemptive switch (thorough: three threads, two switches), before and after the time to clean up; three threads for the accounts', jobs=[J('r_users', [(0, 4, 10, 2), (0, 0, 6, 1), (2, 2, 3, 1), (1, 4, 5, 1)], [(0, 6, 0, 2), (2, 4, 2, 2)]), J('r_auth', [(k, a, b, 10, c, 1) for k in (0, 1) for a, b in ((0, 0), (0, 1), (4, 4), (4, 5), (0, 8), (0, 6), (0, 7), (1, 9), (11, 0)) for c in (0, 1) if k or (a, b) != (4, 5)], [(k, a, b, c, 1, 1) for k in (0, 1) for a, b, c in ((0, 0, 1), (4, 0, 4), (0, 8, 11), (4, 5, 0))] + [(k, 0, 1, 10, 1, 2) for k in (0, 1)])], must_reach=['added'])
PROPS['R02'] = dict(RC, bounds='two or three threads, one preemptive switch (thorough two), fifteen kinds of operations; two clients with five kinds of requests, with and without a third thread that stops the server or connects', jobs=[J('r_server', [(a, b, 10, 1, 0) for a in (0, 1, 2) for b in (3, 4, 5, 6, 7, 9, 11)] + [(7, 9, 10, 1, 0), (8, 7, 10, 1, 1), (8, 9, 10, 1, 1), (12, 9, 10, 1, 0), (13, 9, 10, 1, 0), (14, 7, 10, 1, 0)], [(a, b, 10, 2, 0) for a in (0, 1, 2) for b in (3, 4, 5, 6, 9)]), J('r_serve', [(a, b, 1, e) for a, b in ((0, 1), (2, 3), (4, 0)) for e in range(6)], [(a, b, 2, e) for a, b in ((0, 1), (2, 3), (4, 0)) for e in (0, 4)])])
PROPS['R03'] = dict(RC, bounds='every pair of fourteen operations of parsing, encoding and answering, one preemptive switch, 2..4 arbitrary bytes in the texts', jobs=[J('r_messages', [(a, b, 10, 1) for a in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14) for b in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14) if b >= a], [(0, 2, 9, 1), (0, 7, 12, 1), (2, 3, 8, 1)])])
PROPS['R04'] = dict(RC, bounds='every pair of six operations in two threads besides one or two workers, one preemptive switch (thorough two), both kinds of scheduler', jobs=[J('r_sched', [(a, b, 10, k, 1) for k in (0, 1) for a in (0, 1, 2, 3, 5) for b in (0, 1, 2, 3, 4, 5, 7) if a <= b] + [(a, 4, 10, k, 1) for k in (0, 1) for a in (4, 6)] + [(a, b, 10, k, 1, 1) for k in (0, 1) for a in (0, 1, 2, 3, 5) for b in (2, 3, 7) if a <= b], [(a, b, 10, k, 2) for k in (0, 1) for a in (0, 2, 5) for b in (0, 2, 4) if a <= b])])

FILE = SERVER + ['src/http_basic_auth.cpp', 'src/http_cookie_auth.cpp', 'src/http_plugin_server.cpp', 'src/plugin.cpp', 'services/FileService.cpp']
FS = dict(harness='file.cpp', srcs=FILE, symsrc=['sha.cpp'], assumptions=['the file system is a stand-in held in memory, without links; paths behave as in Boost.Filesystem 3 (selftest/paths.cpp)'])
PROPS['F01'] = dict(FS, bounds='directory option given in 7 ways (absolute, with slash, relative, "." , "..", with ".." inside); 16 shapes of path with 1..3 arbitrary visible bytes each (thorough 21 shapes, up to 5), ".." literal and %-encoded; GET for all, PUT and DELETE for half (thorough HEAD, PUT, POST, DELETE and an unknown method for all); 9 files and directories inside and outside; no symbolic links',
    jobs=[J('f_contain', [(d, p, 0) for d in range(7) for p in range(16) if d == 0 or p % 2 == 0 or p in (3, 7, 11)] + [(0, p, m) for p in range(0, 16) if p not in (2, 9) for m in (2, 4)] + [(d, p, 0, s) for d in range(7) for p in (0, 21) for s in (1, 3)], [(d, p, m) for d in range(7) for p in range(16, 21) for m in (0, 2, 4)] + [(d, p, m) for d in range(7) for p in range(16) for m in range(6)])], must_reach=['outside', 'directory', 'served', 'below', 'missing'])

def hist(*a): return sum((x + 1) * 9 ** k for k, x in enumerate(a))
PROPS['F02'] = dict(FS, bounds='one file of 3 or 5 (thorough 0..13) arbitrary bytes (and a second one added later); every history of 3 steps (thorough 4) out of: GET, HEAD, GET If-Modified-Since, file changed (longer or of the same length, with a later, an earlier or the same time), made unreadable, shorter than announced, removed, put back, another file added, or the service stopped and started again; every cache and scan setting; whole files and chunks of 2 and 4 (thorough 1..8); HTTP/1.0 and 1.1; named in the request or by the file option',
    jobs=[J('f_serve', [(c, sc, ch, m, 3, 3) for c in (0, 1, 2) for sc in (0, 1, 2, 3) for ch, m in ((0, 1), (2, 1)) if ch == 0 or sc == 0] + [(c, sc, 4, 0, 5, 3) for c, sc in ((0, 0), (1, 0), (2, 3))] + [(c, sc, 0, 1, 3, 3, 1) for c, sc in ((0, 0), (1, 0), (2, 1), (1, 3))] + [(2, 1, 0, 1, 3, 4, 0, 5)], [(c, sc, ch, m, n, 4, f) for c in (0, 1, 2) for sc in (0, 1, 2, 3) for ch, m in ((0, 1), (2, 1), (2, 0)) for n, f in ((3, 0), (0, 0), (3, 1))] + [(c, 0, ch, 1, n, 2) for c in (0, 1, 2) for ch in (1, 3, 4, 8) for n in range(14)])], must_reach=['content', 'head', 'not modified', 'not found', 'error', 'cut', 'again'])
PROPS['F03'] = dict(FS, bounds='every sequence of 3 (thorough 4) requests out of GET, HEAD, PUT, POST, DELETE, PATCH for one name, contents of 0, 1, 2 or 4 arbitrary bytes; the file exists, does not, its directory does not exist or is read-only, the file is read-only, the disk is full, writing is not allowed; cache and scan settings; file times of one second resolution that do and do not move',
    jobs=[J('f_write', [(3, st, n, c, k, sc) for st in range(7) for n, c, k, sc in ((0, 1, 0, 0), (2, 0, 0, 0), (4, 1, 1, 0), (4, 1, 1, 3), (2, 2, 0, 1))], [(4, st, n, c, k, sc) for st in range(7) for n in (0, 1, 4) for c in (0, 1, 2) for k in (0, 1) for sc in range(4)])], must_reach=['read back', 'gone', 'not allowed', 'failed', 'deleted', 'created', 'written'])
PL = dict(harness='plug.cpp', srcs=FILE[:-1], symsrc=['sha.cpp'], assumptions=['dlopen and dlsym are stand-ins with five libraries; the file system is a stand-in held in memory'])
PROPS['G01'] = dict(PL, bounds='every history of three operations (thorough four, or three handles) on one or two handles: opening one of nine names (two libraries by name and file, one linked in or none, one that cannot be loaded, two that lack a symbol, one that is not there), closing, assigning (also to itself), copying, creating and destroying an object', jobs=[J('g_library', [(2, 3, f, f % 2) for f in range(1, 14)] + [(1, 4, f, 1 - f % 2) for f in range(1, 14)], [(2, 4, f) for f in range(1, 14)] + [(3, 3, f) for f in range(1, 14)])], must_reach=['opened', 'refused', 'assigned', 'created'])
PROPS['G02'] = dict(PL, bounds='every history of four operations (thorough five) of eight kinds on two identifiers; three identifiers and a resource of nine shapes with 5..12 arbitrary bytes together', jobs=[J('g_manager', [(4,)], [(5,)]), J('g_find', [(i,) for i in range(9)])], must_reach=['loaded', 'failed', 'removed', 'cloned', 'replaced', 'found', 'none'])
PROPS['G03'] = dict(PL, bounds='29 texts of one to five lines with 0..4 arbitrary bytes each; a service linked in; users and restrictions with basic and cookie authentication; two servers with a file each', jobs=[J('g_config', [(i,) for i in range(29)]), J('g_two', [()])], must_reach=['refused', 'failed', 'option', 'restricted', 'user', 'service'])
PROPS['G04'] = dict(PL, bounds='every history of four operations (thorough five): start, start with a service that fails, stop, requests, options, clear; two services, one added and one loaded', jobs=[J('g_server', [(4,)], [(5,)])], must_reach=['refused', 'served', 'cleared'])
PR = dict(harness='race2.cpp', srcs=FILE, symsrc=['sha.cpp'], flags=('-fno-access-control',), assumptions=PL['assumptions'])
PROPS['R05'] = dict(PR, bounds='every pair of eighteen operations in two threads, one preemptive switch (thorough two, and three threads for eight triples)', jobs=[J('r_plugins', [(a, b, 10, 1) for a in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18) for b in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18) if a <= b], [(a, b, 10, 2) for a in (0, 1, 3, 6, 7, 18) for b in (0, 1, 3, 6, 7, 18) if a <= b] + [(0, 0, 6, 1), (0, 3, 6, 1), (7, 7, 8, 1), (0, 7, 3, 1), (18, 3, 5, 1), (0, 1, 6, 1), (7, 13, 12, 1), (0, 0, 0, 1)])], must_reach=['one'])
PROPS['R06'] = dict(PR, bounds='every pair of seven operations in two threads, one preemptive switch (thorough two), four settings of cache and scan', jobs=[J('r_files', [(a, b, 10, c, s, 1) for a in range(7) for b in range(7) if a <= b for c, s in ((0, 0), (1, 0), (1, 3), (2, 1))], [(a, b, 10, c, s, 2) for a in range(7) for b in range(7) if a <= b for c, s in ((0, 0), (1, 0), (1, 3))])], must_reach=['content'])

CL = dict(harness='client.cpp', srcs=HTTP + ['src/http_reader.cpp', 'src/http_writer.cpp', 'src/tcp_timer.cpp', 'src/scheduler.cpp', 'src/tcp_server.cpp', 'src/http_server.cpp', 'src/http_auth.cpp', 'src/admin_rights.cpp'])
PROPS['N01'] = dict(CL, bounds='writing: two operations (put, write, sputn, flush, more than a buffer) with any bytes on a buffer with 0..3 bytes of room or empty (three operations over SSL), no failure or one at any byte near the end, zero or one early end of a wait; reading: 4 bytes in any pieces, three operations (get, peek, read, unget, putback, in_avail), an error at any place, also after a full buffer; 3 bytes with a second thread that completes the operations, one preemptive switch', jobs=[J('n_write', [(2, r, f, e, 0) for r in (0, 1, 2, 3, 8191) for f in (0, 1, 2) for e in (0, 1) if not (r == 8191 and f == 2)] + [(3, 1, 0, 0, 1)]), J('n_read', [(4, 3, f, e, 0, 0) for f in (0, 1) for e in (0, 1)] + [(4, 2, 0, 0, 1, 8182), (3, 2, 1, 0, 0, 8182)]), J('n_threads', [(3, 1)])], must_reach=['failed', 'flushed', 'sent', 'end', 'put back'])
PROPS['N02'] = dict(CL, bounds='8 shapes of answers (length, chunks, no content, HEAD, HEAD with chunks announced, HTTP/1.0, close, until the end) in every pair, any values and content, in one piece, both at once, or in two pieces at every place; content of requests of 0..2 bytes; every answer cut at every byte by the end, an error or the time limit, and with any one byte replaced by an arbitrary one', jobs=[J('n_ask', [(a, b, sp, c) for a in range(8) for b in range(8) for sp, c in ((0, 0), (2, 2)) if a != 6 or not sp] + [(a, (a + 2) % 8, 1, 1) for a in range(8)]), J('n_cut', [(a, h) for a in range(8) for h in range(4)])], must_reach=['closed', 'pipelined', 'kept', 'cut', 'ended', 'broken'])
PROPS['N03'] = dict(CL, bounds='0..3 addresses found for a name, any of them refusing, or the name unknown; by address, by name and by stream, with and without SSL, with a failing handshake', jobs=[J('n_connect', [(a, s) for a in range(3) for s in (0, 1)])], must_reach=['connected', 'refused', 'stream'])
SV = dict(harness='service.cpp', srcs=FILE[:-1] + ['services/%sService.cpp' % s for s in ('Echo', 'Cookie', 'Hello', 'Log', 'AllowNothing')], symsrc=['sha.cpp'], flags=('-fno-access-control',), assumptions=PL['assumptions'])
PROPS['X01'] = dict(SV, bounds='echo: 0..2 arbitrary bytes in each of path, query value, header, cookie and 0..3 of content, GET, POST and HEAD, with and without a user; cookie page: 1..2 arbitrary bytes as path, cookie name and quoted value; up to three headers of which any are cookies; cookies set and deleted with names and values of 0..2 arbitrary percent-encoded bytes; the other pages for four methods and any of two characters, twice on a connection; logs of 3..4 entries keeping 0..3', jobs=[J('x_echo', [(1, 1, 1, 0, 0, 0, 0), (0, 0, 0, 1, 3, 0, 1), (2, 0, 0, 0, 1, 1, 1), (0, 2, 0, 2, 0, 1, 0), (0, 0, 2, 0, 0, 0, 0), (1, 1, 0, 0, 0, 0, 2)]), J('x_show', [(w, n) for w in range(3) for n in (1, 2)]), J('x_headers', [(1,), (2,), (3,)], [(4,)]), J('x_change', [(0, 1, 1), (0, 2, 1), (0, 1, 2), (0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 0), (1, 2, 0), (2, 0, 0), (3, 1, 1)]), J('x_simple', [(w, m) for w in range(3) for m in range(5)]), J('x_log', [(m, n) for m in range(4) for n in (3, 4)])], must_reach=['echo', 'head', 'page', 'headers', 'name', 'value', 'added', 'deleted', 'refused'])
DM = dict(harness='main.cpp', srcs=FILE[:-1], symsrc=['sha.cpp'], assumptions=PL['assumptions'] + ['the server of the program runs on the event queue of the harness; process::initialize and wait_for_shutdown are stand-ins that look at it'])
PROPS['D01'] = dict(DM, bounds='40 command lines of piond and 7 of helloserver with up to five arbitrary digits or three arbitrary bytes; a service linked in and two in libraries, one found in a directory given; two configuration files; the address free or taken', jobs=[J('d_piond', [(i, t) for i in range(40) for t in (0, 1) if not t or i in (0, 14)]), J('d_hello', [(i, t) for i in range(7) for t in (0, 1) if i == 0 or not t])], must_reach=['ssl', 'option', 'served', 'configured', 'usage', 'failed', 'hello'])
PO = dict(harness='proc.cpp', srcs=['src/logger.cpp'], flags=('-fno-access-control',), assumptions=['signal, fork, setsid, open, close, dup, umask and exit are stand-ins that record'])
PROPS['P03'] = dict(PO, bounds='1..2 threads that wait, 1..2 that shut down, one that wakes them up without reason, two or three preemptive switches (thorough three or four); every signal number below 32; SIGINT or SIGTERM at each place where the waiting thread takes, gives back or waits with its lock; six descriptors of which any are open, fork failing, in the parent and in the child, with and without /dev/null', jobs=[J('p_wait', [(1, 1, 0, 3), (2, 1, 0, 2), (1, 2, 0, 3), (2, 1, 1, 1), (1, 1, 1, 2)], [(2, 1, 0, 3), (2, 1, 1, 2), (1, 2, 1, 2), (2, 2, 0, 2), (1, 1, 0, 5)]), J('p_signals', [()]), J('p_inside', [(0,), (1,)]), J('p_daemon', [()])], must_reach=['down', 'signal', 'already', 'failed', 'parent', 'background'])
PROPS['N05'] = dict(CL, bounds='every history of two (thorough three) reads of eight kinds of up to five (six) arbitrary bytes, the first two pieces of 1..3, with the end or an error at any place; two (thorough three) writes of 0..3 and 0..2 arbitrary bytes, in pieces, with an error after any number of bytes; without SSL, with it, with it since a handshake of each kind, and as a server makes it; connecting, accepting, cancelling, closing and destroying, any port', jobs=[J('n_reads', [(h, 5, 2, 0) for h in range(9)] + [(0, 4, 2, 1), (1, 4, 2, 1)], [(0, 5, 3, 0), (1, 6, 3, 0), (0, 4, 3, 1)]), J('n_writes', [(h, 1, f) for h in range(9) for f in (0, 1)] + [(0, 2, 0), (1, 2, 1)], [(0, 3, 0), (0, 2, 1)]), J('n_open', [(0,), (1,)])], must_reach=['end', 'error', 'read', 'later', 'failed', 'written', 'cancelled', 'closed', 'lost', 'gone'])
PROPS['N04'] = dict(CL, bounds='every history of up to five (thorough six) of: start with 0, 1, 10 or 2^32-1 seconds, cancel, the time passes, a handler runs; two threads with two preemptive switches (thorough four)', jobs=[J('n_timer', [(1,), (2,), (3,), (4,), (5,)], [(6,)]), J('n_timer_threads', [(2, 0), (2, 1)], [(4, 0), (4, 1)])], must_reach=['fired'])
