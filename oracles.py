# O(id, oracle / how the solver decides it)
def O(id, text): ORACLE[id] = text
O('C01', 'Length and bytes are symbolic. Oracle: an independent RFC 4648 coder written in the harness (shift-and-mask over whole groups) and an independent validity predicate; rejected and decoded must coincide with it exactly.')
O('C02', 'Oracle: a byte-by-byte reference decoder in the harness; for the encoder, the set of characters it may output and decode(encode(x)) = x.')
O('C03', 'Oracle: a reference UTF-8 validator (Unicode table 3-7) that walks the input and predicts every output byte.')
O('C04', 'Oracle: arithmetic definition of big-endian numbers; guard bytes on both sides must be unchanged.')
O('H01', 'Every text brings the state machine into a state, then meets arbitrary bytes. No oracle needed: every load, store, shift, table index and size is checked by the engine; the assertions are the result/error/size invariants.')
O('H02', 'Differential: the same symbolic bytes through two parsers, one in one piece; the split position is symbolic. All fields of both messages are compared.')
O('H03', 'The harness generates a legal line from symbolic parts and asserts that exactly these parts come back; forbidden bytes are symbolic bytes constrained to the complement of the grammar.')
O('H04', 'Generated header lines; the resulting dictionary is compared as a multiset, with symbolic names that may or may not be equal ignoring case.')
O('H05', 'Framing oracle: the parse must finish at byte n whatever arrives; content equals the first min(n, limit) bytes; symbolic split points; length texts against an independent decimal reader with overflow.')
O('H06', 'Generated chunk sequences against their concatenation; sizes against an independent hexadecimal reader; forbidden bytes as in H03.')
O('H07', 'Cut position symbolic; expected outcome computed from the position.')
O('H08', 'Parts of exactly the maximum and maximum + 1 with symbolic last characters.')
O('H09', 'Gap position and length symbolic; expected content built in the harness.')
O('H10', 'Generated URIs from symbolic parts; arbitrary texts for safety; the stand-in for the regex engine interprets the pattern found in the source.')
O('H11', 'Reference splitter in the harness, plus make/parse round trip.')
O('H12', 'Generated cookie headers, arbitrary headers (never a fault, names and values must be substrings), and make/parse round trip.')
O('H13', 'Generated forms; malformed forms must give no parameter whose bytes are not in the form.')
O('H14', 'Round trip, and a buffer with guard bytes for arbitrary texts.')
O('H15', 'Address octets are symbolic digits; oracle: RFC 1918 ranges computed on numbers rather than by pattern.')
O('H16', 'Differential: used-and-reset parser against a new one on the same symbolic bytes.')
O('S01', 'Memory safety of arbitrary packets in an exactly sized buffer; the stand-in for inflate writes arbitrary bytes, and initialises only what it wrote.')
O('S02', 'Frames generated from symbolic fields; the walk over several frames must visit the expected offsets.')
O('S03', 'Name/value pairs generated; the stand-in for inflate records which stream and which bytes it was given.')
O('M01', 'Reference: an association list in the harness, over symbolic operations and names.')
O('M02', 'Write/read round trip with all fields symbolic; Content-Length and Connection values computed independently.')
O('M03', 'Field-wise comparison of copies whose source is then changed.')
O('M04', 'The rules restated over symbolic version and status numbers.')
O('M05', 'Stand-in connection delivers symbolic segments; expected lifecycle computed from the split.')
O('W01', 'What the peer got is decoded by an independent reader (length, chunks or close) and compared with the pieces; live heap objects counted before and after.')
O('V01', 'Longest-prefix and redirect resolution re-implemented over symbolic names.')
O('V02', 'Recording authentication object whose verdicts are symbolic; the sequence of calls is compared.')
O('V03', 'Answers parsed by an independent reader; escaped text checked to contain no markup; exactly one answer.')
O('V04', 'Scripted clients in the asio stand-in; order of deliveries and completions symbolic; answers compared per client.')
O('V05', 'Clock and timers of the stand-in; whether the limit or the data comes first is symbolic.')
O('T01', 'Each step of the history is a symbolic choice; a reference count of open connections is kept.')
O('T02', 'Real threads of the stand-in, switched by the engine at every synchronisation operation and preemptively within the bound; deadlock means no thread can go on.')
O('P01', 'User identifiers are symbolic; seteuid follows POSIX rules in a stand-in that records.')
O('P02', 'User file contents symbolic; expected identifier computed from the line generated.')
O('A01', 'Prefix-by-segment predicate over symbolic paths.')
O('A02', 'Reference map; digests computed by the (stand-in) SHA over the password.')
O('A03', 'Whole request through the real server; expected verdict from the account map and the time of last validation.')
O('A04', 'Reference session table (identifier, user, last use) over histories with symbolic waits.')
for i, t in (('R01', 'Pairs of operations'), ('R02', 'Pairs and triples of operations besides requests'), ('R03', 'Pairs of operations on separate objects'), ('R04', 'Pairs of operations besides workers'), ('R05', 'Pairs of operations on shared plug-ins and manager'), ('R06', 'Pairs of requests to one service')):
    O(i, t + ' run as threads; the engine explores every schedule within the switch bound and reports two accesses of repository code to one byte, one a write, that no lock, join or queue orders (vector clocks). Replayed under ThreadSanitizer. Deadlocks and the functional assertions are checked on every schedule too.')
O('F01', 'Every call into the stand-in file system is checked for its absolute target; expected answer computed from the path, normalised independently.')
O('F02', 'Model of the file (content, time, readable) changed by symbolic steps; answers read by an independent client.')
O('F03', 'Model of the file system as a map; after every request the two must agree, and no other file may differ.')
O('G01', 'Stand-in dlopen counts references and marks closed code; reference count kept by the harness.')
O('G02', 'Objects count creations and destructions and note whether their library was loaded; search compared with a linear scan.')
O('G03', 'Lines interpreted independently; the resulting server is asked with requests.')
O('G04', 'Services record start, stop, requests and options; compared with the history.')
O('N01', 'Reference: the string of what was written or sent; after every operation what the peer got must be a beginning of it, and all of it after a flush. The stand-in connection delivers and accepts any part before it fails; its waits may end early.')
O('N02', 'Requests are read back by a new parser, answers built from symbolic parts and compared with those; expected lifecycle computed from the kind of answer. Number and order of the reports are counted.')
O('N03', 'Resolver and connect of the stand-in answer from a symbolic table; expected address is the first in it that does not refuse.')
O('N05', 'Reference: the symbolic bytes on the wire and how many were read; the stand-in honours the completion condition given and counts operations started on the socket itself and through SSL. Whatever is read is compared with the bytes at that place.')
O('X01', 'The expected echo is built in the harness. For the cookie page the number of markup characters and of headers must equal that of the page for harmless text in the same places, and the texts and links, unescaped by an independent reader, must be the bytes sent. The log is compared with a list.')
O('D01', 'A reader of command lines written from the usage message; while the program waits, a stand-in of wait_for_shutdown looks at the acceptor, the key, the options the service saw, and asks for the resource as a client.')
O('P03', 'Threads as in R01. The system is a stand-in compiled around process.cpp: it keeps dispositions of signals, a table of descriptors, the mask and the session, and calls the handler installed for a signal at the place chosen.')
O('N04', 'Reference: whether a time is armed or due, over symbolic steps. In the stand-in a deadline that passes and the run of its handler are separate events, and an aborted wait is reported to its handler as in Boost.Asio.')
MISSED = dict(c03='encryption and a configuration file were never asked for together', c04='no option had an empty value', c06='a service was never started again', c07='no frame was that large', c08='one configuration file was loaded per process', c09='file names had one dot', c10='there was always something linked in',
  b05='chains of redirects were not combined with authentication', b10='two threads in shutdown() were not among the jobs', b12='names were never prefixes of each other', b14='the digest stand-in had no zero bytes',
  b16='logout with a redirect was missing', b23='limits below what a cut message holds were missing', b24='only one byte over one of the limits was tried', b31='strings not copied were never written after text', b35='sizes of two digits with leading zeros were missing',
  b47='a second message was only received into a new object', b54='nameless parameters were only last', b56='reading past the frame by zlib was not seen; the stand-in now reads all its input', b62='files only grew', b86='requests had no header but the cookies', b64='the file was no longer than one chunk',
  b83='the reason of a failed connect was not compared', b92='a malformed cookie header was always alone', b93='a nameless form part was never followed by another', b94='there was no tab between chunk size and line end', b95='no encoding was longer than its buffer', b96='the number of error answers was not compared', b97='every header had a space after the colon', c01='text with wide characters was always written whole')
COST = {}
