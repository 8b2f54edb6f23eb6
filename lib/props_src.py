# Source of properties.jsonl (run: python3 lib/props_src.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=[observe]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

PARSER=["src/http_parser.cpp","include/pion/http/parser.hpp"]
MSG=["src/http_message.cpp","include/pion/http/message.hpp","include/pion/http/request.hpp","include/pion/http/response.hpp"]

p("P01","HTTP parsing never depends on how the bytes were split into reads",
 "For every byte sequence and every division of it into consecutive non-empty reads, incremental HTTP parsing gives the same verdict (complete, failed with the same error, or still incomplete), consumes the same number of bytes of a complete message, and delivers the same message: start line, headers, cookies, query parameters, body, validity and payload-callback data.",
 ["inputs","schedules"],"all request/response byte strings, all splits into reads, all parser options",
 "Tests parse each sample in one or two fixed pieces; the guarantee is over every split point of every message, i.e. every suspension point of the incremental state machine.",
 PARSER+MSG,[("incremental header/chunk/content states","http_parser.cpp parse, parse_headers, parse_chunks, consume_content")],"parser::parse results and the populated message")
p("P02","Each HTTP message is framed exactly: body length and end of message",
 "A complete HTTP message ends exactly where its own framing says: after the Content-Length bytes, after the last chunk and trailers, right after the headers when no body is possible (requests without framing; HEAD, 1xx, 204, 205 and 304 responses; HTTP/0.9 simple requests), or at connection close for other responses. The parser never consumes a byte beyond that end, so a pipelined sequence of messages decodes to the same messages as parsing each one on its own, and the body delivered equals the body sent (cut to the configured maximum content length without changing where the message ends).",
 ["inputs","histories"],"all message sequences, framings, body sizes relative to the limit, and read splits",
 "Framing errors appear only for particular combinations of status, method, headers, limits and following bytes (request smuggling); samples do not cover the product.",
 PARSER+MSG,[("end-of-headers framing decision","http_parser.cpp finish_header_parsing"),("content consumption","http_parser.cpp consume_content"),("implied length","response.hpp is_content_length_implied")],"bytes consumed, content, and results of parsing the remaining bytes")
p("P03","Parsed start lines and headers carry exactly what was sent",
 "When parsing succeeds, method, resource, query string, version, status code, status message and every header (all repetitions, names matched case-insensitively, values byte for byte with one optional leading space removed) equal what was on the wire, for CRLF, bare LF and bare CR line endings. Nothing is dropped, duplicated, merged or invented.",
 ["inputs"],"all syntactically acceptable heads of requests and responses",
 "The header state machine has 25 states with per-state character classes; tests visit a few well-behaved heads.",
 PARSER+MSG+["include/pion/hash_map.hpp"],[("header state machine","http_parser.cpp parse_headers"),("start line hand-over","http_parser.cpp update_message_with_header_data")],"message accessors after parsing")
p("P04","Malformed or oversized HTTP messages are refused with the right error",
 "A forbidden character, a missing version or status, an unusable Content-Length, a malformed chunk, or a method, status message, header name, header value, resource or query string longer than its limit makes parsing fail at that byte with the corresponding error, and never a success, hang or crash. Inputs at the limit are still accepted, and a failed message is never marked valid.",
 ["inputs"],"all byte values in every parser state and lengths around every limit",
 "Needs every (state, byte) pair and boundary length, thousands of cases with specific verdicts.",
 PARSER,[("character classes and size limits","http_parser.cpp parse_headers / parse_chunks, parser.hpp is_char.."),("content length validation","message.hpp update_content_length_using_header")],"tribool verdict and error_code")
p("P05","Chunked bodies decode to exactly the data of their chunks",
 "For every sequence of chunks, with any valid size notation, extensions, surrounding whitespace and trailers, the decoded body is the concatenation of the chunk data in order, trailers become headers, and decoding ends exactly after the final line. This holds equally when the body is collected in the message (up to the maximum content length) and when it is streamed to a payload callback.",
 ["inputs"],"all chunk sequences, sizes, extensions, trailers and limits",
 "Chunk boundaries interact with limits, callbacks and trailers; each combination is a different path.",
 PARSER+MSG,[("chunk state machine","http_parser.cpp parse_chunks"),("chunk concatenation","http_message.cpp concatenate_chunks")],"body, headers and bytes consumed")
p("P06","Early end of stream and lost data are reported truthfully",
 "If the stream ends before the message is complete this is reported as premature and the finished message is not valid (a chunked body cut exactly between two chunks still counts as valid), except that a response of unknown length becomes complete and valid with the bytes received so far. Lost bytes of known length inside a body are replaced one for one by filler and parsing goes on, losses that cannot be placed are refused with an error, and the message status tells complete, truncated and partial messages apart.",
 ["inputs","fault_sequences"],"all end-of-stream positions and all sequences of data and losses",
 "Every byte position of every framing is a potential cut or loss; tests try a few.",
 PARSER+MSG,[("missing data","http_parser.cpp parse_missing_data"),("finish and status","http_parser.cpp finish, compute_msg_status; parser.hpp check_premature_eof")],"verdict, validity, status and content after the cut")
p("P07","Query strings and URL-encoded forms decode to their name/value pairs",
 "Decoding a query string or URL-encoded form yields exactly its pairs: percent escapes and plus signs decoded once, empty values kept, empty names skipped, comma lists expanded into repeated names, repeated names all kept, and forms added to the URI's parameters. Building a query string from any dictionary and decoding it again gives the same dictionary back. A URI splits into exactly its protocol, host, port, path and query string, or is refused.",
 ["inputs"],"all query strings/forms and all dictionaries",
 "Round trips over arbitrary bytes and separators in names and values; tests use alphanumeric samples.",
 PARSER+["src/http_types.cpp","src/algorithm.cpp"],[("pair splitting","http_parser.cpp parse_url_encoded"),("query building","http_types.cpp make_query_string")],"request queries")
p("P08","Cookies are read and written without loss or confusion",
 "Parsing Cookie and Set-Cookie headers yields exactly the cookies they carry (quoted or bare values, several per header separated by semicolons or commas, several headers) and never the cookie attributes. Cookies set or deleted on a response are written as one Set-Cookie header each, carrying the given name, value, path and age, and parse back to the same name and value.",
 ["inputs"],"all cookie header texts and all cookie sets",
 "Quoting, separators and attribute names interact; tests check a few headers.",
 PARSER+["src/http_types.cpp"]+MSG[1:],[("cookie splitting","http_parser.cpp parse_cookie_header"),("cookie writing","http_types.cpp make_set_cookie_header, response.hpp set_cookie/append_cookie_headers")],"cookie dictionary and written headers")
p("P09","Multipart form bodies decode to their fields",
 "A multipart/form-data body yields one parameter per named part, with the part's bytes unchanged for text parts and as a base64 data string for other types, in any number of parts, including empty fields, boundary look-alikes and arbitrary binary data. Bodies without a boundary, or with broken part headers, are refused without reading outside the body (a last part that is not terminated takes the rest of the body).",
 ["inputs"],"all multipart bodies over the part grammar and their corruptions",
 "Pointer arithmetic around boundaries fails only on particular shapes (empty field, missing CRLF, truncated header).",
 PARSER,[("multipart state machine","http_parser.cpp parse_multipart_form_data, binary_2base64")],"request queries after parsing")
p("P10","A written HTTP message reads back as the same message",
 "Any request or response, with any headers, cookies and body, that is written out and parsed again yields the same start line, headers and body, with exactly one correct length or chunked indication and the requested keep-alive choice. Bodies sent as several chunks reassemble to the same bytes, and clients that cannot take chunks get plain bytes and a closing connection.",
 ["inputs","programs"],"all messages and all sequences of writer calls",
 "A round trip over all messages and writer call sequences; tests check constant outputs.",
 MSG+["src/http_writer.cpp","include/pion/http/writer.hpp","include/pion/http/response_writer.hpp","include/pion/http/request_writer.hpp"],[("header preparation","message.hpp prepare_headers_for_send / append_headers"),("chunk framing","http_writer.cpp prepare_write_buffers")],"bytes on the stream or socket")
p("P11","Header, cookie and query dictionaries are case-insensitive multimaps",
 "For every history of adding, changing, deleting, reading and copying, header, cookie and query names match without regard to case, adding keeps earlier values, changing leaves exactly one value, deleting removes all, reading a missing name gives the empty string, and copies are independent. Derived state (content length, keep-alive, first line, resource, content) always reflects the latest update.",
 ["histories"],"all operation sequences over names differing in case, on requests and responses",
 "Needs operation histories, not single calls; hash/equality mismatch shows only for particular names.",
 MSG+["include/pion/hash_map.hpp","src/http_types.cpp"],[("case-insensitive hash","hash_map.hpp ihash, iequal_to"),("header updates","message.hpp add_header, change_header, delete_header")],"message accessors")
p("P12","Base64 encoding and decoding are exact inverses",
 "Encoding any byte string gives its standard padded base64 text, and decoding that text gives the bytes back. Text with characters outside the alphabet, or a length that is not a multiple of four, is refused, and decoding any input never reads outside it.",
 ["inputs"],"all byte strings",
 "All lengths mod 3 with all byte values, and every malformed text; tests sample strings.",
 ["src/algorithm.cpp","include/pion/algorithm.hpp"],[("codec","algorithm.cpp base64_encode, base64_decode")],"return value and output")
p("P13","URL encoding is safe and exactly inverted by decoding",
 "URL-encoding any byte string yields only unreserved characters and percent escapes, and decoding it returns the original (apart from NUL, which is never decoded). Decoding replaces plus by space and each valid percent escape by its byte exactly once, leaves everything else unchanged, and is safe on malformed input.",
 ["inputs"],"all byte strings",
 "256 byte values in all positions including truncated escapes; tests sample strings.",
 ["src/algorithm.cpp"],[("codec","algorithm.cpp url_encode, url_decode")],"output string")
p("P14","XML escaping always yields well-formed, equivalent text",
 "For every byte string the XML-escaped text contains no raw markup character, no character forbidden in XML and is valid UTF-8; valid text is preserved (after unescaping it reads the same) and every malformed sequence becomes the replacement character without swallowing the valid text after it.",
 ["inputs"],"all byte strings",
 "Malformed UTF-8 has many shapes (truncated, overlong, surrogate, stray); tests sample a few.",
 ["src/algorithm.cpp"],[("escaping","algorithm.cpp xml_encode")],"output string")
p("P15","Binary number conversions are exact in both directions",
 "Writing any 8, 16, 24, 32 or 64-bit integer to a big-endian buffer and reading it back gives the same number with the documented byte order, and bytes outside the field are untouched. Every IEEE single and double survives conversion to and from its byte representation (value, sign, zeros, subnormals, infinities; NaN stays NaN).",
 ["inputs"],"all integers of each width and all float/double values",
 "Whole value ranges including sign bits, denormals and boundaries; tests sample constants.",
 ["src/algorithm.cpp","include/pion/algorithm.hpp"],[("integers","algorithm.hpp to_uint*/from_uint*"),("floats","algorithm.cpp float_from_bytes, float_to_bytes, double_*")],"bytes and numbers")
p("P16","A plug-in library stays loaded exactly while it is in use",
 "For every history of opening, copying, assigning and closing plug-in references, a plug-in library is loaded once on first use, is shared by all references to the same plug-in, stays loaded while any reference remains, and is unloaded when the last one goes; create and destroy calls always reach the library they belong to, and none of these calls hangs. Opening a missing or invalid library fails with an error and changes nothing.",
 ["histories","schedules"],"all histories of plug-in references and names, single- and multi-threaded",
 "Reference counts go wrong only after particular sequences (re-open, self-assign, failed open).",
 ["src/plugin.cpp","include/pion/plugin.hpp"],[("registry and reference counts","plugin.cpp open, grab_data, release_data")],"dlopen/dlclose events, create/destroy counters")
p("P17","Plug-in lookup finds the right file or reports failure",
 "A plug-in name is resolved to the first match among: the name as a path, the name plus extension, then the same in each registered directory in order; statically registered plug-ins take precedence over library files. Names that match nothing, directories, and invalid directories are refused, and listing plug-ins returns every available name once without path or extension.",
 ["inputs","configurations"],"all names and directory layouts",
 "Layouts and name forms multiply; tests use one directory.",
 ["src/plugin.cpp"],[("search","plugin.cpp find_file, check_for_file, get_all_plugin_names")],"returned paths and names")
p("P18","The plug-in registry maps each resource to its own service",
 "A registry entry is found by its exact identifier, and a resource is served by the entry with the longest identifier that is equal to it or a path prefix of it ending at a slash. Identifiers are unique: registering one twice fails and leaves the first in place; removed, replaced and cleared entries are destroyed exactly once and never found again.",
 ["histories"],"all registration histories and lookups",
 "Longest-prefix lookup in a sorted map fails only for particular neighbouring names.",
 ["include/pion/plugin_manager.hpp"],[("lookup","plugin_manager.hpp find"),("ownership","plugin_manager.hpp add, load, replace, remove, clear")],"lookup results and destruction counters")
p("P19","Every job given to a running scheduler runs exactly once",
 "Every job posted to a running scheduler (by an active user or from a job) is executed exactly once on one of its threads, unless the scheduler is shut down first, when it runs at most once. An exception in a job never prevents other jobs from running, no more jobs run at the same time than there are threads, an idle scheduler stays able to run jobs however long it idles, and a one-to-one scheduler runs all jobs of one service on one thread.",
 ["schedules","histories"],"all interleavings of posting, failing and completing jobs",
 "Lost or repeated work depends on interleaving; tests run a few jobs.",
 ["src/scheduler.cpp","include/pion/scheduler.hpp"],[("worker loop","scheduler.cpp process_service_work"),("services","scheduler.hpp single_service_scheduler, one_to_one_scheduler")],"job execution events")
p("P20","Scheduler start, use and shutdown always complete and agree",
 "A scheduler is running between start-up (explicit or by its first user) and shutdown; shutdown waits until every active user has left, then stops all threads and wakes everyone who joined, and afterwards nothing runs until it is started again. No order of start-up, user registration, shutdown, join and restart, called from threads other than the scheduler's own, deadlocks, loses a wake-up, spins, or leaves threads behind.",
 ["schedules","histories"],"all interleavings of lifecycle calls from several threads",
 "Lost wake-ups need particular interleavings.",
 ["src/scheduler.cpp","include/pion/scheduler.hpp"],[("lifecycle","scheduler.cpp shutdown, join, add_active_user, remove_active_user, multi_thread_scheduler::stop_threads")],"call completion and is_running")
p("P21","Waiting for process shutdown never misses the request",
 "A thread waiting for process shutdown returns if and only if shutdown has been requested, by call or by termination signal, before or during the wait, no matter how requests and waits interleave. Repeated requests are harmless.",
 ["schedules","histories"],"all interleavings of shutdown requests, signals and waits",
 "The race between checking the flag and starting to wait is not sampled by tests.",
 ["src/process.cpp","include/pion/process.hpp"],[("shutdown flag and condition","process.cpp shutdown, wait_for_shutdown")],"completion of waiters")
p("P22","Administrative rights are taken and given back exactly",
 "While an administrative-rights object is active the process runs with administrator rights, and when it is released or destroyed the process runs as exactly the user it had before, for every user id and every sequence of objects used by one or several threads. Only one holder has the rights at a time. Running as a named user or group switches to, and returns, exactly the id the system's table records for that name (or the number given), returns -1 if that is not permitted, and changes nothing for a name that stands for no id.",
 ["histories","inputs"],"all user ids and all sequences of acquire, release and destroy",
 "Needs particular user ids and double releases; tests do not exercise it.",
 ["src/admin_rights.cpp","include/pion/admin_rights.hpp"],[("elevation","admin_rights.cpp constructor, release"),("lookup","admin_rights.cpp find_system_id; process run_as_user/group")],"effective ids")
p("P23","SPDY frames are decoded field by field from any packet",
 "For every packet made of SPDY frames, each call of the decoder reports the next frame: whether it is data or a control frame (request, response, other control), its stream id (data and header frames), the declared size of its payload and where the payload starts, the end-of-stream flag of data, and errors that a GOAWAY announces. It consumes exactly the frame and says where the next one starts and how many bytes are left; frames of an unknown type or version are refused.",
 ["inputs"],"all frame sequences over types, versions, ids, flags and lengths, and all truncations of the payload",
 "Bit fields and lengths multiply; tests replay a few captured packets.",
 ["src/spdy_parser.cpp","include/pion/spdy/parser.hpp"],[("frame decode","spdy_parser.cpp populate_frame, parse_spdy_frame")],"http_protocol_info, return value, error code, remaining length, read and content pointers")
p("P24","SPDY headers decompress to what the peer compressed",
 "Name/value blocks compressed by a peer in one continuous compression stream per direction (client requests; server replies, pushed streams and HEADERS) decode frame after frame to exactly the headers that were sent, whatever the order in which the directions alternate. A block that cannot be decompressed, or is larger than the decoder's buffer, is reported as an error and does not affect the other direction.",
 ["histories","inputs"],"all sequences of header blocks in both directions",
 "Compression state carries over between frames; tests decode single captures.",
 ["src/spdy_decompressor.cpp","src/spdy_parser.cpp"],[("stateful inflate with dictionary","spdy_decompressor.cpp decompress"),("header block","spdy_parser.cpp parse_header_payload")],"decoded header map, error code")
p("P25","Malformed SPDY input is refused without reading outside the packet",
 "Truncated, inconsistent or corrupted SPDY packets are refused with an error or treated as incomplete; decoding never reads outside the packet or the decompressed block, never loops, and never reports headers or bytes that were not received.",
 ["inputs"],"all truncations and field corruptions of frames and header blocks",
 "Every length field and truncation point is a separate case.",
 ["src/spdy_parser.cpp","src/spdy_decompressor.cpp"],[("length checks","spdy_parser.cpp populate_frame, parse_header_payload")],"verdict, error code, reported fields, memory accesses")
p("P26","The TCP server accounts for every connection until it ends",
 "Every accepted connection is handed to its handler once, is counted while open, and leaves the count exactly when it ends without keep-alive. Stopping the server refuses new connections and returns only when all are gone (closing them when told not to wait), waiters are woken, and the server can be started again.",
 ["schedules","histories"],"all interleavings of connects, finishes, keep-alives and stops",
 "Accounting errors need particular interleavings of accept, finish and stop.",
 ["src/tcp_server.cpp","include/pion/tcp/server.hpp","include/pion/tcp/connection.hpp"],[("connection pool","tcp_server.cpp listen, handle_accept, finish_connection, stop")],"get_connections, handler calls, stop/join completion")
p("P27","The HTTP server routes every request to exactly the right handler",
 "A valid request is served by the handler with the longest registered resource equal to, or a path prefix (at a slash) of, the requested resource, ignoring one trailing slash; redirects are followed transitively up to the limit; without a match the not-found handler answers, malformed requests go to the bad-request handler and exceptions in handlers produce a server error. Exactly one handler answers each request.",
 ["inputs","histories"],"all resource tables, redirect tables and requests",
 "Prefix matching and redirect chains fail only for particular tables.",
 ["src/http_server.cpp","include/pion/http/server.hpp"],[("routing","http_server.cpp handle_request, find_request_handler")],"responses on the wire")
p("P28","Keep-alive and pipelined requests are answered in order, once each",
 "On one connection every complete request is answered exactly once and in the order received, however requests are pipelined or split across reads, as long as the messages ask to keep the connection; a request that asks to close, or a malformed one, is the last one answered and the connection is then closed.",
 ["schedules","inputs"],"all pipelined request sequences and read splits",
 "Bookmarked read positions fail only when a message boundary meets a read boundary in particular ways.",
 ["src/http_reader.cpp","include/pion/http/reader.hpp","include/pion/tcp/connection.hpp","src/tcp_server.cpp"],[("read bookmark and life cycle","http_reader.cpp receive, consume_bytes; connection.hpp save_read_pos")],"responses and connection close")
p("P29","Restricted resources are served only to authenticated users",
 "A request for a restricted, not explicitly permitted resource reaches its handler only with valid credentials of an existing user (Basic) or a live session cookie obtained by a successful login (cookie), and is otherwise refused; other resources never need credentials. The identity attached to the request is the authenticated user, and logging out ends exactly that session.",
 ["histories","inputs"],"all histories of user changes, logins, logouts and requests",
 "Caches and prefix rules only fail after particular histories.",
 ["src/http_auth.cpp","src/http_basic_auth.cpp","src/http_cookie_auth.cpp","include/pion/user.hpp"],[("restriction lookup","http_auth.cpp need_authentication, find_resource"),("credential check","http_basic_auth.cpp, http_cookie_auth.cpp handle_request")],"status codes and user seen by the handler")
p("P30","The file service serves current content and never leaves its directory",
 "For every requested path the file service answers only with files inside its configured directory (or its configured file), never another file, with exactly the file's current bytes unless caching was told to keep old content, and 304, 403, 404, 405 otherwise as documented. Changes are made only when writable, only inside the directory, and exactly as requested.",
 ["inputs","histories"],"all request paths, options and file histories",
 "Traversal shapes and cache histories multiply; tests try a few paths.",
 ["services/FileService.cpp","services/FileService.hpp"],[("containment check","FileService.cpp operator()"),("cache","FileService.cpp DiskFile")],"responses and the directory tree")
p("P31","User credentials match exactly the password that was set",
 "A user is found with a password if and only if that password (or the password whose digest was installed) was the last one set for that user; adding an existing user or updating or removing an unknown one fails and changes nothing, and malformed digests are refused.",
 ["histories","inputs"],"all histories of add, update, remove and lookup",
 "Needs histories and digest boundaries; there are no tests.",
 ["include/pion/user.hpp"],[("user table","user.hpp user_manager"),("digest","user.hpp match_password, set_password_hash")],"lookup results")
p("P32","A TCP stream carries bytes completely and in order",
 "Used as an iostream, a tcp::stream delivers exactly the bytes the peer sent, in order and without loss, gaps or repetition however they arrive and are read, lets at least the last ten read characters be put back, and reports the end only at the end; everything written and successfully flushed reaches the peer in order; a failed write is reported; and no operation waits although it could finish, nor does the destructor.",
 ["schedules","inputs"],"all sequences of stream operations, arrivals, cancellations and thread wake-ups",
 "Buffer boundaries, put-back areas and wake-ups only coincide in particular schedules.",
 ["include/pion/tcp/stream.hpp","include/pion/tcp/connection.hpp"],[("stream buffer","stream.hpp underflow, overflow, xsputn, xsgetn, flush_output, operation_finished")],"characters and states of the iostream, bytes received by the peer")
p("P33","A connection is given up exactly when nothing arrives for the read timeout",
 "While a message is awaited or incomplete, the reader gives it up as soon as no byte has arrived for the read timeout (ten seconds unless set otherwise, never if set to zero) and the connection is then closed; never earlier, never because of the timer of an earlier read, and never while a complete request is being handled, however long that takes. A message given up is reported as failed, never as complete, and other connections are not affected.",
 ["schedules","histories"],"all message cuts, silences, pipelined and concurrent connections",
 "Needs time to pass at every position of a message; a leftover timer only strikes a later read.",
 ["src/http_reader.cpp","include/pion/http/reader.hpp","src/tcp_timer.cpp","include/pion/tcp/timer.hpp"],[("read timer","http_reader.cpp read_bytes_with_timeout, consume_bytes, handle_read_error"),("timer","tcp_timer.cpp start, cancel, timer_callback")],"results reported by the reader and connection close, on a clock moved by the harness")
p("P34","Loading a service configuration has exactly the effect of its lines",
 "load_service_config carries out the path, service, option, auth, user and restrict lines of the file in order, the last one included whether or not it ends with a newline, and refuses the file at the first line that is not one of these; afterwards requests reach the service that was loaded for the longest matching resource, with its options set, and the restrictions and users of the file decide who may ask. A file that defines no authentication leaves the server's authentication as it was. Services are started and stopped with the server and destroyed once, the way they were created.",
 ["inputs","histories"],"all configuration texts and histories of loads, starts, stops, clears and requests",
 "The line grammar is a hand-written state machine; tests load two fixed files.",
 ["src/http_plugin_server.cpp","include/pion/http/plugin_server.hpp","include/pion/plugin_manager.hpp"],[("configuration parser","http_plugin_server.cpp load_service_config"),("service life cycle","plugin_server.hpp before_starting, after_stopping, clear; plugin_manager.hpp")],"service objects, responses and plug-in search results")
p("P35","A server given a key serves over TLS what it would serve in plain, and nothing else",
 "Once a server was given a TLS key, a client that completes a handshake is shown the certificate of that key and from then on gets, for what it sends through TLS, exactly the answers it would get from the same server without TLS, and nothing travels in plain. No handler ever sees bytes of a connection before its handshake is over, bytes that were altered on the way, a message of which a part is missing, or anything sent in plain; a failed handshake or broken record ends that connection only, which is then no longer counted. A key that cannot be used is reported, and such a server serves nobody.",
 ["inputs","histories"],"all orders of handshake pieces, plain or altered bytes, requests and hang-ups on concurrent connections",
 "A missing branch serves correctly in every test that speaks either plain or proper TLS; the breach needs a client that does neither.",
 ["src/tcp_server.cpp","include/pion/tcp/connection.hpp","include/pion/tcp/server.hpp"],[("accept and handshake","tcp_server.cpp set_ssl_key_file, handle_accept, handle_ssl_handshake"),("choice of the layer","connection.hpp get_ssl_flag branches of read, write and handshake")],"records on the wire, handler calls, answers, connection close and counts")
p("P36","The bundled services report and set exactly what the request says, and its text never becomes markup or header lines",
 "The echo service answers with the request as it was received: method, the resource asked for and the one delivered, query, version, content length, every header, query and cookie parameter once and with its value, the content byte for byte, and the authenticated user if there is one. The cookie service lists the cookies of the request, sets or withdraws exactly the cookie it is asked for and says so; no text of the request appears in its page as markup, and no name or value, however spelled, becomes a further header line, the end of the header or another cookie; a name and value every client takes are always set. The hello, allow-nothing and log services answer each request with their one fixed answer. This holds for requests of any form (query, form, multipart, chunked, HEAD), through redirects, with authentication, and on concurrent connections.",
 ["inputs","histories"],"all requests to the bundled services: names, values, cookies, headers, resources and contents of any bytes, in any order on any connection",
 "Tests use plain names and values; the breaches need particular bytes in particular places of a request.",
 ["services/EchoService.cpp","services/CookieService.cpp","services/HelloService.cpp","services/AllowNothingService.cpp","services/LogService.cpp"],[("echo","EchoService.cpp operator()"),("cookies","CookieService.cpp operator(), is_valid_cookie"),("fixed answers","HelloService.cpp, AllowNothingService.cpp, LogService.cpp operator()")],"responses to requests: status, headers, page")
p("P37","Requests handled at once are answered by what the server's tables said at the time, and sessions serve from login to logout",
 "When several threads handle requests of concurrent clients while others add and remove resources, redirections, users, restrictions and permissions, every request gets exactly one answer, and that answer follows from the tables as they were at moments between the request and its answer: the handler that runs was registered then for the longest resource asked for, a request is not found, refused or let in only if it was to be at such a moment, and what an earlier call had changed before the request began is never ignored. Every login gives a session no one else has; it serves its user and nobody else from the login's answer until a logout of it is asked for, and never once that logout was answered. Handlers may remove or replace themselves, and answer from another thread. No schedule loses an answer, deadlocks, or calls a handler that is no longer there.",
 ["schedules","histories"],"all schedules of server threads, clients and threads that change the tables, of every history",
 "Tests make one request at a time; the breaches need a change of the tables, or another session, between two steps of a request.",
 ["src/http_server.cpp","include/pion/http/server.hpp","src/http_auth.cpp","src/http_basic_auth.cpp","src/http_cookie_auth.cpp","include/pion/user.hpp"],[("tables","http_server.cpp handle_request, find_request_handler, add_resource, remove_resource, add_redirect"),("restrictions","http_auth.cpp need_authentication"),("sessions","http_cookie_auth.cpp process_login, handle_request")],"handler calls and answers of concurrent requests, results of the calls that change tables")
if __name__=="__main__":
    for x in P: print(json.dumps(x))
