import json
out=[]
def P(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    out.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

VP=["src/x/vmem_pool.x.h","src/i/vmem_pool.i.h","src/i/vmem_layout.i.h"]
VC=["src/x/vmem_container.x.h","src/i/vmem_container.i.h","src/x/vmem_iterator.x.h","src/x/vmem_linked.x.h"]
# ---- vmem pool
P("P01","Page content persists and stays isolated across unmapping and reopening",
 "Whatever a program writes into a page of a pool is what it later reads from that page, however many other pages were locked, evicted or allocated in between, and also after the pool object was moved or closed and the file reopened. No write to one page is ever visible in another page.",
 ["histories","inputs"],"every sequence of page allocations, locks, copies, moves, unlocks, writes, pool moves and reopens, for every mapping capacity",
 "Tests write a handful of pages in fixed order with one capacity; eviction order, slot compaction and lock nesting depend on the whole history.",
 VP,[("lock_page / unlock_page / map_new_page","src/x/vmem_pool.x.h"),("make_mapping_capacity / keep_mapped_page / unmap_mapped_page compaction","src/x/vmem_pool.x.h"),("vmem_page copy/move","src/x/vmem_pool.x.h")],
 [("_mapped_pages","which file pages are mapped where, with lock and keep counts","src/i/vmem_pool.i.h")],["page memory through vmem_page::ptr()","the pool file re-read after close"])
P("P02","A page is never handed out twice and freed pages are reused first",
 "Allocating a page never returns a page that is currently allocated, nor one of the two reserved pages every pool starts with. A freed page becomes allocatable again, the most recently freed one first, and the file grows only when no free page is left; all this survives reopening the file.",
 ["histories"],"every history of allocations, frees, container clears and reopens, including allocation attempts while few or no pages can be mapped",
 "Tests free and re-allocate a few pages with ample mapping capacity; loss or duplication of free pages needs specific orders of free/alloc/clear and nearly exhausted mappings.",
 VP+["src/x/vmem_linked.x.h"],[("alloc_page/free_page/pop_free_page_pos/push_free_page_pos/create_page","src/x/vmem_pool.x.h"),("clear_linked/splice","src/x/vmem_pool.x.h, src/x/vmem_linked.x.h")],
 [("root page free_pages","linked list of free pages in the file","src/i/vmem_layout.i.h")],["vmem_page::pos()","file size"])
P("P03","Mapping never exceeds the budget and locked pages stay put",
 "A pool never keeps more pages mapped at once than the capacity it was configured with, and while a page is locked its memory stays valid at the same address, shared by every lock on that page. When all mappings are locked, a further lock or allocation yields an empty page rather than an abort, corruption or an overrun of the capacity, and service resumes once a lock is released; closing a pool leaves nothing mapped and no file open.",
 ["histories","configurations"],"every history of lock/unlock/copy/move over more pages than fit, for every capacity from the minimum up",
 "Tests check one exhaustion scenario by return value; they never look at the process mappings nor at address stability under eviction pressure.",
 VP,[("has_mapping_capacity/make_mapping_capacity","src/x/vmem_pool.x.h"),("lock_count checks in should_keep_mapped_page","src/x/vmem_pool.x.h"),("destructor unmapping and close","src/x/vmem_pool.x.h")],
 [("lock_count","number of live locks on a mapped page","src/i/vmem_pool.i.h")],["/proc/self/maps","/proc/self/fd","vmem_page::ptr()"])
P("P04","Files that are not pools are refused without damage",
 "Opening a file that is truncated, of a size no pool can have, or whose identification (version, signature, page size) does not match fails with an exception. A refused file is left byte-for-byte unchanged and no file descriptor or mapping stays behind; an empty or missing file becomes a fresh pool and a valid pool is always accepted.",
 ["inputs"],"every file content and length offered as a pool",
 "Tests open only files they created themselves (no corrupted or foreign file is tried).",
 VP,[("open_pool_or_throw/verify_root_page_or_throw/verify_start_page_or_throw","src/x/vmem_pool.x.h")],
 [("root page","version, signature, page size","src/i/vmem_layout.i.h")],["exception from the constructor","file bytes","/proc/self/fd"])
P("P05","Container state survives restarts and kills between operations",
 "A list, stack, map or string whose state lives in the pool reads back with exactly the content of the last completed operation after the process exits, the pool is closed and reopened, or the process is killed between two operations. Work can continue on the reopened pool as if it had never been closed.",
 ["crash_points","histories"],"every history of container operations and every point between two operations at which the process is killed or the pool reopened",
 "Tests never reopen a pool with container content nor kill a process.",
 VP+VC,[("MAP_SHARED mappings of the pool file","src/x/vmem_pool.x.h"),("state structs stored in pages","src/i/vmem_layout.i.h")],
 [("container states","front/back page, item counts","src/i/vmem_layout.i.h")],["content read by a fresh process"])
P("P06","Steady churn does not leak file space",
 "Pages emptied by erasing, popping or clearing go back to the pool, so a workload that repeatedly fills containers and empties them again does not make the file grow beyond its first peak. Balanced containers do not spread thin: after insertions their pages are at least about half full on average, and after erasures at least about a quarter.",
 ["histories"],"every repeated fill/drain workload on lists, stacks, maps and strings",
 "Tests look at exact page positions of one short sequence; a lost page only shows as file growth over repeated cycles.",
 VP+VC+["src/x/vmem_map.x.h"],[("erase_page / clear / balance_merge / balance_split","src/x/vmem_container.x.h"),("erase_page_pos, vmem_linked::erase/splice","src/x/vmem_linked.x.h"),("key level removal","src/x/vmem_map.x.h")],
 [],["pool file size over cycles"])
# ---- containers
P("C01","A persistent list behaves like a sequence",
 "After any operations (insert and erase at any position, of single items or ranges, push, pop, clear) a list contains exactly the items a plain sequence would contain, in the same order, with the same size, front and back. Walking forward and backward visits every item exactly once in order, and each inserting or erasing call returns the position a sequence would return.",
 ["histories","inputs"],"every history of list operations, for every item size and balancing situation (front, inner, back; full and half-empty pages)",
 "Tests run single scripted sequences with 4 items per page; split/merge behaviour depends on position, occupancy of both neighbours and history.",
 VC+["src/x/vmem_list.x.h"],[("insert_with_overflow/balance_split/insert_with_capacity","src/x/vmem_container.x.h"),("erase_from_many/balance_merge_next/balance_merge_prev","src/x/vmem_container.x.h"),("next/prev/begin/end","src/x/vmem_container.x.h")],
 [("total_item_count, front/back page","container state","src/i/vmem_layout.i.h")],["list iterators, size(), front(), back()"])
P("C02","A persistent stack is last-in first-out",
 "A stack returns its items in exactly the reverse order in which they were pushed, its size is pushes minus pops, and its top is always the latest item not yet popped. This holds across page boundaries, clearing and reopening.",
 ["histories"],"every history of push/pop/clear/back/iteration for every item size",
 "Tests push and pop one fixed number of items.",
 VC+["src/x/vmem_list.x.h"],[("vmem_stack push_back/pop_back over vmem_container","src/x/vmem_list.x.h")],[],["back(), size(), iteration"])
P("C03","A persistent map behaves like an ordered map with unique keys",
 "After any inserts, erases and lookups a map contains exactly the last-standing set of key/value pairs: every present key is found with its value, every absent key is reported absent, a duplicate insert is rejected leaving the map unchanged, and iteration visits the pairs in ascending key order exactly once in both directions. The size and the results returned by each operation agree with an ordinary ordered map, whatever the insertion and erasure order.",
 ["histories","inputs"],"every order of inserts and erases (ascending, descending, random, clustered), every key and value size, maps of any number of index levels",
 "Tests insert and erase in one scripted order; index-level maintenance depends on which leaf splits or merges and on separator keys.",
 ["src/x/vmem_map.x.h","src/i/vmem_map.i.h"]+VC,[("find2 / update_key_levels","src/x/vmem_map.x.h"),("page leads produced by insert2/erase2","src/x/vmem_container.x.h")],
 [("keys stack and values container","index levels and leaf pages","src/i/vmem_layout.i.h")],["find/contains/operator[]/insert/erase/iteration/size"])
P("C04","A persistent page list keeps order and conserves pages",
 "A list of pages holds exactly the pages linked into it, in order, in both directions, after any pushes, pops, inserts, erases, splices and clears. Splicing moves all pages of the other list to the end and leaves the other list empty; erasing and clearing hand the pages back to the pool, each exactly once.",
 ["histories"],"every history over several page lists of one pool, including splices with either or both sides empty",
 "Tests splice two fixed lists and do not look at the donor list or the pool afterwards.",
 ["src/x/vmem_linked.x.h","src/i/vmem_linked.i.h","src/x/vmem_pool.x.h"],[("insert/erase/splice/clear","src/x/vmem_linked.x.h"),("clear_linked","src/x/vmem_pool.x.h")],
 [("front/back page","linked state","src/i/vmem_layout.i.h")],["iteration, empty(), front(), back(), subsequent allocations"])
P("C05","Persistent strings stream back every byte written",
 "The bytes written to a persistent string, through its stream or its iterators, are exactly the bytes read back from it, whatever their values, amount and chunking, followed by end-of-stream and nothing else. Reading consumes no more than asked and never ends early.",
 ["inputs","histories"],"every byte string (all 256 values, any length across pages) and every split into reads and writes",
 "Tests stream short ASCII texts.",
 ["src/x/vmem_string.x.h","src/i/vmem_string.i.h","src/stream.h"],[("vmem_string_streambuf underflow/overflow","src/x/vmem_string.x.h"),("vmem_string_istream/ostream","src/x/vmem_string.x.h")],[],["bytes read through the stream and the string iterator"])
P("C06","A container operation that cannot get a page fails without damage",
 "When a list, stack or map operation cannot get a page, because the file cannot grow (full disk, even in the middle of a page) or because every mapping is locked, it either completes or is refused: the process goes on, the size and the returned position tell which, the content is then exactly the one before or after, the file keeps consisting of whole pages, and work resumes once there is room again.",
 ["inputs","histories","fault_sequences"],"every history of operations and every operation at which pages run out, whatever it was going to split, merge or add",
 "Tests exhaust a pool in a few fixed states and never run out of disk.",
 ["src/x/vmem_pool.x.h","src/x/vmem_container.x.h","src/x/vmem_map.x.h","src/x/vmem_list.x.h"],[("create_page / alloc_page","src/x/vmem_pool.x.h"),("insert_with_overflow, insert_page_after","src/x/vmem_container.x.h"),("reserve_pages, erase2, find2","src/x/vmem_map.x.h")],[],["returned position and size","content after each operation under a file size limit","file size"])
P("C07","Misuse of a container is refused without damage",
 "Opening a stored container with items (or keys and values) of another size, with items too large for a page, or without a state or a pool, erasing or dereferencing a position that has no item, inserting at one that is not in the container, popping or reading an empty container, and splicing a page list into itself are refused with an exception; erasing an absent key and inserting a present one are reported as not done. The content of every container stays what it was and remains usable.",
 ["inputs","histories"],"every container content and every misuse in between",
 "Tests try a few misuses on empty containers and do not look at the content afterwards.",
 ["src/x/vmem_container.x.h","src/x/vmem_map.x.h","src/x/vmem_linked.x.h","src/x/vmem_iterator.x.h"],[("constructor checks","src/x/vmem_container.x.h, src/x/vmem_map.x.h"),("insert2/erase2 position checks","src/x/vmem_container.x.h"),("deref","src/x/vmem_iterator.x.h")],[],["exceptions","content after each refusal"])
# ---- json
P("J01","JSON written by the library reads back as the same document",
 "Every document produced with the JSON writer is read back by the JSON reader as the same sequence of values, names and structure: equal strings, literals, booleans, nulls and bit-equal finite numbers, at any nesting depth within the reader's limit and with any whitespace option the writer offers.",
 ["inputs"],"every document tree and formatting choice",
 "Tests round-trip a few fixed documents; number formatting and escaping depend on values.",
 ["src/json.h","src/i/json.i.h"],[("json_ostream::put_*","src/json.h"),("json_istream::get_token","src/json.h")],[],["tokens of the reader on the writer's bytes"])
P("J02","The JSON reader reports exactly the structure of any valid document",
 "For every valid JSON text (nested within the reader's limit; numbers of up to 25 characters; escapes up to \\u00FF, which stand for that byte) the reader yields the tokens an independent parser finds: the same structure, the same decoded strings including escapes, and numbers equal to the nearest representable value, independent of whitespace. Skipping a value consumes exactly that value, leaving the next token the same as if it had been read.",
 ["inputs"],"every valid JSON text whose strings fit the caller's buffer, and every choice of values to skip",
 "Tests parse fixed samples; escapes, numbers, whitespace placement and skip positions are unbounded.",
 ["src/json.h","src/i/json.i.h"],[("get_token/get_string/get_number/skip_value","src/json.h")],[],["token stream"])
P("J03","The JSON reader is safe and terminates on any bytes",
 "Whatever bytes the stream delivers, and whatever the size of the caller's token buffer, the reader returns a token or signals an error after consuming a bounded amount of work, never writes outside the caller's buffer and never invokes undefined behaviour. Text that is truncated inside a value, mismatched in its brackets or missing separators is reported as bad rather than accepted as complete, and so is a token that does not fit the buffer. (Leniencies such as a trailing comma, a leading plus sign or leading zeros are tolerated.)",
 ["inputs"],"every byte sequence (valid, mutated, truncated, random) and every token buffer size",
 "Tests feed only well-formed text with a generous buffer.",
 ["src/json.h","src/stream.h"],[("buffer size checks in get_string/get_literal/get_number","src/json.h"),("nest_stack / expect tracking","src/json.h"),("is_good() / EOF handling","src/stream.h")],[],["sanitizers; stream state; bytes around the token buffer"])
P("J04","The JSON writer only produces well-formed JSON",
 "Up to the end of the outermost value, every writer call either extends the text to a prefix of a well-formed JSON text or is refused: it fails the stream and leaves the text produced so far unchanged; in particular values, names and closings out of order and nesting beyond the limit are refused. When the outermost value is closed the bytes parse as one valid JSON document of the written structure.",
 ["programs","inputs"],"every sequence of writer calls, valid or not",
 "Tests call the writer only in valid order.",
 ["src/json.h"],[("json_state expectations and nest stack","src/json.h")],[],["bytes in the underlying buffer judged by an independent parser"])
# ---- http
P("H01","HTTP requests written are read back identically",
 "A request written with the client-side writer (method, resource, protocol, any headers, any body) is read by the server-side reader with exactly the same parts, in order, and the body byte for byte including zero bytes and bytes above 127 (a run of white space inside a header value counts as one space). The bytes on the wire have the standard request form; a part that cannot be written in it is refused by failing the stream.",
 ["inputs"],"every syntactically valid method, resource, header list and body, and every read chunking",
 "Tests use a few fixed messages.",
 ["src/http.h","src/i/http.i.h"],[("http_request_ostream/http_request_istream","src/http.h"),("get_headers/get_body","src/http.h")],[],["reader results; wire bytes parsed independently"])
P("H02","HTTP responses written are read back identically",
 "A response written with the server-side writer (protocol, status, reason, headers, body) is read by the client-side reader with exactly the same parts, in order, and the body byte for byte (a run of white space inside a header value counts as one space). The bytes on the wire have the standard response form; a part that cannot be written in it is refused by failing the stream.",
 ["inputs"],"every syntactically valid status, reason, header list and body",
 "Tests use a few fixed messages.",
 ["src/http.h","src/i/http.i.h"],[("http_response_ostream/http_response_istream","src/http.h")],[],["reader results; wire bytes parsed independently"])
P("H03","HTTP readers are safe and terminate on any bytes",
 "Whatever bytes arrive, and whatever buffer sizes the caller offers, reading any part of a request or response terminates, never writes outside the caller's buffer, keeps results null-terminated within it, and flags malformed or oversized parts as bad instead of truncating them silently (malformed: an empty part, a missing colon or line break, a protocol that is not HTTP/d.d, bytes that are not allowed in the part). Nothing is reported as received that was not on the wire.",
 ["inputs"],"every byte sequence and buffer size, any sequence of reads",
 "Tests feed well-formed messages and adequate buffers.",
 ["src/http.h","src/stream.h"],[("get_token/get_protocol/get_header_value/get_resource/get_bytes","src/http.h, src/stream.h")],[],["sanitizers, guard bytes, stream state"])
P("H04","HTTP parts can only be read and written in protocol order",
 "Reading or writing a part of a message out of order (for example a header before the start line, or the body before the headers end) is refused with an exception and neither consumes nor produces bytes. Every in-order sequence is accepted, and a reset starts a new message.",
 ["programs"],"every sequence of reader and writer calls",
 "Tests only make calls in the right order.",
 ["src/http.h"],[("http_state assert_next/set_next","src/http.h")],[],["exceptions; bytes consumed/produced"])
P("H05","Request targets split into the path and query parameters they contain",
 "For every request target the server sees the exact path and the exact list of query parameters: names and values split at the first separators, in order, a lookup returning the first parameter of that name and nothing for absent names. Empty parameters are skipped, and a parameter without an equals sign has no name to be found by. Malformed targets never lead to reading outside the target text.",
 ["inputs"],"every target string",
 "Tests split a few typical targets.",
 ["src/http.h","src/i/http.i.h","src/endpoint.h"],[("splitting of the resource into path and parameters","src/http.h")],[],["accessor results compared with an independent splitter"])
# ---- sockets
P("S01","TCP streams deliver exactly the bytes sent, then end-of-stream",
 "Bytes sent over a connected TCP socket, directly or through its stream, arrive at the peer complete, in order and unmodified, whatever their values, amount and chunking and however the kernel fragments them. When the peer closes, the reader sees end-of-stream rather than invented bytes, and a read of n bytes through the stream returns n unless the stream ended. Both directions may be used at once, and moving a stream's buffer keeps the characters pending in either. A socket bound to a port alone is reachable at every local address.",
 ["schedules","inputs"],"every byte sequence, chunking on both sides, socket buffer size and thread timing",
 "Tests exchange short ASCII strings over a loopback with default buffers.",
 ["src/socket.h","src/i/socket.i.h","src/stream.h"],[("tcp_client_socket send/receive loops","src/socket.h"),("socket_streambuf underflow/overflow/sync","src/socket.h")],[],["received bytes versus sent bytes on loopback"])
P("S02","UDP sockets deliver whole datagrams with their sender",
 "Each datagram that arrives is delivered whole to one receive call with the address of its sender, so a reply to that address reaches the sender; datagrams are neither merged, split nor altered. Datagrams of any size up to the protocol's limit and any content are supported. A socket bound to a port alone receives at every local address.",
 ["inputs","schedules"],"every datagram content and size, several senders",
 "Tests send a single short message.",
 ["src/socket.h"],[("udp_socket send/receive","src/socket.h")],[],["received datagrams"])
P("S03","TLS streams deliver exactly the bytes sent and verify the peer",
 "Bytes sent over an established TLS connection arrive complete, in order and unmodified, and the plain text never appears on the wire. A client asked to verify the server refuses a server whose certificate it cannot trust, and a failed handshake leaves the process and later connections unaffected.",
 ["schedules","inputs"],"every byte sequence and chunking; trusted and untrusted servers; peers speaking garbage",
 "Tests do one happy-path exchange.",
 ["src/openssl_socket.h","src/i/openssl_socket.i.h"],[("connect_handshake/accept_handshake, SSL_read/SSL_write loops","src/openssl_socket.h")],[],["received bytes; bytes seen by a relay in the middle"])
P("S04","Socket handles are closed exactly once",
 "Every descriptor a socket object opens or accepts is closed exactly once: when the object is closed or destroyed, also when connecting, binding, listening or a handshake fails, and moving a socket transfers the descriptor without closing or duplicating it. A socket whose binding failed is closed and may be bound again. TLS contexts and sessions are released likewise, also when the construction of a socket fails. No sequence of socket operations leaks a descriptor or closes one that belongs to something else.",
 ["histories","fault_sequences"],"every history of create/bind/listen/connect/accept/move/close/destroy, including failing ones",
 "Tests do not look at descriptors.",
 ["src/socket.h","src/openssl_socket.h"],[("basic_socket ctor/move/close/dtor","src/socket.h")],[("_handle","socket descriptor","src/i/socket.i.h")],["/proc/self/fd; recorded close() calls"])
P("S05","A vanishing peer is an error, never the end of the process",
 "When the peer closes or resets a connection at any moment, sending and receiving report failure through a return value, stream state or exception. The process is never terminated by it, and other connections are unaffected.",
 ["fault_sequences","schedules"],"every point at which the peer closes, half-closes or resets, for plain and TLS sockets",
 "Tests never break a connection.",
 ["src/socket.h","src/openssl_socket.h"],[("::send / SSL_write error handling","src/socket.h, src/openssl_socket.h")],[],["process survival (signals), return values"])
# ---- endpoint
P("E01","Every request gets exactly its own response, also under concurrency",
 "Each well-formed request sent to a running endpoint receives exactly one complete response, computed from that request alone, however many clients are connected and however their requests and bodies are interleaved or fragmented in time.",
 ["schedules","inputs"],"every number of concurrent clients, interleaving and fragmentation",
 "No existing test runs an endpoint.",
 ["src/endpoint.h","src/i/endpoint.i.h","src/http.h","src/socket.h"],[("start/process_request threads","src/endpoint.h"),("process_rest_request/send_simple_response","src/endpoint.h")],[],["client-side responses carrying unique ids"])
P("E02","Static files are served exactly, and only from the served folder",
 "A GET for an existing file under the files prefix returns that file byte for byte, with its exact length and the media type of its extension; a missing file yields a not-found error and other methods a method error, with no file content. No request target, however encoded or constructed, makes the server return content of a file outside the configured folder.",
 ["inputs"],"every file content and size and every request target",
 "No existing test runs an endpoint.",
 ["src/endpoint.h"],[("process_file_request","src/endpoint.h"),("make_root_dir_path","src/endpoint.h")],[],["client-side responses versus file bytes"])
P("E03","No client behaviour takes the server down",
 "Whatever bytes a client sends, at whatever pace, and whenever it disconnects or resets, the server process keeps running without memory errors and keeps answering other clients correctly.",
 ["inputs","fault_sequences","schedules"],"every byte stream, stall and disconnect point",
 "No existing test runs an endpoint.",
 ["src/endpoint.h","src/http.h","src/socket.h"],[("process_request exception and stream-state handling","src/endpoint.h")],[],["process survival, sanitizer reports, probe requests after each attack"])
P("E04","Shutdown completes once, after the work in flight",
 "After a shutdown request, however many arrive and however they interleave with other requests, the endpoint's completion is signalled exactly once, only after every request already being processed has been answered. It stops accepting work, and it can be destroyed without crash or race.",
 ["schedules"],"every interleaving of shutdown requests with other requests and with start",
 "No existing test runs an endpoint.",
 ["src/endpoint.h"],[("_is_shutdown_requested/_requests_in_progress/_promise","src/endpoint.h")],[("_requests_in_progress","in-flight requests","src/i/endpoint.i.h")],["future completion versus response log"])
P("E05","Concurrent use of the endpoint and of the shared log is free of data races",
 "Serving any mix of concurrent requests, including logging from every thread to a shared log and shutting down, performs no unsynchronised conflicting accesses.",
 ["schedules"],"every thread interleaving of concurrent requests, logging and shutdown",
 "No existing test is multi-threaded on shared objects, and none runs under a race detector.",
 ["src/endpoint.h","src/log.h","src/table.h","src/multifile.h"],[("atomics in endpoint","src/endpoint.h"),("thread_local line streams / one write per line","src/log.h, src/table.h")],[],["race detector reports"])
# ---- diagnostics & primitives
P("L01","Formatted lines never overflow and contain what was put",
 "Whatever is put into a bounded text line, in whatever order and size, never writes or reads outside the line and never throws; what fits is output exactly as formatted, what does not fit is cut at the line's capacity, and each flushed line ends with exactly one line break. Hex dumps show every byte of the data exactly once with its offset.",
 ["inputs","programs"],"every sequence of puts, values and data sizes, for every line capacity",
 "Tests put small values that fit.",
 ["src/table.h","src/i/table.i.h"],[("put_anyv/put_char/put_binary/ends/flush","src/table.h")],[],["flushed bytes; sanitizers"])
P("L02","Log output contains exactly the entries its filter admits",
 "Every entry at or above the configured severity is written exactly once, in program order, with the given category, tag, severity, message and arguments in the documented column layout; entries below it are not written at all. Oversized messages are cut without affecting neighbouring entries.",
 ["inputs","configurations"],"every severity, filter, layout, message and argument",
 "Tests log without checking the output bytes.",
 ["src/log.h","src/i/log.i.h","src/table.h","src/test.h"],[("log_filter","src/log.h"),("debug/diag/test line layouts","src/log.h, src/test.h")],[],["lines in the log's target buffer"])
P("L03","Log lines from concurrent threads never mix",
 "When several threads log to the same destination, every line appears whole: no line is lost, duplicated, split or merged with another, and the lines of one thread stay in order.",
 ["schedules"],"every number of threads and interleaving, to a file or pipe opened for appending",
 "Tests log from a single thread.",
 ["src/table.h","src/log.h"],[("one contiguous write per flushed line","src/table.h")],[],["the destination's bytes, lines carrying thread and sequence numbers"])
P("L04","Rotating log files conserve every line",
 "Across any number of rotations, everything written to a multi-file stream ends up in the files, in order, exactly once: the files concatenated in name order are the text written. Each file's name is the UTC time of its creation under the given folder. A stream limited by duration or size moves to a new file at the first flush at which its file has reached the limit, and never before; a reopening within the same second continues the same file. A missing path, or one too long for the stream, is refused with an exception, and a flush whose data could not be written is reported as failed.",
 ["histories","inputs"],"every history of writes, flushes and rotations, durations and path lengths",
 "Tests write a couple of lines with one rotation.",
 ["src/multifile.h","src/i/multifile.i.h"],[("multifile_streambuf sync/reopen","src/multifile.h")],[],["the files in the folder"])
P("T01","Timestamps show the correct UTC calendar date and time",
 "For every point in time from 1970 on, as far as signed 64-bit nanoseconds reach (2262) and for whole dates up to the year 9999, the year, month, day, hour, minute, second and sub-second fields are those of the proleptic Gregorian calendar in UTC, and equal times give equal fields.",
 ["inputs"],"every second from 1970 to 2262; dates to 9999",
 "Tests sample a few dates.",
 ["src/timestamp.h","src/i/timestamp.i.h"],[("reset_date/reset_time","src/timestamp.h")],[],["fields compared with the C library calendar"])
P("A01","Character classes and conversions follow ASCII",
 "For every character value, each character test agrees with the ASCII and HTTP/JSON definitions it documents, hex digits convert to and from their values, and case-insensitive comparison equates exactly the texts that differ only in ASCII letter case.",
 ["inputs"],"all 256 character values and all pairs; every string pair",
 "Tests check selected characters.",
 ["src/ascii.h"],[("predicates, to_lower, to_hex/from_hex, equal_i","src/ascii.h")],[],["exhaustive comparison"])
P("B01","Memory streams read and write exactly the given buffer",
 "A stream over a caller's memory yields exactly the bytes of the input part, then end-of-stream, and stores exactly the bytes written into the output part, refusing what does not fit and touching nothing outside. Positions and contents survive moving the stream buffer, and primitive reads and writes report the exact number of characters moved.",
 ["inputs","programs"],"every buffer size, content and sequence of reads, writes and moves",
 "Tests use small fixed buffers and never overfill or move them.",
 ["src/buffer_streambuf.h","src/stream.h","src/i/stream.i.h"],[("buffer_streambuf get/put areas","src/buffer_streambuf.h"),("istream/ostream get_*/put_* primitives","src/stream.h")],[],["guarded buffers, gcount/pcount"])
P("M01","The library does not allocate heap memory",
 "Persistent containers, JSON and HTTP readers and writers, line, log, memory and socket streams work without any heap allocation of their own, so a program controls its memory use entirely.",
 ["inputs","programs"],"every operation on those facilities",
 "Tests count allocations only across the fixed scenarios they run.",
 ["doc/fundamentals/intent.md","src/vmem.h","src/json.h","src/http.h","src/table.h","src/log.h"],[("fixed-size members and caller buffers only","src/i/*.i.h")],[],["intercepted operator new / malloc during library calls"])
P("X01","Separate objects do not affect each other",
 "Objects that a program creates separately (pools over different files and their containers, JSON and HTTP streams over different buffers, logs and lines, rotating files in different folders, timestamps, socket streams over different connections) behave as if each was the only one: used in turns by one thread or at the same time by several, every one gives exactly the results it gives alone, and no two threads access the same memory without synchronization.",
 ["schedules","histories"],"every set of such objects of the same or of different kinds, every order of turns and every schedule of the threads that own them",
 "The tests run one after another on one thread and use one object at a time.",
 ["src/vmem.h","src/json.h","src/http.h","src/log.h","src/table.h","src/multifile.h","src/timestamp.h","src/socket.h","src/buffer_streambuf.h"],[("state is kept in members and caller buffers only","src/i/*.i.h")],[],["results of every object compared with those of the same operations on it alone","ThreadSanitizer"])
P("K01","The test framework runs every test once and never hides a failure",
 "A test suite runs each of its tests exactly once, in order, whatever the other tests do; it passes if and only if every test returned true; a test that throws anything counts as failed and the rest still run. Comparisons return whether the values are equal and log all of both values. A run with the seed of an earlier run draws the same random numbers.",
 ["inputs","programs"],"every suite, every outcome of every test, every pair of compared values",
 "The library's own tests all pass, so failing and throwing tests are never run.",
 ["src/test.h"],[("test_suite::run","src/test.h"),("test_context::are_equal","src/test.h")],[],["order and outcome of the tests, verdict, log"])
GS=["src/x/gpio_smbus.x.h","src/i/gpio_smbus.i.h","src/x/gpio_smbus_pwm.x.h","src/x/gpio_smbus_servo.x.h","src/x/gpio_smbus_motor.x.h","src/x/gpio_smbus_grayscale.x.h"]
P("G01","Device commands put on the bus exactly what was asked",
 "Every SMBus register access, pulse-width setting, servo turn, motor command and grayscale reading results in exactly the bus transactions that its parameters determine, addressed to its own target, in the target's byte order and within the device's range (a PWM clock of at least 4 ticks per cycle, frequencies of at least 1 Hz, pulse widths with a clock of at least 1 MHz); readings returned are the ones on the bus. An operation reports success exactly when all of its transactions succeeded, and one that fails makes no further transactions. Threads sharing a bus never reach each other's targets. Device files are opened once, closed once and not left open by a construction that fails.",
 ["inputs","schedules","fault_sequences"],"every register, value, block, frequency, duty, angle and bus content, every failing transaction, and all interleavings of threads sharing a bus",
 "No existing test runs the device code, which needs hardware.",
 GS,[("put_*/get_* and ensure_address","src/x/gpio_smbus.x.h"),("prescaler and autoreload","src/x/gpio_smbus_pwm.x.h"),("duty and angle scaling","src/x/gpio_smbus_servo.x.h, src/x/gpio_smbus_motor.x.h")],[("_addr","the target the bus is addressed to","src/i/gpio_smbus.i.h")],["ioctl calls on a stand-in device","results of the operations"])
P("G02","Lines, pulses and echoes follow the levels and times asked for",
 "A chip reports the identity and line data of its device. A line is requested with its own position and flags, reads and puts exactly the levels asked, waits for a level no longer than its timeout (and sees one that comes in time), survives moves, and is released exactly once. A distance measurement sends one trigger pulse of at least 10 microseconds and returns the time of flight of the echo converted to the unit of distance, or the maximum when no echo comes in time, whatever was measured before. A software PWM puts pulses of the width and period that its frequency, range and duty cycle determine until told otherwise, keeps a timed duty cycle for its time, leaves its line low when destroyed, and impossible parameters are refused.",
 ["inputs","histories","fault_sequences"],"every position, level, timeout, echo timing, unit, maximum distance, frequency, range and duty cycle, with failing devices, moves and any order of operations",
 "No existing test runs the device code, which needs hardware; pulse and echo timing cannot be asserted in real time.",
 ["src/x/gpio_chip.x.h","src/x/gpio_line.x.h","src/x/gpio_ultrasonic.x.h","src/x/gpio_pwm_emulator.x.h"],[("GPIO_V2_GET_LINE_IOCTL, expect_level","src/x/gpio_line.x.h"),("measure_distance","src/x/gpio_ultrasonic.x.h"),("thread_func","src/x/gpio_pwm_emulator.x.h")],[("_fd","the descriptor of a line","src/i/gpio_line.i.h")],["ioctl calls and their times on a stand-in device, under a virtual clock"])
P("G03","Motion readings and tracked positions follow the sensor",
 "A motion sensor configures its device for the ranges it assumes, reads exactly the channels asked for, reports them in physical units (16 g and 2000 degrees per second at full scale, degrees Celsius) relative to its calibration, and reports zero for a channel that was not asked for or could not be read. Calibrating takes the average of steady readings. While a tracker runs, its depth, width, direction and speed are what integrating the readings over the times between them gives, starting from the values last set; stopping it forgets the speed, restarting does not integrate over the pause; starting, stopping, restarting or destroying it at any moment neither hangs nor ends the process.",
 ["inputs","schedules","histories"],"every content of the sensor, mask, calibration, sequence of readings and time steps, and every moment of start, stop, set and destruction",
 "No existing test runs the device code, which needs hardware; the lost wake-ups need particular interleavings.",
 ["src/x/gpio_smbus_motion.x.h","src/x/gpio_smbus_motion_tracker.x.h"],[("get_measurements / calibrate / get_value_from_measurement","src/x/gpio_smbus_motion.x.h"),("thread_func, start, stop","src/x/gpio_smbus_motion_tracker.x.h")],[("_run, _quit","what the tracker thread is asked to do","src/i/gpio_smbus_motion_tracker.i.h")],["the readings given by a stand-in device and their virtual times; the tracked values"])
with open('/verif/properties.jsonl','w') as f:
    for o in out: f.write(json.dumps(o)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for o in out: jsonschema.validate(o,s)
print(len(out))
