# What each check runs, and what the run must at least have observed to mean anything.
PROPS = {
 'P01': dict(runs=[dict(src='vmem_pages.cpp', quick=1200, thorough=60000)], require={'pages_verified': 20000, 'pointers_verified': 10000, 'reopens': 500, 'evictions_possible': 2000},
   technique='model-based runtime monitor of page content under AddressSanitizer/UBSan',
   rule='random histories of page alloc/lock/copy/move/write/free, pool moves and reopens, capacities 3..16; non-trivial: more pages in use than can be mapped; distinct by history shape'),
 'P02': dict(runs=[dict(src='vmem_pages.cpp', quick=1600, thorough=80000)], require={'reused': 3000, 'drained': 3000, 'scarce_allocs': 300},
   technique='allocation-history monitor (ownership, LIFO reuse, conservation) under AddressSanitizer/UBSan',
   rule='random alloc/free/clear/reopen histories incl. scarce mappings; non-trivial: several pages drained or scarce allocation attempts; distinct by history shape'),
 'P03': dict(runs=[dict(src='vmem_pages.cpp', quick=1200, thorough=40000)], require={'stdin_closed': 40, 'refused': 1000, 'full_states': 1000, 'map_checks': 20000, 'hoards': 20},
   technique='runtime monitor on /proc/self/maps and lock addresses under AddressSanitizer/UBSan',
   rule='random lock/unlock/copy/move histories over more pages than fit, capacities 3..40; non-trivial: exhaustion reached; distinct by history shape'),
 'C01': dict(runs=[dict(src='vmem_list.cpp', quick=2400, thorough=100000)], require={'inserts': 30000, 'erases': 20000, 'full_checks': 30000, 'self_inserts': 2000, 'long_lists': 1},
   technique='reference-model (sequence) monitor over list histories under AddressSanitizer/UBSan',
   rule='random insert/erase/range/push/pop/clear/reopen histories with 2..508 items per page, some of more than 65536 items; every op compared with a std::vector model; non-trivial: more than two pages of items went through; distinct by history shape'),
 'C02': dict(runs=[dict(src='vmem_list.cpp', quick=2400, thorough=80000)], require={'pushes': 50000, 'pops': 30000, 'full_checks': 20000, 'long_stacks': 1},
   technique='reference-model (LIFO) monitor over stack histories under AddressSanitizer/UBSan',
   rule='random push/pop/clear/reopen histories, 1..508 items per page, some of more than 65536 items; non-trivial: more than one page; distinct by history shape'),
 'C03': dict(runs=[dict(src='vmem_map.cpp', quick=480, thorough=40000)], require={'inserts': 30000, 'erases': 20000, 'full_checks': 10000, 'two_or_more_index_levels': 50, 'long_maps': 1},
   technique='reference-model (ordered map) monitor over map histories under AddressSanitizer/UBSan',
   rule='random insert/erase/range/lookup/clear/reopen/drain histories (ascending, descending, clustered, random) with 1..240 items per page and up to several index levels, some of more than 65536 items; every result compared with std::map; non-trivial: the map had an index level; distinct by history shape'),
 'C04': dict(runs=[dict(src='vmem_misc.cpp', quick=2000, thorough=100000)], require={'inserts': 20000, 'erases': 10000, 'splices': 5000, 'handed_back': 5000},
   technique='reference-model and page-conservation monitor over page-list histories under AddressSanitizer/UBSan',
   rule='random push/pop/insert/erase/splice/clear/reopen histories over four lists of one pool; non-trivial: the history splices; distinct by history shape'),
 'C05': dict(runs=[dict(src='vmem_misc.cpp', quick=600, thorough=30000)], require={'chars': 500000, 'reads': 10000, 'writes': 5000, 'moves': 100},
   technique='differential runtime monitor of string streams against std::basic_string under AddressSanitizer/UBSan',
   rule='random chars (all byte values) written and read back through streams and iterators in random pieces, with moves of the buffer, reopens and interleaved reads; non-trivial: the string spans pages; distinct by history shape and length'),
 'C06': dict(runs=[dict(src='vmem_fault.cpp', quick=1600, thorough=80000)], require={'operations': 50000, 'faulted_refused': 5000, 'faulted_done': 5000, 'checks': 20000, 'reopens': 500, 'few_refused': 50, 'few_done': 20},
   technique='reference-model monitor over container histories with injected page exhaustion (file size limit, locked mappings) under AddressSanitizer/UBSan',
   rule='random list, stack and map operations of which a quarter meets a full disk (also in the middle of a page) or a pool all of whose mappings are locked; content compared with the models after each; non-trivial: every case; distinct by the outcomes'),
 'C07': dict(runs=[dict(src='vmem_fault.cpp', quick=1600, thorough=80000)], require={'refused': 30000, 'checks': 20000, 'reopens': 500},
   technique='misuse monitor (documented exception, unchanged content and file) over container histories under AddressSanitizer/UBSan',
   rule='random container histories with seventeen kinds of misuse in between; content compared with the models after each; non-trivial: every case; distinct by the misuses'),
 'P06': dict(runs=[dict(src='vmem_misc.cpp', quick=720, thorough=20000)], require={'cycles': 1500, 'conservation_checks': 400, 'occupancy_checks': 100, 'deep_maps': 1},
   technique='page-conservation monitor (file size, pages in use) over repeated fill/drain cycles under AddressSanitizer/UBSan',
   rule='identical fill/drain cycles of lists, stacks, maps, page lists and strings, other containers live; non-trivial: every case; distinct by workload'),
 'P04': dict(runs=[dict(src='vmem_file.cpp', quick=400, thorough=20000)], require={'stdin_closed': 20, 'opens': 4000, 'refused': 3000, 'accepted': 500},
   technique='runtime monitor of refusal, file bytes, descriptors and mappings over mutated pool files under AddressSanitizer/UBSan',
   rule='truncated, extended, mutated, foreign, empty and missing files and impossible paths; non-trivial: every offered file; distinct by content'),
 'P05': dict(runs=[dict(src='vmem_file.cpp', quick=480, thorough=20000)], require={'kills': 500, 'closes': 300, 'exits': 100, 'ops': 20000},
   technique='kill-and-restart monitor: child processes killed between operations, content compared with a model by fresh processes, under AddressSanitizer/UBSan',
   rule='rounds of container operations, each ended by SIGKILL, _exit or close; non-trivial: at least one kill; distinct by history shape'),
 'J01': dict(runs=[dict(src='json.cpp', quick=24000, thorough=2000000)], require={'moves': 10000, 'tokens_written': 300000, 'tokens_read': 300000},
   technique='round-trip monitor over random documents (bit-exact token comparison) under AddressSanitizer/UBSan',
   rule='random documents (all byte values, all kinds of doubles, depth up to the limit) with random whitespace, written and read back over three kinds of stream buffer; non-trivial: every document; distinct by text'),
 'J02': dict(runs=[dict(src='json.cpp', quick=24000, thorough=2000000)], require={'moves': 10000, 'tokens_read': 200000, 'skipped_values': 10000, 'skipped_containers': 1000},
   technique='differential runtime monitor against an independent JSON generator and parser under AddressSanitizer/UBSan',
   rule='random strictly valid texts (escapes, number spellings, whitespace) with random skips and exact-size token buffers; non-trivial: every text; distinct by text and skips'),
 'J03': dict(runs=[dict(src='json.cpp', quick=60000, thorough=6000000)], require={'moves': 10000, 'failed': 20000, 'bad_texts': 20000, 'accepted': 5000, 'counted_sources': 10000},
   technique='hostile-input monitor (termination, bounded work, buffer guards, acceptance oracle) under AddressSanitizer/UBSan',
   rule='truncated, mutated, random and valid texts, token buffers from the minimum size; non-trivial: every text; distinct by text'),
 'J04': dict(runs=[dict(src='json.cpp', quick=30000, thorough=3000000)], require={'moves': 10000, 'calls': 200000, 'refused': 5000, 'complete_texts': 1500, 'full_buffers': 1000},
   technique='call-sequence monitor: every prefix judged by an independent state machine and parser under AddressSanitizer/UBSan',
   rule='random legal and illegal writer call sequences, unbounded and exact-size targets; non-trivial: every sequence; distinct by calls and text'),
 'H01': dict(runs=[dict(src='http.cpp', quick=16000, thorough=1000000)], require={'moves': 10000, 'requests_written': 16000, 'parts_read': 80000, 'refused_parts': 10000},
   technique='round-trip monitor with an independent wire parser over random requests under AddressSanitizer/UBSan',
   rule='random requests (all token and printable chars, folded headers, any body bytes), one to three per stream, read with just-fitting buffers from a chunked source; non-trivial: every request; distinct by content'),
 'H02': dict(runs=[dict(src='http.cpp', quick=16000, thorough=1000000)], require={'moves': 10000, 'responses_written': 16000, 'parts_read': 80000, 'refused_parts': 10000},
   technique='round-trip monitor with an independent wire parser over random responses under AddressSanitizer/UBSan',
   rule='random responses, one to three per stream, read with just-fitting buffers from a chunked source; non-trivial: every response; distinct by content'),
 'H03': dict(runs=[dict(src='http.cpp', quick=60000, thorough=5000000)], require={'moves': 5000, 'rejected': 20000, 'accepted': 100000, 'truncated': 10000, 'size_zero': 500},
   technique='hostile-input monitor (independent grammar oracle, buffer guards, bounded work) under AddressSanitizer/UBSan',
   rule='truncated, mutated, random and valid messages, buffers of every size around what is needed; non-trivial: every message; distinct by bytes and buffer sizes'),
 'H04': dict(runs=[dict(src='http.cpp', quick=24000, thorough=2000000)], require={'moves': 10000, 'writes': 150000, 'reads': 100000, 'refused': 50000, 'resets': 10000, 'refused_on_failed': 10000},
   technique='call-sequence monitor against a reference state machine under AddressSanitizer/UBSan',
   rule='random call sequences over the four stream kinds; non-trivial: every sequence; distinct by calls'),
 'H05': dict(runs=[dict(src='http.cpp', quick=60000, thorough=5000000)], require={'found': 50000, 'absent': 200000, 'from_wire': 10000},
   technique='differential monitor against an independent splitter, with guarded buffers, under AddressSanitizer/UBSan',
   rule='random targets dense in separators, exact and oversized buffers with hostile fill; non-trivial: every target; distinct by target'),
 'S01': dict(runs=[dict(src='net.cpp', quick=640, thorough=40000)], hang_s=20, require={'bytes': 500000, 'connections': 300, 'eofs': 300, 'moves': 300, 'duplex': 80, 'shuttles': 60, 'moves_with_both_pending': 100, 'binds_to_every_address': 80, 'injected': 2000},
   technique='end-to-end byte monitor over loopback connections with fragmenting buffers, injected short and interrupted calls and random delays, under AddressSanitizer/UBSan',
   rule='random byte strings in random pieces through sockets and streams, both directions at once, with moves and closes; non-trivial: every connection; distinct by bytes'),
 'S02': dict(runs=[dict(src='net.cpp', quick=640, thorough=60000)], hang_s=30, require={'sent': 8000, 'received': 8000, 'replies': 2000, 'connected_replies': 100, 'binds_to_every_address': 100, 'threaded_batches': 300},
   technique='datagram ledger (size, bytes, sender, reply) over loopback under AddressSanitizer/UBSan',
   rule='random datagrams of 0 to 65507 bytes from one to four senders, replies to the reported address; non-trivial: every case; distinct by sizes'),
 'S03': dict(runs=[dict(src='net.cpp', quick=320, thorough=20000)], hang_s=30, require={'encrypted_keys': 10, 'bytes': 200000, 'through_relay': 60, 'untrusted': 30, 'garbage_peers': 60, 'plain_servers': 30, 'cut_or_altered': 8, 'wire_searches': 300},
   technique='end-to-end byte monitor plus a recording, fragmenting and tampering relay between TLS peers under AddressSanitizer/UBSan',
   rule='random byte strings through TLS sockets and streams directly and through the relay; untrusted servers, garbage peers, cut and altered connections with good ones between; non-trivial: every case; distinct by content'),
 'S04': dict(runs=[dict(src='net.cpp', quick=640, thorough=60000)], hang_s=30, require={'ledger_checks': 10000, 'closes': 500, 'destroys': 500, 'moves': 500, 'connect_failures': 300, 'accepted': 100, 'handshake_failures': 30, 'failed_constructions': 300, 'bind_failures': 100, 'binds_again': 40, 'tls_handles': 1000, 'decoys': 500, 'stdin_closed': 100, 'descriptor_zero': 300},
   technique='descriptor ledger over interposed socket/accept/close/send calls, with decoy files on reused numbers, under AddressSanitizer/UBSan',
   rule='random histories of construct, bind, listen, connect, accept, move, close and destroy over five kinds of socket, with failing calls, dead ports, garbage peers and injected EMFILE; non-trivial: every history; distinct by operations'),
 'S05': dict(runs=[dict(src='net.cpp', quick=320, thorough=20000)], hang_s=40, require={'vanished_peers': 500, 'resets': 150, 'closes': 150, 'half_closes': 150, 'bystander_checks': 150, 'tls_survived': 50},
   technique='peer-fault injection with a survival monitor (default SIGPIPE) under AddressSanitizer/UBSan',
   rule='peers that reset, close or half-close after random amounts of traffic and inside TLS handshakes, with a bystander connection; non-trivial: every case; distinct by the scripts'),
 'E01': dict(runs=[dict(src='endpoint.cpp', quick=160, thorough=8000)], hang_s=60, require={'requests': 1000, 'overlapping': 60, 'unread_bodies': 40, 'tls_servers': 20, 'servers': 60},
   technique='request/response monitor with exactly-once handler ledger over concurrent fragmented clients, under AddressSanitizer/UBSan',
   rule='1..8 concurrent clients with 1..4 requests each (random methods, resources, headers, bodies up to 60 kB, fragmentation, half-closes, slow readers, unread bodies), plain and TLS, IPv4/IPv6; each response compared with the one the request determines; non-trivial: every case; distinct by the sizes of the requests'),
 'E02': dict(runs=[dict(src='endpoint.cpp', quick=128, thorough=8000)], hang_s=60, require={'files_served': 600, 'methods_refused': 80, 'missing': 60, 'special_files': 20, 'too_long': 4, 'attacks': 400, 'changing': 15, 'longest_paths': 30},
   technique='content and containment monitor over live endpoints (marked secrets around the served folder, file bytes as oracle), under AddressSanitizer/UBSan',
   rule='random trees (sizes at the chunk edges, odd names, longest nameable paths, FIFOs, devices, sockets, dangling links) with marked secrets around the root; GETs of each kind of target, other methods, traversal in fifteen spellings, files changing while served; non-trivial: every case; distinct by tree'),
 'E03': dict(runs=[dict(src='endpoint.cpp', quick=96, thorough=8000)], hang_s=60, require={'probes': 300, 'resets': 200, 'closes': 200, 'half_closes': 60, 'abandoned_responses': 60, 'throwing_handlers': 30, 'mutated': 30, 'overlong': 30, 'idle': 30, 'thread_failures': 10, 'accept_failures': 10, 'probed_while_others_idle': 15, 'cut_lines': 20},
   technique='hostile-client stress with bystander probes, a survival monitor and a descriptor ledger (default SIGPIPE; accept and thread creation made to fail), under AddressSanitizer/UBSan',
   rule='one to five attackers with three to ten attacks of fifteen kinds each (garbage, cut, overlong, mutated, flooding, dripping, pipelined, idle, abandoned, throwing handlers, wrong protocol) with resets, closes and half-closes, plain and TLS, beside a well-behaved client; non-trivial: every case; distinct by the attacks'),
 'E04': dict(runs=[dict(src='endpoint.cpp', quick=320, thorough=20000)], hang_s=60, require={'answered': 400, 'refused': 100, 'shutdown_requests': 300, 'idle_connections': 150, 'failed_starts': 20, 'early_shutdowns': 20, 'restarts_on_the_same_port': 30},
   technique='completion monitor (in-flight count, late work, response ledger, refusal afterwards, immediate destruction) over racing shutdown requests under AddressSanitizer/UBSan',
   rule='one to four shutdown requests racing with up to nine delayed requests and idle connections, endpoint and log destroyed at completion, restarts on the same port, shutdown before start, failing starts; non-trivial: every case; distinct by outcome mix and requests'),
 'E05': dict(runs=[dict(src='endpoint.cpp', variant='tsan', quick=240, thorough=20000)], hang_s=90, require={'requests': 600, 'overlapping': 60, 'log_lines': 20000, 'shutdown_runs': 60, 'shutdown_requests': 120, 'answered': 150, 'silent_runs': 20, 'files': 200},
   technique='ThreadSanitizer over concurrent requests, logging and shutdown of real endpoints, with response and completion monitors',
   rule='one to eight concurrent clients and one to four racing shutdown requests per endpoint, every thread logging at full verbosity to one shared log file; non-trivial: every case; distinct by the requests'),
 'L01': dict(runs=[dict(src='diag.cpp', quick=40000, thorough=400000)], require={'puts': 40000, 'cut': 2000, 'flushes': 5000, 'moves': 2000, 'dump_lines': 5000},
   technique='model-based monitor of every line and of the flushed output, lines in exactly sized memory, under AddressSanitizer/UBSan',
   rule='random sequences of formatted, timestamp, thread and binary puts, flushes and moves over lines of 1 to 2048 chars; non-trivial: more than three operations; distinct by operations and output'),
 'L02': dict(runs=[dict(src='diag.cpp', quick=40000, thorough=300000)], require={'admitted': 15000, 'filtered': 10000, 'cut_entries': 1500, 'binary_lines': 3000, 'blank_lines': 2000},
   technique='model-based monitor of the log output byte by byte under a controlled clock, under AddressSanitizer/UBSan',
   rule='random entries (category, severity, tag, text, values, binary) through the three layouts, line sizes 20 to 2048, filters changing between entries; non-trivial: every case; distinct by output'),
 'L03': dict(runs=[dict(src='diag.cpp', quick=600, thorough=60000), dict(src='diag.cpp', variant='tsan', quick=240, thorough=20000)], hang_s=60, require={'lines': 60000, 'interleaved': 300, 'switches': 10000, 'files': 150, 'm_pipe': 40, 'm_own_appending': 40, 'm_memory': 40, 'm_small_buffer': 40},
   technique='per-thread line ledger over concurrent loggers on files, pipes, memory and rotating files, under AddressSanitizer/UBSan and under ThreadSanitizer',
   rule='two to eight threads logging text, dumps and blank lines through one shared log or one log each, over seven kinds of target with yields inside lines; non-trivial: every case; distinct by the observed interleaving of lines'),
 'L04': dict(runs=[dict(src='diag.cpp', quick=16000, thorough=200000)], require={'writes': 10000, 'rotations': 1000, 'not_due': 2000, 'reopens': 2000, 'same_second': 500, 'moves': 800, 'refused_paths': 200, 'longest_paths': 100, 'failed_files': 100, 'existing_files': 300},
   technique='model of folder, file names and contents compared with the real folder after operations, under a controlled clock and AddressSanitizer/UBSan',
   rule='random writes, flushes, clock advances, reopens and moves over plain, duration- and size-limited streams, open modes, existing files, longest paths, full and unopenable files; non-trivial: every case; distinct by operations'),
 'T01': dict(runs=[dict(src='misc.cpp', quick=2400, thorough=200000)], require={'days': 2932897, 'seconds_of_day': 345600, 'times': 500000, 'comparisons': 1000000},
   technique='exhaustive and random differential monitor against the calendar rules and the C library, under UBSan',
   rule='every day of 1970..9999, every second of a day, random and edge nanosecond times up to the end of the 64-bit range over clocks of several resolutions, all pairs compared; non-trivial: every case; distinct by the times'),
 'A01': dict(runs=[dict(src='misc.cpp', quick=2400, thorough=400000)], require={'char_tests': 3840, 'char_pairs': 65536, 'equal': 20000, 'different': 20000, 'unterminated': 100000},
   technique='exhaustive differential monitor of the character functions, random string pairs in exactly sized memory, under AddressSanitizer/UBSan',
   rule='all 256 characters, all pairs, random string pairs differing in case, length and single characters; non-trivial: every case; distinct by the strings'),
 'B01': dict(runs=[dict(src='misc.cpp', quick=40000, thorough=4000000)], require={'ops': 500000, 'moves': 40000, 'refused': 30000, 'large_buffers': 200, 'ends': 10000, 'ungets': 20000, 'stream_moves': 10000, 'stream_reads': 20000, 'stream_writes': 20000},
   technique='reference-model monitor of memory streams over exactly sized buffers under AddressSanitizer/UBSan',
   rule='random reads, writes, ungets and moves over narrow and wide buffers of 0..400 characters, whole and partial areas, and the library stream classes over them; non-trivial: every case; distinct by operations and content'),
 'M01': dict(runs=[dict(src='misc.cpp', variant='plain', quick=480, thorough=60000)], require={'watched_scopes': 480, 'parameters': 1000, 'ranges': 40, 'json_texts': 1000, 'http_texts': 1000, 'vmem': 40, 'json': 40, 'http': 40, 'logs': 80, 'sockets': 40},
   technique='interposed malloc/calloc/realloc/memalign watched around library calls, with a self-test of the interposition',
   rule='random workloads over containers (single items, ranges, iterators, splices, copies, moves, exhausted pools), JSON and HTTP (well-formed, arbitrary and misused), logs, lines and socket streams, without and with a log at full verbosity; non-trivial: every case; distinct by workload'),
 'X01': dict(runs=[dict(src='indep.cpp', quick=320, thorough=30000), dict(src='indep.cpp', variant='tsan', quick=240, thorough=20000)], hang_s=60, require={'switches': 20000, 'threads': 800, 'json_writers': 100, 'json_readers': 100, 'http': 100, 'vmem': 100, 'lines': 100, 'files': 100, 'sockets': 100},
   technique='differential monitor: each object alone against the same operations in turns with others and in threads, under AddressSanitizer/UBSan and under ThreadSanitizer',
   rule='two to seven users (JSON writer/reader, HTTP streams, pool with containers, log and lines, rotating file, socket stream), often of one kind, each with its own objects: alone, interleaved operation by operation, and one thread each; non-trivial: every case; distinct by the results'),
 'K01': dict(runs=[dict(src='misc.cpp', quick=8000, thorough=800000)], require={'tests': 15000, 'repeated': 1500, 'passing_suites': 800, 'failing_suites': 800, 'binary': 8000, 'equal': 15000, 'different': 15000},
   technique='execution ledger of random test suites (order, verdict, context, reproducibility, reported values) under AddressSanitizer/UBSan',
   rule='random suites of up to 20 tests that pass, fail or throw anything; random comparisons of values, strings and memory; non-trivial: every case; distinct by the plan'),
 'G01': dict(runs=[dict(src='gpio.cpp', quick=8000, thorough=800000), dict(src='gpio.cpp', variant='tsan', quick=2400, thorough=80000)], hang_s=30, require={'descriptor_zero': 500, 'transfers': 150000, 'failures': 10000, 'pulses': 20000, 'motor_ops': 3000, 'servo_turns': 1500, 'grayscale_readings': 1500, 'concurrent_transfers': 200000, 'target_switches': 8000, 'blocks': 10000},
   technique='online checker of the recorded bus transactions against the device protocol, on stand-in devices with injected failures, under AddressSanitizer/UBSan and ThreadSanitizer',
   rule='random register, block, PWM, servo, motor and grayscale operations over one to four targets, failing calls, two to four threads sharing a bus; non-trivial: every case; distinct by the operations'),
 'G02': dict(runs=[dict(src='gpio.cpp', quick=3200, thorough=160000), dict(src='gpio_v1.cpp', quick=1200, thorough=60000), dict(src='gpio.cpp', variant='tsan', quick=400, thorough=20000)], hang_s=40, require={'descriptor_zero': 1000, 'lines': 3000, 'waits': 2000, 'moves': 800, 'refused_lines': 700, 'echoes': 1200, 'no_echo': 700, 'pulse_trains': 1000, 'constant_levels': 500, 'infos': 8000},
   technique='checker of recorded levels and times against the pulse and echo specification, on stand-in devices under a virtual clock, under AddressSanitizer/UBSan and ThreadSanitizer',
   rule='random lines, levels, waits, moves and failures; echoes early, late, stale, stuck and missing in three units; PWM of 1 to 5000 Hz with random ranges and duties; non-trivial: every case; distinct by operations'),
 'G03': dict(runs=[dict(src='gpio.cpp', quick=6000, thorough=300000), dict(src='gpio.cpp', variant='tsan', quick=2000, thorough=60000)], hang_s=30, require={'descriptor_zero': 400, 'steps': 150000, 'arcs': 80000, 'straight': 40000, 'readings': 20000, 'failed_readings': 2000, 'calibrations': 2000, 'stops': 3000, 'destroyed_running': 800, 'quick_restarts': 150, 'never_started': 150},
   technique='differential monitor of tracked positions against independent integration of the recorded readings under a virtual clock, under AddressSanitizer/UBSan and ThreadSanitizer',
   rule='random masks, contents, calibrations and failures; trackers stepped through scripted readings at random intervals, set, stopped, restarted and destroyed at random moments; non-trivial: every case; distinct by the script'),
}
