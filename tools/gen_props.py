#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it stays reviewable)."""
import json, os
P = []
H='code/header/'; S='code/source/'
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ essentials
p("C01", "Memory primitives act byte-exactly and only inside the given range",
  "Copying, overlap-safe moving, filling, swapping, comparing and first/last byte searching of memory give exactly the result of the byte-by-byte definition for every length, alignment and contents, including overlapping ranges for the move. No byte outside the given ranges is read or written. Aligning a pointer or integer forward yields the smallest multiple not below it.",
  ["inputs"], "every length (0, tiny, word-multiple, odd tails, large), every source/destination misalignment, every overlap distance and direction, every byte value",
  "the memory cases check a few fixed buffers; word-at-a-time loops fail only at particular length/alignment/tail combinations",
  [S+"essentials/memory.c", H+"essentials/memory.h"],
  [("word/byte tail loops", S+"essentials/memory.c: zpl_memcopy, zpl_memset, zpl_memchr, zpl_memrchr, zpl_memswap, zpl_memcompare, zpl_memmove"),
   ("alignment helpers", S+"essentials/memory.c: zpl_align_forward; "+H+"essentials/memory.h: zpl_align_forward_i64/u64")])

p("C02", "Allocated blocks are aligned, in bounds, disjoint and keep their contents",
  "Every block handed out by the heap, arena, pool, scratch and stack allocators is aligned as requested, lies inside memory the allocator owns, overlaps no other live block and no bookkeeping the allocator later relies on, and is zero-filled when zeroing was asked for. Its bytes stay as the user wrote them until it is released, whatever else is allocated, released or resized, and a resize preserves the common prefix. No sequence of operations makes an allocator touch memory it does not own.",
  ["histories", "inputs"], "every sequence of alloc/resize/free/free-all/snapshot calls, with mixed sizes and power-of-two alignments (up to 4096), over well- and mis-aligned backing memory",
  "only the pool allocator has tests, with one block size; overlap and misalignment need particular mixes of sizes, alignments, wrap-arounds and frees",
  [S+"essentials/memory_custom.c", H+"essentials/memory_custom.h"],
  [("arena bump allocation", S+"essentials/memory_custom.c: zpl_arena_allocator_proc"), ("pool free list", S+"essentials/memory_custom.c: zpl_pool_allocator_proc, zpl_pool_init_align"),
   ("scratch ring", S+"essentials/memory_custom.c: zpl_scratch_allocator_proc"), ("stack headers", S+"essentials/memory_custom.c: zpl_stack_allocator_proc"),
   ("heap", S+"essentials/memory_custom.c: zpl_heap_allocator_proc"), ("default resize", H+"essentials/memory_custom.h: zpl_default_resize_align")],
  [("arena.total_allocated", "bytes in use", H+"essentials/memory_custom.h"), ("pool.free_list", "chain of free blocks", H+"essentials/memory_custom.h")])

p("C03", "Allocators account for space exactly and fail cleanly when it runs out",
  "Allocation from an arena or scratch allocator succeeds exactly while its remaining space suffices and otherwise returns null, leaving every live block and all accounting intact. Releasing everything, rolling back an arena snapshot, freeing a stack's top block or returning a pool block makes that space usable again, so identical rounds of use can be repeated forever. Reported usage always equals what the outstanding allocations consume and returns to its starting value when they are all released. Asked whether an address is in use, scratch and stack allocators answer yes for every byte of a live block and no for every address outside their memory. Every allocator gives all of its memory back to its parent on destruction.",
  ["histories", "fault_sequences"], "every alloc/free history up to and past exhaustion, nested snapshots, sub-arenas, and a parent allocator that fails at any point",
  "tests do one allocation round of one pool; leaks and drift appear only over repeated rounds and at the exact exhaustion boundary",
  [S+"essentials/memory_custom.c", H+"essentials/memory_custom.h"],
  [("arena accounting", S+"essentials/memory_custom.c: zpl_arena_allocator_proc, zpl_arena_snapshot_begin/end"), ("pool accounting", S+"essentials/memory_custom.c: zpl_pool_allocator_proc"),
   ("stack accounting", S+"essentials/memory_custom.c: zpl_stack_allocator_proc"), ("heap statistics", S+"essentials/memory_custom.c: zpl_heap_stats_*")])

p("C04", "Dynamic arrays and fixed buffers behave as sequences",
  "After any sequence of appends, bulk appends, positional inserts, removals, pops, resizes, reserves, fills, copies and clears, a dynamic array or fixed buffer holds exactly the elements a plain sequence would, in order. Its count never exceeds its capacity, growth preserves every element, and reserving, copying or changing capacity never alters the visible elements that fit. All storage is returned to its allocator when the container is released.",
  ["histories"], "every operation sequence over element sizes 1..64 bytes and any initial capacity, including capacity 0 and shrink/grow cycles",
  "no test drives insertion/removal/capacity sequences; off-by-one shifts appear only at particular positions relative to capacity",
  [H+"essentials/collections/array.h", H+"essentials/collections/buffer.h"],
  [("array growth", H+"essentials/collections/array.h: zpl__array_set_capacity"), ("positional insert/remove", H+"essentials/collections/array.h: zpl_array_append_at, zpl_array_appendv_at, zpl_array_remove_at"), ("buffer", H+"essentials/collections/buffer.h")],
  [("array header", "count/capacity/allocator before the elements", H+"essentials/collections/array.h: zpl_array_header")])

p("C05", "The ring buffer is a bounded FIFO that overwrites its oldest entries",
  "Elements leave a ring buffer in exactly the order they entered, each at most once, for any interleaving of single and bulk insertions and removals. Inserting into a full ring discards exactly the oldest element. Full and empty are reported accordingly, and draining up to a limit returns exactly that many (or all remaining) oldest elements.",
  ["histories"], "every interleaving of append/append-array/get/get-array calls with capacities 1..N and any wrap-around offset",
  "a test covers one fill-and-read; order errors need specific head/tail wrap positions",
  [H+"essentials/collections/ring.h"],
  [("head/tail arithmetic", H+"essentials/collections/ring.h: append/append_array/get/get_array")],
  [("head, tail, capacity", "ring cursor state with one slot kept free", H+"essentials/collections/ring.h")])

p("C06", "Linked lists stay consistent in both directions under insert and remove",
  "Whatever sequence of insertions after a node and removals of nodes is applied to a doubly linked list, walking it forwards visits exactly the nodes a plain list would hold in that order, and walking it backwards visits the same nodes in reverse.",
  ["histories"], "every sequence of insert-after/remove at head, middle and tail",
  "no test inserts in the middle or walks backwards",
  [H+"essentials/collections/list.h"], [("link surgery", H+"essentials/collections/list.h: zpl_list_add, zpl_list_remove")])

p("C07", "The hash table behaves as a map from integer keys to values",
  "After any sequence of insertions, overwrites, removals, in-place clears, growths and rehashes, looking up a key yields exactly the value last stored for it, or nothing if it is absent or was removed. Iteration visits each live entry exactly once, and the same holds for keys that collide or sit in the same bucket chain. Destroying the table releases all its memory.",
  ["histories"], "every operation sequence over adversarial key sets (equal modulo the bucket count, dense, random 64-bit)",
  "tests insert a handful of distinct keys; chain breakage needs removals in collision chains followed by growth",
  [H+"essentials/collections/hashtable.h"],
  [("chains", H+"essentials/collections/hashtable.h: _find, _set, _remove, _remove_entry"), ("rehash", H+"essentials/collections/hashtable.h: _grow, _rehash, _rehash_fast")],
  [("hashes/entries arrays", "bucket heads and chained entries", H+"essentials/collections/hashtable.h")])

# ------------------------------------------------------------------ text
p("C08", "C-string and character functions agree with their standard definitions",
  "Length, bounded length, comparison, bounded comparison, copy, bounded copy, concatenation, duplication, reversal, case mapping, character search, prefix/suffix tests, tokenising and line splitting give the results the C standard (or BSD, for the size-limited copy) defines for every string. Results are always terminated within the destination, size-limited copies truncate safely, and nothing beyond the terminator or the given limit is read or written. Character classification and digit-value conversion agree with ASCII for all 256 byte values.",
  ["inputs"], "every byte string incl. empty, long, high-bit bytes, every limit around the string length",
  "there are no tests for the string functions",
  [S+"core/string.c", H+"core/string.h"],
  [("string routines", S+"core/string.c"), ("inline string routines", H+"core/string.h: zpl_strcmp, zpl_strcpy, zpl_strtok, zpl_str_concat, zpl_str_has_prefix/suffix, zpl_strlcpy")])

p("C09", "Number-to-text and text-to-number conversions are mutually inverse",
  "Formatting any 64-bit integer in any supported base and scanning the text back yields the same integer, and the text is the canonical one for that base. Scanning an optional minus sign, an optional 0x prefix (base 16 or detected) and digits of the base gives the value the C library's integer scanner gives for numerals that fit, and stops at the same place. Scanning decimal fractions gives the value the C library gives to within a relative error of 1e-14, and the reported end of the number is the same.",
  ["inputs"], "all 64-bit integers (boundary and random) in the supported bases, all decimal numerals of ordinary length",
  "only a few literals pass through the parsers in tests",
  [S+"core/string.c", H+"core/string.h"], [("formatting", S+"core/string.c: zpl_i64_to_str, zpl_u64_to_str"), ("scanning", S+"core/string.c: zpl_str_to_i64, zpl_str_to_u64, zpl_str_to_f64, zpl__scan_u64, zpl__scan_i64")])

p("C10", "UTF-8 encoding and decoding are exact inverses and reject malformed input",
  "Every Unicode scalar value encodes to the standard UTF-8 bytes and decodes back to itself with the right length; any byte sequence that is not well-formed UTF-8 decodes to an error value and never causes a read past the given length. Converting well-formed text between UTF-8 and UTF-16 in either direction round-trips exactly, output buffers are never overrun, and malformed input to these conversions is rejected. Counting code points equals the number of scalar values in well-formed text.",
  ["inputs"], "all 0x110000 code points, all byte strings (exhaustively up to 3 bytes, structured and random beyond)",
  "no test covers UTF-8; errors sit at range boundaries (overlongs, surrogates, truncation)",
  [S+"core/string.c", H+"core/string.h"], [("codec", S+"core/string.c: zpl_utf8_decode, zpl_utf8_encode_rune, zpl_utf8_to_ucs2, zpl_ucs2_to_utf8, zpl_utf8_strlen, zpl_utf8_codepoint_size")])

p("C11", "Managed strings keep exact contents, length, capacity and terminator",
  "After any sequence of construction, append (of text, characters, code points, formatted text or other strings), set, clear, trim, join and duplicate operations, a managed string holds exactly the characters the same edits produce on an ideal string. Its length equals that character count, its capacity is at least its length, and a terminator directly follows the contents. Strings never disturb one another and give all memory back to their allocator when freed.",
  ["histories"], "every edit sequence, any lengths incl. empty and growth past capacity",
  "no test edits managed strings in sequence",
  [S+"core/stringlib.c", H+"core/stringlib.h"], [("growth and edits", S+"core/stringlib.c: zpl_string_make_space_for, zpl_string_append*, zpl_string_set, zpl_string_trim; "+H+"core/stringlib.h")],
  [("string header", "allocator, length, capacity before the text", H+"core/stringlib.h: zpl_string_header")])

p("C12", "Formatted printing never writes past the given buffer",
  "For every format, argument list and buffer size, formatted printing writes only inside the caller's buffer and leaves a terminated string there whenever the size is at least one. When the output fits, the reported length matches the text written; when it does not, this is reported, no byte past the size is touched and what is there is a prefix of the full output. Output to a file, to a freshly allocated string or to a managed string carries the same text.",
  ["inputs"], "every format directive/flag/width/precision combination, argument values, and buffer sizes around the output length",
  "tests use one large buffer, so no bound is ever exercised",
  [S+"core/print.c", H+"core/print.h"], [("bounded emission", S+"core/print.c: zpl_snprintf_va, zpl__print_string, zpl__print_char, zpl__print_i64/u64/f64"), ("sinks", S+"core/print.c: zpl_fprintf_va, zpl_asprintf_va, zpl_bprintf_va")])

p("C13", "Formatted printing renders integers, strings and fractions as documented",
  "For integer directives in decimal, unsigned, octal and hexadecimal with every size modifier, width, precision, zero-padding and left-justification (and, for signed decimals, the sign and space flags), and for string and character directives with width and precision, the text equals what the C library prints. Fixed-point directives print as many decimals as asked for, keep width, zero-padding, left-justification and the sign flags, and differ from the true value by at most one unit of the last printed digit (magnitudes below 2^63; zero may be printed as a bare 0). Each argument is consumed exactly once with its own type, so any mix of directives prints each in its place.",
  ["inputs"], "all directive sequences over d,i,u,o,x,X,c,s,p,f,% with sizes/width/precision and boundary and random values",
  "tests fix a dozen literals",
  [S+"core/print.c"], [("directive parsing", S+"core/print.c: zpl_snprintf_va"), ("digit rendering", S+"core/print.c: zpl__print_i64, zpl__print_u64, zpl__print_f64, zpl__print_repeated_char")])

# ------------------------------------------------------------------ files
p("C14", "Files on disk behave as byte sequences with a cursor",
  "Any sequence of reads, writes, positioned reads and writes, seeks from each origin, skips, size queries and truncations on an open file has the effect of the same operations on an in-memory byte sequence, and the bytes found on disk afterwards are exactly those. Open modes permit, create, truncate and append as documented, and a missing file, or one the system refuses to open, is reported as such. Whole-file reads and writes and line splitting return every byte and line of the file.",
  ["histories"], "every operation sequence in every open mode, any offsets incl. past the end",
  "no test touches on-disk files except as scratch output",
  [S+"core/file.c", H+"core/file.h"], [("POSIX operations", S+"core/file.c: zpl__posix_file_read/write/seek, zpl_file_open_mode, zpl_file_truncate, zpl_file_size"), ("whole-file helpers", S+"core/file.c: zpl_file_read_contents, zpl_file_write_contents, zpl_file_read_lines")])

p("C15", "In-memory streams behave exactly like files over a bounded byte array",
  "Any sequence of reads, writes, seeks and size queries on a memory-backed stream has the effect of the same operations on a byte array: reads return exactly the bytes present and stop at the end, growable streams extend on writes past the end, fixed streams never write beyond their buffer, and read-only views never change their source. Positions and sizes are always reported accordingly, and closing the stream releases everything it allocated.",
  ["histories"], "every operation sequence over growable, cloned and fixed streams with all flag combinations, any offsets incl. past the end",
  "stream tests do one write/read pair",
  [S+"core/file_stream.c", H+"core/file_stream.h"], [("memory file operations", S+"core/file_stream.c: zpl__memory_file_read, _write, _seek, _close"), ("construction", S+"core/file_stream.c: zpl_file_stream_new, zpl_file_stream_open")])

p("C16", "Path and filesystem operations have exactly their stated effect",
  "The base name of a path is the text after its last separator, its extension the text after the last dot of the base name, and it is classified as absolute, relative or root as usual, for every path. Creating, copying, moving and removing files and directories, testing existence and type, and listing a directory tree have exactly the stated effect on the filesystem: a copy is byte-identical and replaces its destination unless told not to, moving refuses an existing destination, failures are reported and change nothing (a failing recursive directory creation may leave parents it made), and a listing contains every entry once and nothing else. None of these leaks descriptors or memory, however often it is repeated.",
  ["histories", "inputs"], "every path string; every sequence of operations over small directory trees with arbitrary names",
  "no test covers paths or the filesystem",
  [S+"core/file_misc.c", H+"core/file_misc.h"], [("filesystem wrappers", S+"core/file_misc.c: zpl_fs_*, zpl_path_mkdir*, zpl_path_rmdir, zpl_path_dirlist, zpl_dirinfo_*"), ("path strings", H+"core/file_misc.h: zpl_path_base_name, zpl_path_extension, zpl_path_is_*")])

p("C17", "Packing files into a tar archive and unpacking them restores them exactly",
  "Any set of files packed into an archive and unpacked from it yields the same names, sizes and bytes, each delivered once, for all contents and for sizes around the block boundaries. The archive is in the tar format standard tools read, and archives standard tools make in the v7, ustar and gnu formats unpack to the same files. Names may be up to 100 bytes long; longer ones, files too large for the format and anything that cannot be read or written are refused with an error. Listing an archive gives every entry's name, size and position, also beyond 4 GB.",
  ["inputs"], "all sets of files with names up to the format's limit and sizes 0..several blocks",
  "the archive code has no tests",
  [S+"core/file_tar.c", H+"core/file_tar.h"], [("pack/unpack", S+"core/file_tar.c: zpl_tar_pack, zpl_tar_unpack, zpl_tar_pack_dir, zpl_tar_unpack_dir"), ("checksum", S+"core/file_tar.c: zpl__tar_checksum")])

p("C18", "Unpacking an untrusted archive terminates and stays inside its target",
  "For any bytes whatsoever presented as an archive, unpacking terminates, performs no invalid memory access, and either delivers entries or reports an error. Unpacking into a directory that holds no links never creates, overwrites or touches anything outside that directory, whatever the entry names are.",
  ["inputs"], "all byte strings as archives: truncated, bit-flipped, hostile sizes, names with .. and absolute paths",
  "the archive code has no tests; hostile archives never appear",
  [S+"core/file_tar.c"], [("header validation", S+"core/file_tar.c: zpl_tar_unpack"), ("containment", S+"core/file_tar.c: zpl__tar_path_escapes, zpl_tar_default_unpack_file")])

p("C19", "Virtual memory regions are usable, disjoint, trimmed and released as asked",
  "A reserved region is page-aligned, at least as large as asked, zero-filled, readable and writable, and overlaps no other live region. Trimming to a page-aligned part keeps exactly that part with its contents and gives the rest back, purging keeps the region usable, and freeing returns its pages to the system; success and failure are reported truthfully.",
  ["histories"], "every alloc/trim/purge/free history over sizes and trim offsets in pages",
  "the virtual-memory calls have no tests",
  [S+"core/memory_virtual.c", H+"core/memory_virtual.h"], [("mmap wrappers", S+"core/memory_virtual.c: zpl_vm_alloc, zpl_vm_free, zpl_vm_trim, zpl_vm_purge")])

# ------------------------------------------------------------------ algorithms
p("C20", "Sorting yields an ordered permutation and binary search finds what is there",
  "Sorting any array with any consistent comparison yields a permutation of the input in non-decreasing order, for every length, element size and key distribution; radix sorting does the same for unsigned integers of every width. Binary search on a sorted array returns an index holding an equal element exactly when one exists. Reversing twice is the identity, shuffling is a permutation with every arrangement about equally likely, and none of these touches memory outside the array.",
  ["inputs"], "all arrays: sizes 0..thousands, elements 1..64 bytes, duplicates, sorted, reversed, organ-pipe and adversarial pivots",
  "sorting has no tests in the suite; errors depend on partition boundaries and element sizes",
  [S+"core/sort.c", H+"core/sort.h"], [("hybrid quicksort", S+"core/sort.c: zpl_sort"), ("radix sort", S+"core/sort.c: ZPL_RADIX_SORT_PROC_GEN"), ("search/shuffle/reverse", H+"core/sort.h, "+S+"core/sort.c: zpl_binary_search, zpl_shuffle, zpl_reverse")])

p("C21", "Random generators are reproducible and stay inside the requested range",
  "Two generators in the same state produce the same sequence forever, and copying a generator copies its future. Every ranged draw lies inside its closed range for all bounds, every value of a small range is eventually drawn, and the stream of unique 32-bit draws does not repeat a value. Draws are statistically uniform. Seeding always finishes, whatever the clock does meanwhile, and generators seeded one after another in a process differ.",
  ["histories", "inputs"], "all seeds/states, all ranges incl. negative, single-value and maximal ones, long draw sequences",
  "randomness has no tests",
  [S+"core/random.c", H+"core/random.h"], [("generator", S+"core/random.c: zpl_random_gen_u32, _u64, zpl__permute_qpr"), ("ranges", S+"core/random.c: zpl_random_range_i64, _isize, _f64")])

p("C22", "Checksums and hashes equal their published algorithms for every input",
  "Adler-32, CRC-32, CRC-64, FNV-1/1a (32 and 64 bit) and Murmur hashes of any byte string equal the published algorithms' values, for every length and for data at any address. They depend only on the bytes given and read nothing beyond them.",
  ["inputs"], "all byte strings of length 0..several KiB at every misalignment, all seeds",
  "tests compare a couple of fixed strings",
  [S+"hashing.c", H+"hashing.h"], [("hash loops and tables", S+"hashing.c")])

p("C23", "Base64 encoding is standard and decoding inverts it exactly",
  "Encoding any byte string gives the standard padded Base64 text, and decoding that text gives back the original bytes. Decoding arbitrary text never accesses memory outside it or its result, gives null for characters outside the alphabet or malformed padding, and leaks nothing.",
  ["inputs"], "all byte strings (every length modulo 3) and arbitrary texts as decoder input",
  "tests decode one literal",
  [S+"hashing.c", H+"hashing.h"], [("codec", S+"hashing.c: zpl_base64_encode, zpl_base64_decode")])

p("C24", "Pattern matching finds a match exactly where the pattern language allows one",
  "For every pattern built from literals, escapes, character classes, negated classes, any-character, anchors, groups, alternation and repetition, matching a subject succeeds exactly when the pattern's language matches somewhere in it, reports the leftmost match, preferring earlier alternatives and as many repetitions as possible (as few for the non-greedy forms). Captured groups lie inside the match and hold what they matched, groups that took no part are empty, and finding all matches reports successive disjoint matches and terminates.",
  ["inputs", "programs"], "all patterns of the supported grammar up to a size bound against all short subjects",
  "the pattern matcher has no tests at all",
  [S+"regex.c", H+"regex.h"], [("compiler", S+"regex.c: zpl_re__parse, zpl_re__parse_group"), ("matcher", S+"regex.c: zpl_re__exec, zpl_re__exec_single, zpl_re__consume")])

p("C25", "Compiling or running a hostile pattern is memory-safe and reports an error",
  "For any bytes given as a pattern, compilation either succeeds or returns an error, without invalid memory access or leak, and matching a successfully compiled pattern against any bytes of any length terminates with no access outside the pattern or the subject.",
  ["inputs"], "all byte strings as patterns and subjects",
  "the pattern matcher has no tests at all",
  [S+"regex.c", H+"regex.h"], [("compiler bounds", S+"regex.c: zpl_re__parse, zpl_re__emit_ops*"), ("matcher bounds", S+"regex.c: zpl_re__exec_single")])

# ------------------------------------------------------------------ services
p("C26", "Command-line options parse to exactly the values given",
  "For any declared set of options and positionals and any command line, parsing assigns to each option exactly the value given to it (short or long name, joined with '=' or, unless it starts with a dash, separate), in any order, and reports which options were present. Unknown options, missing values, values for flags and surplus arguments are reported as errors with the text that caused them, and defaults are returned for options not given. Nothing leaks or is accessed out of bounds for any command line.",
  ["inputs", "configurations"], "all option tables and argument vectors built from declared, unknown and malformed arguments",
  "option parsing has no tests",
  [S+"opts.c", H+"opts.h"], [("option parsing", S+"opts.c: zpl_opts_compile, zpl__opts_parse_arg*, zpl__opts_set_value"), ("lookup", S+"opts.c: zpl_opts_string/integer/real/has_arg")])

p("C27", "Socket traffic arrives complete, in order and attributed to its sender",
  "Bytes sent over a connected stream socket arrive at the peer in the same order with none lost or duplicated, and a datagram arrives whole or not at all, with its sender reported correctly. Readiness queries report a socket readable exactly when data or a connection is pending, waiting for it as long as they are told to, failed operations return the documented failure and leak no descriptor, and addresses are reported as they are bound.",
  ["schedules", "inputs", "fault_sequences"], "all message sizes and interleavings over loopback, blocking and non-blocking, failed binds and connects",
  "sockets have no tests",
  [S+"socket.c", H+"socket.h"], [("socket wrappers", S+"socket.c: zpl_socket_create, _send, _receive, _receive_from, _select, _multi_select, _get_address")])

p("C28", "Dynamic libraries load, resolve and unload faithfully",
  "Loading a shared library gives a handle through which exactly the symbols it and the libraries it depends on export resolve to callable addresses; a missing library or symbol gives null. Unloading releases the library, and any number of load/unload cycles leave no mapping behind.",
  ["histories"], "all load/resolve/unload orders over several libraries, missing files and symbols",
  "library loading has no tests in the suite",
  [S+"dll.c", H+"dll.h"], [("dlopen wrappers", S+"dll.c: zpl_dll_load, zpl_dll_proc_address, zpl_dll_unload")])

# ------------------------------------------------------------------ concurrency
p("C29", "Locks give mutual exclusion under every schedule",
  "At most one thread is ever inside a critical section protected by a mutex or by an atomic spin lock, everything written inside one critical section is visible in the next, and a try-lock that reports success really holds the lock while one that reports failure does not. A bounded or non-blocking attempt fails only while the lock is held, waiting without limit always ends with the lock, and a released lock can always be taken again.",
  ["schedules"], "all interleavings of several threads locking, try-locking and releasing one or several locks",
  "no test starts a thread",
  [S+"threading/mutex.c", S+"threading/atomic.c", H+"threading/atomic.h", H+"threading/mutex.h"], [("mutex", S+"threading/mutex.c: zpl_mutex_lock/try_lock/unlock"), ("spin locks", S+"threading/atomic.c: zpl_atomic32/64/ptr_spin_lock, _spin_unlock, _try_acquire_lock")])

p("C30", "Atomic operations are indivisible and return the documented previous value",
  "Concurrent atomic adds, ands, ors, exchanges and compare-exchanges on one variable behave as if executed one at a time: no update is lost, each returns the value that preceded it, and a compare-exchange takes effect exactly when that value equals the expected one. A value published by an atomic store is seen together with everything written before it by a thread that loads it. A full fence keeps every access before it ahead of every access after it in the eyes of other threads; store and load fences do so for writes and for reads.",
  ["schedules"], "all interleavings of several threads mixing 32-bit, 64-bit and pointer operations on shared words, all operand values",
  "no test starts a thread",
  [S+"threading/atomic.c", H+"threading/atomic.h"], [("inline-assembly primitives", S+"threading/atomic.c: zpl_atomic32_*, zpl_atomic64_*, zpl_atomic_ptr_*")])

p("C31", "Semaphores and barriers release exactly the waiters they should",
  "The number of completed waits on a semaphore never exceeds the number of posts plus its initial value, every post eventually lets one waiter through, and a non-blocking wait succeeds only by consuming a post. Interrupting signals make no wait return early. No waiting thread passes a rendezvous of the synchronisation object before the required number of threads has arrived, all of them pass once it has, and a thread that does not wait is told its place among the arrivals; a new round opens only after the previous one is over. Writes made before are visible after, and no wake-up is ever lost.",
  ["schedules"], "all interleavings of posting/waiting threads and of repeated rendezvous rounds",
  "no test starts a thread",
  [S+"threading/sem.c", S+"threading/sync.c"], [("semaphore", S+"threading/sem.c"), ("barrier", S+"threading/sync.c: zpl_sync_set_target, zpl_sync_release, zpl_sync_reach, zpl_sync_reach_and_wait")],
  [("target/current/waiting", "rendezvous counters", H+"threading/sync.h: zpl_sync")])

p("C32", "A thread runs its procedure exactly once and joining waits for it",
  "Starting a thread runs the given procedure exactly once with the given data, in a thread of its own; joining returns only after the procedure finished, makes its writes visible and delivers its return value. Destroying a started thread waits for it in the same way, and a thread that the system refuses to create is reported as not started and never runs. A thread object can be destroyed and reused any number of times without leaking threads, and thread identifiers of live threads are distinct and do not change.",
  ["schedules", "histories"], "all start/join/destroy histories and schedules of many threads, with and without explicit stack sizes",
  "no test starts a thread",
  [S+"threading/thread.c", H+"threading/thread.h"], [("thread lifecycle", S+"threading/thread.c: zpl_thread_start, zpl_thread_start_with_stack, zpl_thread_join, zpl_thread_destroy")])

p("C33", "The job system runs every accepted job exactly once, on any schedule",
  "Every job accepted by the queue is executed exactly once with its own data; a job refused because its queue is full is never executed. Completion is reported only when every accepted job has finished, its effects are then visible to the caller, and repeated processing makes progress until that point; full and empty are reported truthfully. Each priority accepts exactly its limit of waiting jobs, and a single worker runs the jobs of one priority in the order they were accepted. Shutting the system down, at whatever moment, lets a running job finish, starts none afterwards, runs none twice, ends all workers and releases all memory.",
  ["schedules", "histories"], "all worker counts, queue limits, priorities, enqueue/process orders and worker timings",
  "the job system has no tests",
  [S+"jobs.c", H+"jobs.h"], [("dispatch", S+"jobs.c: zpl_jobs_process, zpl_jobs_enqueue_with_priority"), ("worker loop", S+"jobs.c: zpl__jobs_entry"), ("completion", S+"jobs.c: zpl_jobs_done, zpl_jobs_free")],
  [("worker status word", "waiting/ready/busy/terminate hand-off", S+"jobs.c")])

# ------------------------------------------------------------------ documents
p("C34", "The document tree keeps its structure under every edit",
  "After any sequence of adding, inserting, setting, moving, swapping and removing nodes, a document tree contains exactly the nodes, names, values and order that the same edits give on an ideal tree, every child knows its parent, and destroying the tree releases all its memory. Lookup by name returns the first matching child, recursively when asked to.",
  ["histories"], "all edit sequences over trees of objects, arrays, strings and numbers, including growth that relocates siblings and edits of nested nodes",
  "tests build one small tree; stale links appear only when a child list is relocated while deeper nodes exist",
  [S+"adt.c", H+"adt.h"], [("structural edits", S+"adt.c: zpl_adt_alloc_at, zpl_adt_move_node_at, zpl_adt_swap_nodes, zpl_adt_remove_node"), ("lookup", S+"adt.c: zpl_adt_find")],
  [("node.parent", "link from child to parent", H+"adt.h: zpl_adt_node")])

p("C35", "Document queries return exactly the node the path describes",
  "A path query over a document tree returns the node reached by following its steps: member names, array indices, and field or value filters selecting the first matching element. When any step has no match the result is null. Queries never modify the tree or access memory outside it, whatever the path text; a path with a malformed filter is refused.",
  ["inputs", "programs"], "all trees and all path strings, well-formed and malformed",
  "tests run a handful of queries on one document",
  [S+"adt.c"], [("path evaluation", S+"adt.c: zpl_adt_query, zpl__adt_get_value, zpl__adt_get_field")])

p("C36", "Numbers in documents survive parsing and printing",
  "Reading a decimal, hexadecimal, real or exponent numeral into a document yields the same value the C library reads (exactly for integers that fit, to within rounding for reals of up to 290 digits and ordinary magnitude), and printing that node and reading it again yields the same value. Text that is not a number is never turned into one by the strict reader, and no numeral, however long, causes an invalid memory access.",
  ["inputs"], "all numerals incl. signs, leading dots, hex, exponents, very long digit strings, and non-numerals",
  "tests parse a few literals",
  [S+"adt.c"], [("number parsing", S+"adt.c: zpl_adt_parse_number, zpl_adt_str_to_number_strict"), ("number printing", S+"adt.c: zpl_adt_print_number")])

p("C37", "JSON documents parse to their value and survive a write-parse round trip",
  "Every well-formed JSON document, in any layout, parses without error to a tree with exactly its structure, names, strings (as they are written, escapes included) and numbers in order, up to the documented nesting limit; so does a document in the relaxed JSON5 layouts the library reads. Writing a tree that was parsed from JSON or built by hand and parsing the output gives an equal tree, and the output is itself well-formed.",
  ["inputs"], "all JSON values over nested objects/arrays, string contents incl. escapes, numbers, constants, arbitrary whitespace",
  "tests cover a dozen fixed documents",
  [S+"parsers/json.c", H+"parsers/json.h"], [("parser", S+"parsers/json.c: zpl_json_parse, zpl__json_parse_object/array/value/name"), ("writer", S+"parsers/json.c: zpl_json_write")])

p("C38", "Parsing arbitrary text as JSON is memory-safe and reports errors",
  "Parsing any bytes as JSON terminates without invalid memory access, and either yields a tree that can be walked, written and freed or reports an error; bracketed documents that are damaged (cut short, or with a bracket missing, added or exchanged) are never silently accepted as the complete one. Nesting beyond the documented limit is refused, and a document that is refused is left as it was. Everything allocated is released when the result is freed, after success or error alike.",
  ["inputs"], "all byte strings: random, grammar-mutated, truncated at every position",
  "tests cover a few malformed fragments",
  [S+"parsers/json.c"], [("error paths", S+"parsers/json.c: zpl__json_parse_*, zpl__json_trim, zpl__json_skip"), ("release", S+"parsers/json.c: zpl_json_free")])

p("C39", "CSV tables survive parsing and writing for every delimiter and content",
  "A rectangular table of cells written as CSV text, with quoting where needed, parses to the same table: same number of columns and rows, same cell contents and headers, for any delimiter. Writing a parsed table and parsing the result gives the same table.",
  ["inputs"], "all rectangular tables with cells containing delimiters, quotes, line breaks, numbers, blanks; several delimiters; with and without header",
  "tests parse a few fixed tables",
  [S+"parsers/csv.c", H+"parsers/csv.h"], [("parser", S+"parsers/csv.c: zpl_csv_parse_delimiter, zpl__csv_parse_delimiter"), ("writer", S+"parsers/csv.c: zpl_csv_write_delimiter, zpl__csv_write_record/header")])

p("C40", "Parsing arbitrary text as CSV or a URI is memory-safe and leak-free",
  "Parsing any bytes as a CSV table or as a URI terminates without invalid memory access and yields either a result that can be walked, written and freed or an error. Everything allocated is released when the result is freed, after success or error alike.",
  ["inputs"], "all byte strings: random, mutated, truncated, very long fields and bad escapes",
  "tests only pass well-formed text",
  [S+"parsers/csv.c", S+"parsers/uri.c"], [("CSV error paths", S+"parsers/csv.c"), ("URI decoding", S+"parsers/uri.c")])

p("C41", "URI query strings decode and encode to the same fields",
  "Parsing a URI yields its base and its query fields in order with percent-escapes and plus signs decoded. Writing parsed or built fields and parsing the text again yields the same base and fields, with every reserved character escaped.",
  ["inputs"], "all bases and field names/values over the full byte alphabet except NUL",
  "tests parse three URIs",
  [S+"parsers/uri.c", H+"parsers/uri.h"], [("parser", S+"parsers/uri.c: zpl_uri_parse, zpl__uri_parse_field"), ("writer", S+"parsers/uri.c: zpl_uri_write, zpl__uri_write_encoded")])

# ------------------------------------------------------------------ math, time, misc
p("C42", "Scalar math agrees with the C library and its stated identities",
  "Rounding, floor, ceiling, remainder, modulo, sign, absolute value, clamping, interpolation, roots, powers, logarithms and trigonometric functions agree with the C library (exactly where it is exact, within stated tolerance otherwise) for all arguments in the integer-convertible range, including negative and integral ones. Angle conversion inverts itself, and named mathematical constants have their true values.",
  ["inputs"], "all finite arguments in range: integers, halves, negatives, boundaries, random",
  "math has no tests",
  [S+"math.c", H+"math.h"], [("scalar functions", S+"math.c: zpl_floor, zpl_ceil, zpl_round, zpl_mod, zpl_remainder, zpl_sign, zpl_fast_exp, ..."), ("constants", H+"math.h: ZPL_PI, ZPL_TAU, ZPL_ONE_OVER_PI, ...")])

p("C43", "Vector and matrix algebra obeys its laws",
  "Component-wise vector arithmetic, dot and cross products, lengths, normalisation, reflection and interpolation equal their definitions. Matrix product is associative and agrees with applying the matrices to a vector in turn, transposing twice is the identity, a matrix times its inverse is the identity, and the determinant is multiplicative. Translation, scaling, rotation, projection and view matrices act on points as their definitions say.",
  ["inputs"], "all vectors and well-conditioned matrices of dimension 2, 3 and 4, every operation variant",
  "math has no tests",
  [S+"math.c", H+"math.h"], [("vectors", S+"math.c: zpl_vec*"), ("matrices", S+"math.c: zpl_mat*, zpl_float*")])

p("C44", "Quaternion rotations agree with the matrix rotations they represent",
  "Quaternion product, conjugate, inverse and norm obey the quaternion algebra; rotating a vector by a unit quaternion equals applying the matrix made from it, converting between quaternion, matrix, axis-angle and Euler angles is consistent, and spherical interpolation between unit quaternions stays on the shortest arc with the right endpoints.",
  ["inputs"], "all unit and non-zero quaternions, angles, and parameters in 0..1 including identical and opposite endpoints",
  "math has no tests",
  [S+"math.c", H+"math.h"], [("quaternions", S+"math.c: zpl_quat_*, zpl_mat4_from_quat, zpl_quat_from_mat4")])

p("C45", "Half-precision conversion is exact wherever the value is representable",
  "Every one of the 65536 half-precision values converts to the single-precision value it denotes and back to itself. Converting any single-precision number to half precision gives a value within half a unit in the last place for numbers in range, and infinities, overflow and NaN map to infinity and NaN.",
  ["inputs"], "all 65536 halves exhaustively; single-precision numbers sampled over all exponents and rounding boundaries",
  "math has no tests",
  [S+"math.c"], [("conversion", S+"math.c: zpl_half_to_float, zpl_float_to_half")])

p("C46", "Rectangles, boxes and frusta answer containment and intersection correctly",
  "Containment, intersection, cutting, extending and conversion of rectangles, axis-aligned boxes and view frusta agree with the point-set definition: a point is reported inside exactly when it satisfies the bounds, an intersection is the common region, and cutting a box splits it into two pieces that together make the original. A frustum made from a camera and a projection reports a point or a sphere when it lies in or reaches into the view volume, and a box when one of its corners is inside but never when the whole box is beyond one side.",
  ["inputs"], "all rectangles and boxes incl. touching and degenerate ones, all points near their borders",
  "math has no tests",
  [S+"math.c", H+"math.h"], [("rectangles and boxes", S+"math.c: zpl_rect*, zpl_aabb*"), ("frustum", S+"math.c: zpl_frustum_*")])

p("C47", "Clocks move forward and agree with the system clock",
  "Relative time never decreases within a process, from any thread, and measures elapsed real time; sleeping lasts at least the requested time. Wall-clock time agrees with the system clock in each unit and offset, and converting between epochs is exactly invertible.",
  ["schedules", "inputs"], "all call sequences from several threads; all epoch values",
  "tests check that two readings differ",
  [S+"core/time.c", H+"core/time.h"], [("clocks", S+"core/time.c: zpl_time_rel*, zpl_time_utc*, zpl_time_tz*, zpl_time_unix_to_win32")])

p("C48", "Bit operations, byte swaps and environment access are exact",
  "Population count, bit set/reset/test, byte swapping of each width and rounding up to a power of two equal their mathematical definitions for every input. Environment variables read back exactly what was set or nothing when unset, and running a system command captures exactly its output, without leaking memory or descriptors.",
  ["inputs", "histories"], "all integers (boundary and random) and bit positions; all set/get/unset orders; command outputs of any size",
  "none of these has tests",
  [S+"core/misc.c", H+"core/misc.h"], [("bit tricks", S+"core/misc.c: zpl_count_set_bits, zpl_next_pow2, zpl_bit_*, zpl_endian_swap*"), ("environment/command", S+"core/misc.c: zpl_get_env*, zpl_set_env, zpl_unset_env, zpl_system_command*")])

# ------------------------------------------------------------------ cross-cutting
p("C49", "Running out of memory never corrupts, crashes or leaks",
  "If any single allocation fails while a document is parsed, built or written, a dynamic array, managed string or memory stream is grown, or a helper returns allocated text or bytes, the operation reports failure or completes, nothing already held is corrupted, nothing is accessed through the missing block, and all memory taken is still given back on release.",
  ["fault_sequences"], "every allocation index in every operation failing once, or all from that index on",
  "tests never inject an allocation failure",
  [S+"adt.c", S+"parsers/json.c", S+"parsers/csv.c", S+"core/stringlib.c", S+"core/file_stream.c", H+"essentials/collections/array.h"],
  [("failure propagation", S+"parsers/json.c, csv.c: out-of-memory error codes; array.h: zpl__array_set_capacity")])

p("C50", "All supported build configurations compute the same results",
  "The same program gives the same results whether the library is compiled as C or C++, in its full or reduced distributions with the needed modules enabled, with or without heap analysis, with or without parser analysis, with its implementation in the same translation unit or another, whichever sign a plain char has, and at any optimisation level.",
  ["configurations"], "language mode x distribution x feature switches x optimisation level, over a fixed seeded workload",
  "the suite builds one configuration",
  ["code/zpl.h", "code/zpl_hedley.h"], [("configuration switches", "code/zpl.h: ZPL_NANO, ZPL_PICO, ZPL_ENABLE_*/ZPL_DISABLE_*; ZPL_HEAP_ANALYSIS, ZPL_PARSER_DISABLE_ANALYSIS, ZPL_NO_MATH_H")])

# ------------------------------------------------------------------ across the library
p("C51", "What is written arrives whole and once; refused or partial writes are reported",
  "Writing through a file object, in any of the ways offered, to a regular file, a pipe, a standard stream or a caller's own file operations, delivers every byte exactly once and in order and reports success, also when the system takes the data piecemeal, is slow or interrupts the call; if the device refuses the data or takes only part of it, the call reports failure, any count it gives is the number of bytes taken, and the position moves by that amount. Reading from standard input and from such files delivers the bytes that arrive, in order and without loss, and reports truthfully when there are none left. Threads printing through the same pipe or appending file lose, repeat and tear no line that the system takes whole.",
  ["inputs", "histories", "fault_sequences", "schedules"], "all sizes, kinds of descriptor, device limits, signals, reader speeds and numbers of printing threads",
  "the suite writes a few small files to a disk with room",
  [S+"core/file.c", S+"core/print.c", H+"core/file.h"], [("device write", S+"core/file.c: zpl__posix_file_write, zpl__posix_file_read"), ("standard streams", S+"core/file.c: zpl_file_get_standard"), ("formatted output", S+"core/print.c: zpl_fprintf_va")])

p("C52", "Threads working on their own objects do not disturb each other",
  "Any number of threads each using the library on objects of their own get exactly the answers each would get alone, from every part of the library that does not change process-wide settings, and text returned in library-owned buffers stays what it was until the same thread uses that function again. Threads that only read one shared object all get the answers a single reader gets. None of this causes a data race.",
  ["schedules", "programs"], "all mixes of operations on 2..6 threads and all interleavings",
  "the suite runs everything on one thread",
  [S+"core/print.c", S+"core/stringlib.c", S+"core/sort.c", S+"core/string.c", S+"adt.c", S+"core/file_misc.c"], [("library-owned buffers", S+"core/print.c: zpl_bprintf_va; "+S+"core/string.c: zpl_utf8_to_ucs2_buf; "+S+"core/stringlib.c: zpl_string_sprintf_buf"), ("comparison by field", S+"core/sort.c: ZPL_COMPARE_PROC generators")])

p("C53", "A failed assertion stops the program with a report before damage is done",
  "A true assertion evaluates its condition once and has no other effect; a false one reports the file, line, condition and message exactly as given, whatever characters they contain, and ends the program. The misuse the library tests for (operations beyond an allocator's, container's or barrier's limits, arguments that may not be missing, wrong alignments, sizes, modes or node types) is stopped in that way before any memory is damaged, while use just inside those limits is never stopped. Leaving through the exit function ends the program with the given code after pending output and exit handlers.",
  ["inputs", "histories"], "all conditions, messages and arguments, and all sequences of calls ending in a misuse",
  "a test that trips an assertion dies with it",
  [S+"essentials/debug.c", H+"essentials/debug.h", S+"essentials/memory_custom.c", H+"essentials/collections/array.h", H+"essentials/collections/buffer.h", H+"core/string.h", S+"adt.c", S+"threading/sync.c"], [("assertions", H+"essentials/debug.h: ZPL_ASSERT_MSG, ZPL_ASSERT_NOT_NULL, ZPL_PANIC; "+S+"essentials/debug.c"), ("checked limits", "ZPL_ASSERT in allocators, containers, strings, trees, threads, files")])

p("C54", "Macros mean the same whatever expressions and names their arguments use",
  "The function-like macros for arrays, buffers, numbers, memory, exchange, bit masks, sorting, allocation and storing values by their type give the result of the operation on the values of their arguments, whether an argument is a name, a member, a dereference, arithmetic, a choice or a bitwise expression, mentions the container itself, or is named like a variable the macro might use, and whether they stand alone or in a branch without braces. They touch no memory beyond that operation. The same holds in C and in C++.",
  ["programs", "inputs"], "all argument expressions, values and enclosing statements",
  "the suite passes plain names and constants",
  [H+"essentials/collections/array.h", H+"essentials/collections/buffer.h", H+"essentials/helpers.h", H+"essentials/memory.h", H+"core/sort.h", H+"math.h", H+"adt.h"], [("container macros", H+"essentials/collections/array.h; "+H+"essentials/collections/buffer.h"), ("helper macros", H+"essentials/helpers.h; "+H+"essentials/memory.h"), ("stores by type", H+"adt.h: zpl_adt_append, zpl_adt_set")])

p("C55", "Binding a thread to a processor is done exactly or refused",
  "The layout reported has at least one core and one thread per core, its counts agree with each other and, when it is said to be accurate, with the processors that are online. Binding the calling thread to a core and thread of the layout either leaves that thread allowed to run on exactly that processor and reports success, or changes nothing and reports failure; it succeeds whenever the system permits it, fails for a core or thread outside the layout, and never affects another thread.",
  ["histories", "fault_sequences", "schedules"], "all layouts, cores and thread numbers, refusals by the system, and threads binding themselves at the same time",
  "no test uses it",
  [S+"threading/affinity.c", H+"threading/affinity.h"], [("layout", S+"threading/affinity.c: zpl_affinity_init, zpl_affinity_thread_count_for_core"), ("binding", S+"threading/affinity.c: zpl_affinity_set")])

p("C56", "Objects and positions beyond four gigabytes are handled like any other",
  "Every size, count, offset and position is kept at full width. Setting, copying, moving, exchanging, comparing and searching memory, measuring and comparing text, checksums and base64, arrays, buffers and managed strings, binary search, memory arenas, stacks, scratch memory and pools, in-memory streams and files (positions, sizes, whole reads and writes) give on objects of more than two or four gigabytes what the same call is defined to give on small ones: all of the object is covered, nothing outside it is touched, and sizes and indices are reported exactly.",
  ["inputs"], "all sizes around 2^31 and 2^32 bytes, regions of several times that, file positions up to 2^41",
  "no test uses an object of more than a few kilobytes; a narrowed size or one system call taken for all of a transfer shows only here",
  [S+"essentials/memory.c", S+"essentials/memory_custom.c", S+"core/file.c", S+"core/file_stream.c", S+"hashing.c", H+"essentials/memory_custom.h", H+"essentials/collections/array.h", H+"core/string.h", S+"core/stringlib.c"],
  [("transfer", S+"core/file.c: zpl__posix_file_read, zpl__posix_file_write, zpl_file_read_contents"), ("sizes", H+"essentials/memory_custom.h: zpl_arena_size_remaining; "+H+"essentials/collections/array.h: zpl__array_set_capacity")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P), "properties")
