"""What each property's check runs.  cases = (quick, thorough)."""
def v(src, quick, thorough, mode='asan', name=None, **kw):
    d = {'src': src, 'mode': mode, 'cases': (quick, thorough), 'name': name or (src.split('.')[0] + '-' + mode)}
    d.update(kw); return d
CHECKS = {}
def c(id, variants, rule, technique, note, **kw):
    CHECKS[id] = dict(variants=variants, rule=rule, technique=technique, note=note, **kw)

c('C01', [v('c01.c', 60000, 1500000), v('c01.c', 20000, 500000, 'plain', name='c01-clang-O2'), v('c01.c', 20000, 500000, 'gcc', name='c01-gcc-O2')],
  'one call (or an exhaustive length/alignment grid) on operands at a random misalignment inside poisoned surroundings; non-trivial = non-empty range',
  'AddressSanitizer/UBSan build plus a byte-by-byte reference monitor on every call',
  'random lengths 0..2000 and all misalignments; every length below 72 x alignment pair is also swept exhaustively over the run')
R_ALLOC = 'one history of allocate/resize/free/free-all/snapshot calls on one allocator; non-trivial = at least two successful allocations; distinct by operation sequence and sizes'
c('C02', [v('c02.c', 24000, 600000), v('c02.c', 8000, 150000, name='c02-heapstats', flags=['-DZPL_HEAP_ANALYSIS'])],
  R_ALLOC, 'AddressSanitizer/UBSan build plus an online shadow model of every live block (bounds, alignment, overlap, pattern) after each call',
  'histories of up to 170 calls, up to 96 live blocks, alignments up to 4096')
c('C03', [v('c02.c', 24000, 600000, flags=['-DVZ_ACCT=1'], name='c03-asan'), v('c02.c', 8000, 150000, name='c03-heapstats', flags=['-DVZ_ACCT=1', '-DZPL_HEAP_ANALYSIS'])],
  R_ALLOC, 'AddressSanitizer/UBSan build plus an online conservation monitor: usage = outstanding blocks, refusals exactly at exhaustion, everything returned to the parent',
  'histories of up to 170 calls; parents failing at each of the first requests')
c('C04', [v('c04.c', 12000, 300000)], 'one operation sequence on one array or buffer of a given element size; every sequence is non-trivial; distinct by operations and positions',
  'AddressSanitizer/UBSan build plus an online reference-sequence monitor after each operation, storage served by a moving, tracking allocator', 'sequences of up to 130 operations, up to 400 elements of 1..64 bytes')
c('C05', [v('c05.c', 12000, 400000)], 'one insertion/removal history on one ring; values are unique so order and multiplicity are unambiguous',
  'AddressSanitizer/UBSan build plus an online FIFO model monitor', 'capacities 1..60, up to 220 operations')
c('C06', [v('c06.c', 20000, 600000)], 'one edit sequence on a list; the list is walked in both directions after each edit',
  'AddressSanitizer/UBSan build plus an online sequence-model monitor of both link directions', 'up to 40 nodes, 130 edits')
c('C07', [v('c07.c', 8000, 250000)], 'one operation history on one table; key sets dense, equal modulo a bucket count, near 2^64, hashed, powers of two',
  'AddressSanitizer/UBSan build plus an online map-model monitor', 'up to 320 operations, 300 live keys')
R_ONE = 'one call group on one generated input held in an exact-size block; distinct by input'
c('C08', [v('c08.c', 120000, 3000000)], R_ONE, 'AddressSanitizer/UBSan build plus a differential monitor against the C library', 'strings up to 400 bytes; all 256 character values')
c('C09', [v('c09.c', 200000, 5000000)], R_ONE, 'AddressSanitizer/UBSan build plus a differential monitor against an independent digit generator and strtoll/strtoull/strtod', 'bases 2..10 and 16 (text also up to 36), exponents within +-270')
c('C10', [v('c10.c', 6000, 150000)], R_ONE, 'AddressSanitizer/UBSan build plus a differential monitor against an independent UTF-8/UTF-16 codec', 'all scalar values and all two-byte strings over the run; longer strings structured or random')
c('C11', [v('c11.c', 10000, 300000)], 'one edit history over up to six live strings', 'AddressSanitizer/UBSan build plus an online ideal-string monitor after each edit', 'up to 60 edits, strings up to 5000 characters')
c('C12', [v('c12.c', 24000, 600000)], 'one format and argument list printed into every (or many) buffer sizes; distinct by format and text', 'AddressSanitizer/UBSan build with exact-size buffers plus a prefix/terminator/length monitor', 'formats up to 14 fragments, widths up to 90000, all sizes 0..length+3 for short outputs')
c('C13', [v('c12.c', 150000, 4000000, flags=['-DVZ_RENDER'], name='c13-asan')], 'one directive sequence with its arguments; distinct by format and text', 'AddressSanitizer/UBSan build plus a differential monitor against the C library (integers, strings) and exact decimal comparison (fractions)', 'up to 8 directives, precision up to 12 for fractions, magnitudes below 1e18')
c('C14', [v('c14.c', 9000, 200000)], 'one operation history over up to two handles on one file, or one whole-file/temporary-file round; distinct by operations and sizes', 'AddressSanitizer/UBSan build plus an online byte-sequence model checked against the bytes read back from disk with POSIX calls after each operation', 'up to 60 operations, files up to 40 kB')
c('C15', [v('c15.c', 24000, 700000)], 'one operation history on one stream; distinct by kind, operations and sizes', 'AddressSanitizer/UBSan build plus an online byte-array model after each operation', 'up to 80 operations, streams up to 60 kB')
c('C16', [v('c16.c', 14000, 300000)], 'one operation history on a generated directory tree, or one path string; distinct by operations or text', 'AddressSanitizer/UBSan build plus an online model of the whole tree compared with a walk of the scratch directory after each operation, descriptor and heap counts included', 'up to 40 operations, 60 entries, 5 levels; refusals by permissions are produced as another user')
c('C17', [v('c17.c', 3500, 90000)], 'one set of generated files packed, inspected, unpacked through callbacks and into a directory; distinct by names and contents', 'AddressSanitizer/UBSan build plus an independent archive reader, a walk of the unpacked tree and, on a sample, GNU tar in both directions', 'up to 11 files of up to 40 kB, names up to 100 bytes')
_WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in 'open open64 openat creat mkdir fopen unlink rmdir remove rename link symlink chmod truncate'.split())]
c('C18', [v('c18.c', 24000, 600000, libs=_WRAP)], 'one mutated archive, unpacked through a callback or into a directory; distinct by archive bytes', 'AddressSanitizer/UBSan build with exact-size archives, callback-progress monitor, and stand-ins (ld --wrap) for every file-creating call that record paths leaving the destination', 'archives up to 200 kB of up to 8 entries, memory and disk')
c('C19', [v('c19.c', 12000, 400000)], 'one alloc/trim/purge/free history; distinct by operations and sizes', 'AddressSanitizer/UBSan build plus an online model of live regions (pattern per page) compared with the kernel\'s view (mincore) after each call', 'up to 50 operations, regions of up to 12 pages; trims in whole pages')
c('C20', [v('c20.c', 50000, 1200000)], 'one array (or key list); distinct by contents', 'AddressSanitizer/UBSan build with exact-size arrays plus permutation/order monitors and a comparison that checks the pointers it is given', 'up to 3000 elements of 1..777 bytes, ten orders and an adaptive worst-case adversary')
c('C21', [v('c21.c', 14000, 250000, libs=['-Wl,--wrap=clock_gettime']), v('c21u.c', 0, 2, 'plain', name='c21-cycle', threads=8, wall=600)], 'one generator state and draw sequence; distinct by drawn values', 'AddressSanitizer/UBSan build plus replay, range, uniqueness and chi-square monitors; seeding runs under a clock that jumps', 'up to 2^18 (thorough 2^22, and twice a whole cycle of 2^32) unique draws per state; chi-square limits far in the tail')
c('C22', [v('c22.c', 60000, 2000000)], R_ONE, 'AddressSanitizer/UBSan build plus bit-by-bit reference implementations', 'up to 40 kB at 16 misalignments')
c('C23', [v('c23.c', 200000, 5000000)], R_ONE, 'AddressSanitizer/UBSan build plus an independent codec and a tracking allocator', 'up to 3000 bytes; texts up to 200 characters')
c('C24', [v('c24.c', 40000, 3000000), v('c24.c', 10000, 400000, 'gcc', name='c24-gcc')],
  'one pattern (drawn from all strings up to six symbols over the operators, or generated from the grammar up to nested groups, alternatives, sets, escapes and repetition) and a batch of subjects; distinct by pattern',
  'verdict, end of match and every group compared with an independent parser and backtracking matcher over a syntax tree; short patterns against every subject of up to five symbols; finding all compared match by match; AddressSanitizer/UBSan and a gcc build',
  'a backslash as the last symbol is unspecified; patterns of more than 200 symbols (an alternative counting six more) may be refused as too long; subjects on which the reference needs more than 300000 steps are skipped',
  must_see=['patterns compiled', 'patterns refused', 'matches', 'non-matches', 'captures compared', 'successive matches', 'patterns with groups', 'patterns with several alternatives', 'patterns with repetition', 'byte sweeps', 'long patterns', 'matched from a buffer', 'buffers too small'])
c('C25', [v('c25.c', 60000, 5000000)],
  'one hostile pattern (random operators and bytes, damaged patterns, endless nesting or repetition) and six subjects; distinct by pattern',
  'AddressSanitizer/UBSan build with exact-size pattern, subject, program and capture blocks and a tracking (sometimes failing) allocator: compilation must succeed or report an error without leaking, every match and group must lie in the subject; a watchdog bounds each case',
  'patterns up to 70 kB; subjects on which a reference matcher needs more than 100000 steps are skipped',
  must_see=['compiled', 'refused', 'subjects', 'hits', 'all matches', 'mutants', 'long patterns', 'compilations with a failing allocator', 'deep matches', 'deep patterns refused'])
c('C26', [v('c26.c', 30000, 900000)], 'one set of declared options and one command line; distinct by choices', 'AddressSanitizer/UBSan build with exact-size arguments plus an expected outcome (values, presence, error list, help screen) written with each command line', 'up to 30 options, 60 arguments (514 options and texts of 131074 bytes in the long cases)')
c('C27', [v('c27.c', 3500, 50000)], 'one traffic history over loopback sockets; distinct by operations and contents', 'AddressSanitizer/UBSan build plus byte and datagram ledgers, readiness compared with what is pending, addresses compared with the kernel\'s, descriptors counted', 'loopback only, IPv4 and IPv6; up to 5 sockets and 3 MB per history')
c('C28', [v('c28.c', 1200, 20000)], 'one load/resolve/unload history over four libraries compiled on the spot and three damaged ones; distinct by operations', 'AddressSanitizer/UBSan build plus an online reference-count and symbol model compared with /proc/self/maps and the called functions\' results', 'up to 70 operations')
R_SCHED = 'one run of several threads; distinct by the order in which the threads were seen to take their steps'
_PORT = ['-DZPL_VERIFY_PORTABLE_ATOMICS']
c('C29', [v('c29.c', 1500, 60000, 'plain', threads=4), v('c29.c', 700, 20000, 'gcc', threads=4, flags=['-O3']), v('c29.c', 300, 10000, 'tsan', threads=4, flags=_PORT)], R_SCHED,
  'ThreadSanitizer build (with the compiler-visible atomics) and optimised builds of the inline-assembly atomics, with owner, ledger and stale-view monitors inside every critical section, injected delays, and a deadlock/livelock watchdog',
  '2..6 threads, up to 3 locks, holds up to 2 s; schedules are those the kernel and the injected delays produce',
  must_see=['critical sections', 'refused attempts', 'hand-overs between threads', 'long holds'])
c('C30', [v('c30.c', 12000, 400000, 'plain', threads=4), v('c30.c', 4000, 200000, 'gcc', threads=4, flags=['-O3']), v('c30.c', 4000, 100000, 'tsan', threads=4, flags=_PORT), v('c30.c', 4000, 100000, 'gcc', name='c30-portable', threads=4, flags=_PORT)], R_SCHED,
  'ThreadSanitizer build (compiler-visible atomics) and optimised builds of the inline-assembly atomics, with offline checks of the recorded histories: previous values form one chain, exchanged values pass on exactly once, owned bits are never disturbed, published data is complete',
  '2..7 threads, up to 30000 operations per history on one word with guarded neighbours')
c('C31', [v('c31.c', 2500, 100000, 'plain', threads=4), v('c31.c', 900, 30000, 'tsan', threads=4, flags=_PORT), v('c31.c', 700, 30000, 'gcc', threads=4, flags=['-O3'])], R_SCHED,
  'ThreadSanitizer and optimised builds with post/wait ledgers, arrival counters read at every passage, plain data published through each primitive, injected delays and signals, and a deadlock/livelock watchdog',
  'up to 9 threads, 800 waits each, 40 rendezvous rounds')
_PT = ['-Wl,--wrap=pthread_create,--wrap=pthread_join,--wrap=pthread_detach']
c('C32', [v('c32.c', 1500, 60000, 'plain', threads=4, libs=_PT), v('c32.c', 800, 25000, 'tsan', threads=4, libs=_PT), v('c32.c', 700, 25000, 'asan', threads=4, libs=_PT)], R_SCHED,
  'ThreadSanitizer, AddressSanitizer and optimised builds with run counters, plain results read after each join, identifier and stack comparisons among live threads, stand-ins (ld --wrap) that count and refuse thread creation, and the kernel\'s task list',
  'up to 24 live threads; stacks from 16 kB to 4 MB')
c('C33', [v('c33.c', 900, 40000, 'plain', threads=4), v('c33.c', 300, 12000, 'tsan', threads=4, flags=_PORT), v('c33.c', 400, 15000, 'asan', threads=4), v('c33.c', 300, 15000, 'gcc', name='c33-debugstats', threads=4, flags=['-O3', '-DZPL_JOBS_ENABLE_DEBUG'])], R_SCHED.replace('order in which the threads were seen to take their steps', 'workers, limits, enqueue order and executed count'),
  'ThreadSanitizer (compiler-visible atomics), AddressSanitizer and optimised builds with per-job run counters, plain results read at completion, exact room ledgers for each queue, a tracking allocator, the kernel\'s task list and a deadlock/livelock watchdog',
  'up to 8 workers, 5 priorities, 3000 jobs per history; one thread drives the queue, as the interface requires')
c('C34', [v('c34.c', 9000, 250000)], 'one edit history on one to three trees; distinct by operation sequence', 'AddressSanitizer/UBSan build plus an online ideal tree compared node by node, parent pointers and returned places included, after every edit; a tracking allocator judges what is released', 'up to 300 edits, 64 children per branch, 10 levels; branches are destroyed before they are removed or overwritten, and a node is not moved into its own subtree', must_see=['moves within a parent', 'swaps', 'lookups that hit'])
c('C35', [v('c35.c', 12000, 300000), v('c35.c', 4000, 80000, 'gcc', name='c35-gcc-O2')],
  'one generated tree (up to 400 nodes) and 40 paths over it, well-formed ones mostly built to hit, or malformed ones; non-trivial = a hit of two or more steps, or a malformed path; distinct by path text and tree',
  'each query result compared with an independent evaluation of its steps; the whole tree (structs, names, strings) and the path hashed before and after, under AddressSanitizer/UBSan',
  'names without a slash that do not start with a bracket, values without slash or closing bracket, components below 64 kB',
  must_see=['index steps', 'name steps', 'field filters', 'value filters', 'queries that hit', 'queries that miss', 'malformed paths', 'very long paths'])
c('C36', [v('c36.c', 8000, 1000000), v('c36.c', 2000, 60000, name='c36-noanalysis', flags=['-DZPL_PARSER_DISABLE_ANALYSIS'])],
  'sixty numerals (up to thousands of digits), numbers or near-numerals per evaluation; distinct by text or value',
  'node value compared with exact integer arithmetic or strtold, printed text parsed by the reference and by the library, non-numerals must leave the node byte-identical; exact-size buffers under AddressSanitizer/UBSan',
  'reals within 2e-14 relative, magnitudes 1e-290..1e290; hexadecimal above 2^63-1 only for memory safety; a real may be read back as an integer of equal value',
  must_see=['integer numerals', 'hexadecimal numerals', 'real numerals', 'printed and read back', 'non-numerals refused', 'near-numerals that are numerals', 'numerals of more than 40 characters'])
c('C37', [v('c37.c', 14000, 3000000), v('c37.c', 4000, 100000, name='c37-noanalysis', flags=['-DZPL_PARSER_DISABLE_ANALYSIS'])],
  'one generated document (strict JSON, or relaxed with comments, single quotes, bare names, = and | assignments, line-break delimiters, no outer braces), parsed, written in two styles and read back; non-trivial = two or more children at the root; distinct by text',
  'the parsed tree compared node by node with the generated value; output judged by an independent strict JSON validator and re-parsed; exact-size text buffers and a tracking allocator under AddressSanitizer/UBSan',
  'strings compared as written on parsing and with escapes decoded on round trips; reals within 2e-14; names below 64 kB; nesting up to ZPL_JSON_MAX_DEPTH',
  must_see=['strict documents', 'relaxed documents', 'outputs validated', 'compact outputs', 'indented outputs', 'deeply nested documents', 'second round trips', 'trees built by hand'])
c('C38', [v('c38.c', 9000, 2000000), v('c38.c', 2000, 60000, name='c38-noanalysis', flags=['-DZPL_PARSER_DISABLE_ANALYSIS'])],
  'one generated document cut at every position, damaged at every bracket, or mutated a dozen times; token soups; runs of brackets; distinct by text',
  'AddressSanitizer/UBSan build with exact-size text and a tracking (sometimes failing) allocator: every parse must end in an error with the text unchanged or in a tree whose every pointer lies in the text, which is walked, written and freed; damaged documents must be refused',
  'texts up to some hundred kB, NUL-terminated; nesting beyond ZPL_JSON_MAX_DEPTH must be refused',
  must_see=['trees walked', 'refusals', 'cuts', 'bracket damages', 'mutants', 'token soups', 'known bad documents', 'runs of opening brackets', 'parses with a failing allocator'])
c('C39', [v('c39.c', 12000, 2500000), v('c39.c', 4000, 100000, name='c39-noanalysis', flags=['-DZPL_PARSER_DISABLE_ANALYSIS'])],
  'one generated rectangular table (text, quoted, empty and number cells, with or without a header, ten delimiters), as text or built by hand, written with another delimiter and read back; non-trivial = two or more rows and columns; distinct by text',
  'the parsed table compared cell by cell with the generated one; output judged by an independent CSV reader and re-parsed; exact-size text and a tracking allocator under AddressSanitizer/UBSan',
  'number cells by value (reals within 2e-14); delimiters are no quote, letter, digit, sign or dot; cells without NUL',
  must_see=['tables parsed', 'tables with a header', 'tables with a white-space delimiter', 'quoted cells', 'number cells', 'empty cells', 'bare text cells', 'outputs validated', 'round trips', 'second round trips', 'tables built by hand', 'null texts', 'texts without a last line break'])
c('C41', [v('c41.c', 30000, 6000000)],
  'one generated URI (base, fields over the full byte alphabet, numbers, flags) as text with random escaping or built by hand, written and read back; non-trivial = two or more fields; distinct by text',
  'parsed fields compared with the generated ones; output judged by an independent decoder which also demands escaping, and re-parsed; exact-size text and a tracking allocator under AddressSanitizer/UBSan',
  'texts without NUL; the base has no ? or white space and no field bears its reserved name; fields without a value have a name; number-like values by value (reals within 2e-14)',
  must_see=['URIs parsed', 'with a base', 'flags', 'numbers', 'texts', 'outputs validated', 'round trips', 'built by hand', 'fields beyond 60000 bytes'])
c('C40', [v('c40.c', 16000, 5000000), v('c40.c', 4000, 100000, name='c40-noanalysis', flags=['-DZPL_PARSER_DISABLE_ANALYSIS'])],
  'a batch of mutated, cut, ragged or very long texts through the CSV or URI parser, any delimiter; distinct by text',
  'AddressSanitizer/UBSan build with exact-size text and a tracking (sometimes failing) allocator: every parse must end in an error or in a tree whose every pointer lies in the text, which is walked, written and freed; accepted tables must be rectangular and read back with their size; damaged tables must be refused',
  'texts up to some hundred kB, NUL-terminated',
  must_see=['tables walked', 'CSV refusals', 'CSV mutants', 'CSV cuts', 'ragged tables', 'known bad tables', 'known good tables', 'long texts', 'URI mutants', 'URIs walked', 'accepted tables read back', 'CSV parses with a failing allocator', 'URI parses with a failing allocator'])
c('C42', [v('c42.c', 60000, 12000000), v('c42.c', 15000, 500000, name='c42-builtins', flags=['-DZPL_NO_MATH_H']), v('c42.c', 15000, 500000, 'gcc', name='c42-gcc')],
  'a batch of boundary-heavy arguments (whole numbers, halves, neighbours of powers of two, random over all magnitudes) through every scalar function; distinct by arguments',
  'every result compared with the C library in double precision: rounding, sign, clamping and whole-number modulo exactly, the rest within a tolerance of a few single-precision ulps; UBSan build and two further builds',
  'finite arguments within +-2^31 (+-4e18 in double precision); quotients below 2^18 (2^40) for mod and remainder, which may be off by one divisor at its multiples; functions within their domains; fast_exp only within -1..1',
  must_see=['whole numbers', 'negative whole numbers', 'halves', 'whole mods', 'whole mods of negatives', 'function evaluations', 'angle differences', 'constants'])
c('C43', [v('c43.c', 100000, 10000000), v('c43x.cpp', 40000, 2000000, name='c43-operators'), v('c43.c', 30000, 1000000, 'gcc', name='c43-gcc')],
  'a batch of generated vectors, matrices, transformations, projections or views (whole numbers, mixed magnitudes, unit and boundary values) through every function and C++ operator; distinct by operands',
  'every element compared with a double-precision reference computed from the definition (Gauss-Jordan inverse, Rodrigues rotation, normalised device coordinates of frustum points), outputs prefilled, UBSan build and two further builds',
  'errors of a few single-precision ulps of the largest term; inverses of matrices of condition below 200 into another matrix; unit normals for reflection and refraction, no view along the up vector',
  must_see=['vector pairs', 'vectors normalised', 'total reflections', 'refractions', 'matrix triples', 'matrices inverted', 'transformations', 'projections', 'view matrices', 'operator rounds'])
c('C45', [v('c45.c', 20000, 3000000), v('c45.c', 8000, 400000, 'gcc', name='c45-gcc')],
  '4096 consecutive halves there and back (all 65536 repeatedly), or 400 single-precision numbers over all exponents, halfway points and range ends; distinct by bit pattern',
  'every half compared with the value its bits denote and with itself after the way back; every single-precision number must give a nearest half, infinity from 65520 on, NaN for NaN; UBSan build and a gcc build',
  'ties may go either way',
  must_see=['halves converted', 'normal halves', 'subnormal and zero halves', 'NaN halves', 'infinite halves', 'halfway points', 'overflows', 'NaNs converted', 'small numbers rounded', 'numbers rounded'])
c('C44', [v('c44.c', 60000, 10000000), v('c44x.cpp', 20000, 1000000, name='c44-operators'), v('c44.c', 20000, 600000, 'gcc', name='c44-gcc')],
  'a batch of generated quaternions (unit, axis-aligned, nearly equal, opposite, unnormalised), vectors, axes, angles and interpolation parameters through every function and C++ operator; distinct by operands',
  'results compared with a double-precision quaternion reference, rotations against Rodrigues and against the matrix path, interpolations against the spherical formula with arc lengths measured; UBSan build and two further builds',
  'axes read back only for rotations above a quarter radian; endpoints not exactly a half turn apart for the value of slerp; linear interpolation by its formula',
  must_see=['quaternion pairs', 'rotations', 'rotations beyond a third', 'smaller rotations', 'axes and angles read back', 'single angles', 'angles read back', 'identical endpoints', 'opposite endpoints', 'arcs turned around', 'squads', 'operator rounds'])
c('C46', [v('c46.c', 60000, 10000000), v('c46.c', 20000, 600000, 'gcc', name='c46-gcc')],
  'a batch of rectangles and boxes on a quarter grid (equal, touching, degenerate, negative extent) probed at and one ulp around every border, cuts of every side, or a view frustum with 30 points, spheres and boxes; distinct by operands',
  'each answer compared with the half-open point set the shape denotes, evaluated exactly on the grid; frustum answers compared with clip space computed in double precision from the same matrices; UBSan build and a gcc build',
  'non-negative cut amounts; points nearer than 0.2% of the scene to a side of a frustum are not judged; a box must be reported when a corner is inside and not when it lies beyond one side',
  must_see=['touching rectangles', 'points inside', 'points outside', 'intersections', 'rectangles apart', 'points in 3D boxes', 'cuts', 'cuts beyond the box', 'contractions', 'boxes contracted away', 'frusta', 'points in a frustum', 'points out of a frustum', 'spheres reaching inside', 'spheres outside', 'boxes with a corner inside', 'boxes beyond a side'])
_CLK = ['-Wl,' + ','.join('--wrap=' + f for f in 'clock_gettime gettimeofday time nanosleep clock_nanosleep usleep'.split())]
c('C47', [v('c47.c', 9000, 1500000, libs=_CLK, threads=4), v('c47.c', 2500, 100000, 'gcc', libs=_CLK, threads=4), v('c47.c', 1200, 40000, 'plain', name='c47-first', flags=['-DC47_RACE'], libs=_CLK, threads=4), v('c47.c', 400, 10000, 'tsan', name='c47-first-tsan', flags=['-DC47_RACE'], libs=_CLK, threads=4)],
  'a dozen instants between 1970 and 2261 in a time zone, relative readings while the clock advances and the wall clock jumps, a batch of (interrupted) sleeps, readings of the real clocks, or the first readings of a fresh process by up to 8 threads; distinct by instants, durations or order of the threads',
  'C library clocks and sleeps wrapped (ld --wrap) by stand-ins with a frozen clock and injected interruptions, exact expectations in each unit and zone; real clocks and SIGALRM-interrupted real sleeps as cross-check; thread orders perturbed between clock readings, published-maximum monitor, ThreadSanitizer',
  'readings within 1 ms of the frozen clock and 5 ms of the real one; zones as POSIX rules; a library that reads other clock functions than the wrapped ones is judged on the real clocks only',
  must_see=['moments', 'fractional-hour zones', 'daylight saving', 'negative offsets', 'relative readings', 'sleeps', 'interrupted sleeps', 'fractions of seconds', 'real readings', 'real sleeps', 'real sleeps under signals', 'concurrent readings', 'epochs converted', 'processes', 'readings'])
c('C48', [v('c48.c', 8000, 1000000), v('c48.c', 3000, 300000, 'gcc', name='c48-gcc')],
  'sixty boundary-heavy words through every bit operation (or 4096 consecutive ones), one history of environment changes over ten variables, or one command of generated output; distinct by operands, operations or output',
  'bitwise reference computation; model map of the environment compared after every step through each accessor, getenv and environ; command output compared byte by byte with the file it came from, tracking allocator, descriptor and child counts; AddressSanitizer/UBSan and a gcc build',
  'rounding up to a power of two for 1..2^30; names without = and values without NUL; outputs up to 300 kB; a captured buffer may be followed by one NUL',
  must_see=['words', 'exact powers', 'runs of 4096 values', 'environment histories', 'values set', 'values replaced', 'values removed', 'absent values removed', 'empty values', 'captured strings', 'captured buffers', 'outputs with zero bytes', 'outputs cut to the buffer'])
c('C49', [v('c49.c', 6000, 700000), v('c49.c', 1500, 60000, name='c49-noanalysis', flags=['-DZPL_PARSER_DISABLE_ANALYSIS'])],
  'one generated operation (a document parsed, built or written, a history of array, string or stream growth, a file read, a directory listed, lines split, bytes encoded, a command captured), repeated with each of its allocation requests failing once and from there on; distinct by result and number of requests',
  'fault injection by a tracking allocator at every request; each run must report failure with all contents as before, or give byte for byte the result of the undisturbed run; refused steps are repeated once memory is back; leaks and misuse counted; AddressSanitizer/UBSan',
  'at most 30 requests of an operation, first and last ones always; fixed-size buffers, tables, option tables, thread pools and calls that allocate from the C heap themselves are not covered',
  must_see=['operations', 'single failures injected', 'lasting failures injected', 'failures reported', 'nodes moved'])

_ALL = 1 | 2 | 4 | 8 | 16 | 32 | 64 | 128 | 512
def _cf(name, cc, fl, have=_ALL, approx=0, link=None):
    return dict(name=name, parts=[('c50w.c', cc, fl + ['-DC50_HAVE=%d' % have])], flags=[], link=link or (('clang++' if 'clang' in cc else 'g++') if '+' in cc else cc.split()[0]), linkflags=[x for x in fl if x.startswith('-fsanitize')], have=have, approx=approx)
def _sp(name, icc, wcc, fl, link):
    return dict(name=name, parts=[('c50i.c', icc, fl), ('c50w.c', wcc, fl + ['-DC50_CONSUMER'])], flags=[], link=link, have=_ALL)
def _lib(name, cc, link):
    return dict(name=name, parts=[('c50i.c', cc, ['-O1', '-fPIC', '-DZPL_SHARED_LIB'])], link=link + ' -shared', have=0, lib=1)
_EN = ['-DZPL_ENABLE_' + m for m in ('HASHING', 'OPTS', 'MATH', 'PARSER', 'JOBS', 'REGEX')]
CONFIGS = [_cf('ref', 'clang', ['-std=gnu11', '-O1']),
  _cf('gcc-O0', 'gcc', ['-std=gnu11', '-O0']), _cf('gcc-O2', 'gcc', ['-std=gnu11', '-O2']), _cf('gcc-O3', 'gcc', ['-std=gnu11', '-O3']), _cf('gcc-c99', 'gcc', ['-std=c99', '-D_GNU_SOURCE', '-O2']),
  _cf('clang-O3', 'clang', ['-std=c11', '-D_GNU_SOURCE', '-O3']), _cf('clang-Os', 'clang', ['-std=gnu17', '-Os']), _cf('gpp-11', 'g++ -x c++', ['-std=c++11', '-O2']), _cf('gpp-17-O0', 'g++ -x c++', ['-std=c++17', '-O0']), _cf('clangpp-20', 'clang++ -x c++', ['-std=c++20', '-O2']),
  _cf('unsigned-char', 'gcc', ['-O2', '-funsigned-char']), _cf('short-enums', 'gcc', ['-O0', '-fshort-enums']), _cf('lto', 'gcc', ['-O2', '-flto']),
  _cf('nano', 'clang', ['-O0', '-DZPL_NANO'], 1), _cf('nano-cpp', 'g++ -x c++', ['-O0', '-DZPL_NANO'], 1), _cf('pico', 'clang', ['-O1', '-DZPL_PICO'], 0), _cf('pico-cpp', 'g++ -x c++', ['-O2', '-DZPL_PICO'], 0),
  _cf('pico-all', 'gcc', ['-O0', '-DZPL_PICO', '-DZPL_ENABLE_CORE'] + _EN), _cf('nano-all', 'gcc', ['-O0', '-DZPL_NANO'] + _EN), _cf('nano-math', 'clang', ['-O0', '-DZPL_NANO', '-DZPL_ENABLE_MATH'], 1 | 8), _cf('nano-parser', 'clang', ['-O0', '-DZPL_NANO', '-DZPL_ENABLE_PARSER'], 1 | 16 | 128), _cf('nano-hashing', 'clang', ['-O0', '-DZPL_NANO', '-DZPL_ENABLE_HASHING'], 3), _cf('nano-opts', 'clang', ['-O0', '-DZPL_NANO', '-DZPL_ENABLE_OPTS'], 5), _cf('nano-threading', 'clang', ['-O0', '-DZPL_NANO', '-DZPL_ENABLE_THREADING'], 33),
  _cf('no-threading', 'gcc', ['-O0', '-DZPL_DISABLE_THREADING'], _ALL & ~96), _cf('no-analysis', 'gcc', ['-O0', '-DZPL_PARSER_DISABLE_ANALYSIS'], _ALL & ~128), _cf('heap-analysis', 'clang', ['-O0', '-DZPL_HEAP_ANALYSIS']), _cf('no-math-h', 'gcc', ['-O0', '-DZPL_NO_MATH_H'], approx=1),
  _cf('static', 'gcc', ['-O2', '-DZPL_STATIC']), _cf('exposed-types', 'g++ -x c++', ['-O0', '-DZPL_EXPOSE_TYPES', '-DZPL_DEFINE_NULL_MACRO']), _cf('asan', 'clang', ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment,function,pointer-overflow', '-fno-sanitize-recover=all']), _cf('msan', 'clang', ['-O1', '-g', '-fsanitize=memory']),
  _sp('split-c', 'gcc -O1', 'gcc -O0', [], 'gcc'), _sp('split-cpp', 'g++ -x c++ -O1', 'g++ -x c++ -O0', [], 'g++'), _sp('c-for-cpp', 'gcc -O1', 'clang++ -x c++ -O0', [], 'g++'), _sp('cpp-for-c', 'clang++ -x c++ -O1', 'gcc -O0', [], 'g++'), _sp('static-lib', 'clang -O1', 'gcc -O0', ['-DZPL_STATIC_LIB'], 'gcc'), _sp('shared-lib', 'gcc -O1 -fPIC', 'gcc -O0 -fPIC', ['-DZPL_SHARED_LIB'], 'gcc'),
  _lib('libc.so', 'gcc', 'gcc'), _lib('libcpp.so', 'g++ -x c++', 'g++')]
c('C50', [v('c50.c', 90, 8000, 'plain', libs=[], wall=200)], 'one seeded workload of five rounds over every module, run in every configuration and compared answer by answer; distinct by the answers of the reference', 'the same program built in 38 configurations (C/C++ standards, compilers, optimisation levels, distributions, module switches, split translation units, AddressSanitizer/UBSan and MemorySanitizer), the answers recorded and compared offline line by line',
  'x86-64 Linux only; NO_MATH_H may round differently; text written without parser analysis is not compared', configs=CONFIGS, must_see=['answers compared', 'names looked up'])

_PIECES = ['-DVZ_PIECES', '-Wl,' + ','.join('--wrap=' + n for n in 'write read pwrite pread sendfile pwrite64 pread64 sendfile64'.split())]
c('C51', [v('c51.c', 1650, 66000, threads=2, flags=_PIECES), v('c51.c', 330, 13000, 'plain', name='c51-plain', threads=2, flags=_PIECES), v('c51.c', 150, 6000, 'tsan', threads=4, flags=_PORT + ['-DVZ_THREADS_ONLY'])], 'one history of writes or reads through one descriptor; distinct by operations, sizes taken and order of arrival',
  'AddressSanitizer/UBSan and ThreadSanitizer builds plus byte ledgers at the other end of every descriptor: file size limits, full devices, closed and non-blocking pipes, interrupting signals and slow readers are injected, calls into the system move a part or fail with EINTR at random, and what was taken is compared with what was reported',
  'threads printing at once are judged through pipes and files opened for appending, in lines a pipe takes whole; a plain file shared by threads has one cursor and is not judged',
  must_see=['whole writes', 'partial writes', 'refused writes', 'standard stream writes', 'interrupting signals', 'writes larger than a pipe', 'reads of standard input', 'custom operations called', 'lines printed by threads', 'changes of thread between lines', 'transfers cut short', 'transfers cut by one byte', 'transfers interrupted'])

c('C52', [v('c52.c', 400, 20000, 'plain', threads=4), v('c52.c', 120, 6000, 'tsan', threads=4, flags=_PORT), v('c52.c', 120, 6000, 'asan', threads=4)], 'one run of two to six threads; distinct by the answers expected',
  'ThreadSanitizer build plus comparison of every answer with the one recorded beforehand on a single thread; text in library-owned buffers is looked at again after a delay',
  'functions that change process-wide settings (environment, current folder) are used only before the threads start',
  must_see=['answers compared', 'operations on own objects', 'reads of shared objects'])

c('C53', [v('c53.c', 500, 20000, threads=6), v('c53.c', 150, 6000, name='c53-heap', threads=6, flags=['-DZPL_HEAP_ANALYSIS'])], 'one child process per use; distinct by the use and its numbers, or by the shape and text of an assertion',
  'AddressSanitizer/UBSan build; every use runs in a child process whose end and report are judged: misuse must end it by a failed assertion before any sanitizer speaks, proper use must run to its end in silence',
  'only the misuse the library tests for; reports of the library itself are judged by their form and not by the words of the condition',
  must_see=['misuses stopped', 'proper uses let through', 'reports compared', 'programs left', 'library calls tried'])

c('C54', [v('c54.c', 60000, 3000000, fallback=['-DVZ_SIMPLE']), v('c54x.cpp', 30000, 1500000, name='c54-c++', fallback=['-DVZ_SIMPLE']), v('c54.c', 60000, 3000000, 'gcc', name='c54-gcc', fallback=['-DVZ_SIMPLE']), v('c54.c', 60000, 3000000, 'plain', name='c54-plain', fallback=['-DVZ_SIMPLE'])], 'one history of macro uses on one container, or one set of values; distinct by operations and forms of argument, or by the values',
  'AddressSanitizer/UBSan builds by two compilers and as C++, with a tracking allocator, and a model working on plain values: every argument is written as one of several composite expressions, in unbraced branches, with the names the macros might use themselves',
  'arguments are not required to be evaluated only once', must_see=['macro uses compared', 'values stored by type'])

_AFF = ['-Wl,' + ','.join('--wrap=' + f for f in 'syscall sched_setaffinity pthread_setaffinity_np sysconf get_nprocs get_nprocs_conf'.split())]
c('C55', [v('c55.c', 5000, 200000, 'plain', libs=_AFF, threads=4), v('c55.c', 3000, 100000, 'ubsan', libs=_AFF, threads=4), v('c55.c', 700, 20000, 'tsan', libs=_AFF, threads=4)], 'one layout with a history of bindings by one or several threads; distinct by what was asked and answered',
  'UBSan, ThreadSanitizer and optimised builds; every answer is compared with the processors the kernel then lets the thread use and with what the kernel accepted when asked directly; refusals and other numbers of processors are injected at the system calls',
  'the processors this machine lets a process use (larger layouts only through a stand-in for the count)', must_see=['bindings judged', 'thread histories'])

c('C56', [v('c56.c', 80, 3000, 'plain', chunk=1)], 'one call group or allocation history on one object of more than two or four gigabytes; distinct by operation and size',
  'optimised build; objects far larger than the memory spent on them (one stretch of memory mapped again and again between two ends of their own), every result compared with what the same call must give: references that leap over a constant middle, markers at both ends, and the system\'s view of files full of holes',
  'sizes around 2^31 and 2^32 bytes (regions of several times that), positions in files up to 2^41', must_see=['gigabytes handled', 'large blocks', 'far accesses', 'long files', 'checksums', 'strings', 'arrays', 'streams'])
