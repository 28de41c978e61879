SPECS = {}
def spec(id, runs, bounds, outside, assumptions=()):
    SPECS[id] = dict(runs=runs, bounds=bounds, outside=outside, assumptions=list(assumptions))
def run(entry, params=None, thorough=None, **kw):
    return dict(entry=entry, params=params or {}, thorough=thorough or {}, **kw)

spec('C01', [run('check_C01_ascii', {'n':4}, {'n':6}), run('check_C01_utf8', {'n':3}, {'n':4})],
     'every request of 0..4 (thorough 0..6) ASCII bytes other than NUL and "/"; every sequence of 1..3 (4) tokens over "?", "#", "a", ".", all two-byte UTF-8 characters and the three-byte characters starting with 0xE2',
     'longer requests; requests with "/" before the query (covered by C02, C03)')
spec('C03', [run('check_C03_place', {'n':3}, {'n':4})],
     'every request of 0..3 (thorough 0..4) characters over "./a:C\\"; files a, .a, ..a, C:, a: each present or absent in the issuing directory, its two ancestors and the three node_modules directories',
     'Windows; longer requests')

spec('C04', [run('check_C04'), run('check_C04_names', {'n':3}, {'n':4}), run('check_C04_any', {'n':2,'both':4}, {'n':3,'both':6})],
     'file f, f.js, f.a, f.b each absent / regular file / directory (symbolic), f/index absent or present; every list of 0..3 distinct extensions in every order; the request "./f" and "../d/f"; symbolic names of 1..3 (thorough 4) characters over "a", "A", ".", " ", "-" and a two-byte letter against 22 files (each present or absent) and four extension lists, among them ".", "a" and ".a.a"; every extension and every name asked for or present of 1..2 (thorough 3) printable characters other than quotes, slashes, dots, stars, colons, "@", "?" and "#"',
     'more than three extensions; other file kinds')
spec('C05', [run('check_C05')],
     'every ordered list of 0..3 of the extensions "", ".a", ".b"; enforcement unset / on / off; file, file with extension and directory requests, relative and in node_modules; eight candidate files each present or absent',
     'repeated extensions')
spec('C06', [run('check_C06_fields'), run('check_C06_nested'), run('check_C06_any', {'n':2,'both':4}, {'n':3,'both':6})],
     'every ordered list of 0..2 main fields and 0..2 main files; eight values per field (file, extension, directory, directory with slash, number, missing, null, absent); relative and package; candidate files present or absent; three nested directories each with its own description or none; every main field or main file name and every name asked for or present of 1..2 (thorough 3) printable characters other than quotes, slashes, dots, stars, colons, "@", "?" and "#"',
     'more than two main fields; main field values "." and "./"')
spec('C07', [run('check_C07'), run('check_C07_inside'), run('check_C07_linked')],
     'three levels of node_modules each absent / directory / file; the package at each level absent / file / directory, with extension candidate and entry point or subpath files present or absent; plain and scoped names; eight issuing directories inside packages (also scoped, nested, missing) with the package present or absent in each node_modules on the way, node_modules/node_modules included',
     'more than three levels (plus the root of the file system)')
spec('C15', [run('check_C15')],
     'f and f.js each absent / file / directory / FIFO / symbolic link (five targets, including dangling and looping); entry points of every kind; eight request shapes; symlinks on and off',
     'sockets and devices')
spec('C16', [run('check_C16')],
     'links to files and directories, relative and absolute, chains of two, loops, dangling links, a linked package; sixteen requests, some issued from linked directories, some with ".." after a link, some three levels below a link',
     'chains of more than three links')
spec('C17', [run('check_C17_norm', {'n':6}, {'n':9})],
     'every absolute path of up to 6 (thorough 9) further bytes, each any value but NUL',
     'longer paths; Windows prefixes')
spec('C28', [run('check_C28'), run('check_C28_same')],
     'five package requests (plain, subpath, scoped, dot-name, with extension); sibling, local and parent node_modules candidates absent / file / directory, with extension and entry point; option on and off; 24 requests of every kind in trees with imports, browser and exports maps (also malformed), with query and fragment, browser option on and off: the answer with the option against the answers without it',
     'option aliases')
spec('C29', [run('check_C29')],
     'twelve request shapes with any printable one-character query and fragment; three description files; node_modules, empty package and empty directory present or not; prefer_relative, alias, browser field',
     'errors that report unreadable or malformed description files (C22)')

spec('C08', [run('check_C08_caps'), run('check_C08_main'), run('check_C08_list'), run('check_C08_any', {'n':2,'both':3}, {'n':2,'both':4})],
     'sixteen shapes of the exports value (string, array, conditions, subpaths, folder, wildcard, empty, keys two levels deep), plain and scoped package with its own, no or another name, condition on and off, fifteen subpaths, six target files present or absent; main, main files, extensions and browser entries beside the map; lists of two to five targets in seven forms (also within and around conditions), each absent, a file or a directory with an entry point, with and without an extended namesake; every subpath key and every name asked for or present of 1..2 printable characters (thorough: both of two) other than quotes, slashes, dots, stars, colons, "@", "?" and "#"',
     'maps of more than two keys (C09)')
spec('C09', [run('check_C09_exports', {'n':4,'keys':2}, {'n':5,'keys':3}), run('check_C09_imports', {'n':4,'keys':2}, {'n':5,'keys':3})],
     'every choice of one or two (thorough up to four) of nine overlapping keys (two exact, two folder, five wildcard, one of them not ASCII), written in either order; every subpath of 1..3 (thorough 4) characters over a, b, /, $, * and the two-byte letters U+00E0..U+00FF',
     'a wildcard standing for nothing; more than one wildcard per key; empty path segments')
spec('C10', [run('check_C10_order', {'depth':1}, {'depth':2}), run('check_C10_deep', {'depth':2,'values':3}, {'depth':3,'values':5}), run('check_C10_any', {'n':2,'both':4}, {'n':3,'both':6})],
     'condition objects of 1..3 keys over two conditions, default and a foreign condition in every order, nested one (thorough two) level deep, and two keys per level three (thorough four) levels deep, there with one value replaced by an empty object or null (thorough also an object without a matching condition or an empty list); both conditions active or not; in exports (whole value, subpath, array) and imports; every condition and every name asked for or present of 1..2 (thorough 3) printable characters other than quotes, slashes, dots, stars, colons, "@", "?" and "#"',
     'more than three keys per object')
spec('C11', [run('check_C11_exports', {'n':4,'m':4}, {'n':6,'m':5}), run('check_C11_imports', {'n':4,'m':4}, {'n':6,'m':5})],
     'every exports and imports target "./" + 0..4 (thorough 6) characters over "./a" in exact, folder and wildcard keys; every subpath of 1..4 (5) such characters; files named a, aa, .a, ..a in the package and its three ancestors',
     'targets with percent encodings or backslashes; symbolic links')
spec('C12', [run('check_C12_listed'), run('check_C12_any', {'n':2,'both':4}, {'n':3,'both':6})],
     'twelve imports maps (file, directory, missing extension, condition, chain, bare package, package subpath, folder), the importer at top level or inside node_modules, an outer map, literal files and directories named "#a", the dependency near / hoisted / absent with three description forms; four requests; every imports key and every name asked for or present of 1..2 (thorough 3) printable characters other than quotes, slashes, dots, stars, colons, "@", "?" and "#"',
     'longer chains')
spec('C31', [run('check_C31_names'), run('check_C31_self'), run('check_C31_any', {'n':1}, {'n':2})],
     'seven requested names that are prefixes and extensions of each other against three own names and four installed packages in three forms; self reference from three depths, with and without a node_modules directory; every name of one (thorough two) printable characters and every scope and name of one character, as own name and as installed package in two forms',
     'longer names other than those listed')
spec('C02', [run('check_C02_routes', {'n':2}, {'n':3})],
     '27 requests along every route (exact, extension, directory, alias, chained alias, prefer-relative, package main field and main file, browser file and module entries, exports folder, wildcard and conditional array, imports exact, chained, wildcard, folder and package, tsconfig exact and wildcard); queries "?" + 0..2 (thorough 3) printable characters and optionally one two- or three-byte letter, fragments "#" + 0..2 (3) printable characters; tsconfig and prefer-relative also beside every other route',
     'exact keys of an exports map (there the query is part of the subpath that is matched); rules that spell a query themselves')
spec('C13', [run('check_C13_alias', {'n':1,'alias':2}, {'n':2,'alias':2}), run('check_C13_order', {'entries':2}, {'entries':3}), run('check_C13_any', {'n':2,'both':3}, {'n':2,'both':4})],
     'two alias entries with every key of 0..1 (thorough 2) characters over "ab/", target ignored or 1 (2) characters with or without "./", every request of 1..2 (3) characters over "ab/."; two (thorough three) entries from 7 keys and 10 targets in every order against ten requests with query and fragment; every alias key and every name asked for or present of 1..2 printable characters (thorough: both of two) other than quotes, slashes, dots, stars, colons, "@", "?" and "#"',
     'cyclic entries (C23); issuing directories inside node_modules; the answer of a request without aliases is taken from the same code (decided by C03 - C12)')
spec('C14', [run('check_C14_map'), run('check_C14_chain'), run('check_C14_package'), run('check_C14_any', {'n':2,'both':3}, {'n':2,'both':4})],
     'one entry of 8 keys and 9 values (beside two foreign entries or alone), an outer map, modules beside the importer or hoisted with or without description, 16 requests, option on and off; every map over two files and two modules whose entries lead to each other, in both orders; maps of a package with four main fields and with exports; every browser key and every name asked for or present of 1..2 printable characters (thorough: both of two) other than quotes, slashes, dots, stars, colons, "@", "?" and "#"',
     'entries that lead back to themselves (C23); two entries naming the same file')
spec('C18', [run('check_C18_pairs', {'prior':1}, {'prior':2}), run('check_C18_trees', {'bodies':9,'fields':2}, {'bodies':11,'fields':3}), run('check_C18_byte')],
     'every pair of 18 operations (15 requests, 3 side-effect queries) by seven resolvers with different options over one shared cache (thorough: after each of six operations by three of the resolvers), two of the description files present or absent; two packages with every pair of nine (thorough eleven) exports or imports values (thorough also both fields), every pair of three requests and two condition sets; two packages whose exports or imports differ in one byte (every pair of printable bytes, as target, condition, exports and imports key)',
     'longer histories; other options; a file system that changes (C19); debug builds (they assert that a file is parsed once)')
spec('C19', [run('check_C19_content'), run('check_C19_time')],
     'every pair of eleven contents of one description file (among them malformed ones; called package.json or otherwise), every pair of six operations before and after, newer and older; modification times t0, t1, t2 of 0..255 s and 1/256 s steps, symbolic, two modifications in a row, each at least one second apart',
     'description files that appear or vanish; modifications within one second')
spec('C24', [run('check_C24_once', {'calls':60,'errs':1,'wide':0}, {'calls':80,'errs':2,'wide':1}), run('check_C24_file', {'errs':1}, {'errs':2})],
     'eleven operations in three configurations (default, browser map with prefer-relative, tsconfig with extends); the k-th stat, open, read or realpath call fails with EIO (thorough also EACCES), alone or with every later call, for every k; a cold or a warmed resolver; then the same or one of three (thorough any of the eleven) operations without failures against a fresh resolver; each description or settings file that exists but fails to be examined, opened or read during one or two operations, then not any more',
     'a call that fails with ENOENT (it says that the file is absent); partial reads')
spec('C25', [run('check_C25_nearest', {'queries':1}, {'queries':2}), run('check_C25_used', {'queries':1}, {'queries':2}), run('check_C25_value', {'n':2}, {'n':3})],
     'description files absent, regular, a directory or (the upper two) a link in four nested directories; ten paths (directories, files, missing files and directories, a path through a file) in every order of one (thorough two) queries; nine sideEffects values; lists of up to two strings of up to two (thorough three) printable characters; five requests whose answer is mapped by a description',
     'unreadable description files (C24)')
spec('C33', [run('check_C33_names', {'noise':2}, {'noise':4}), run('check_C33_any', {'n':2,'both':4}, {'n':3,'both':6})],
     'eight contents for the package and the importer, two (thorough four) misleading files of the other name, three custom names or none, browser map on and off, nine operations; answers, errors and side effects compared with a tree in which the same metadata is called package.json (or there is none); every name of one or two (thorough three) printable characters for an internal request, an entry point and the side effects from a directory below',
     'names with a directory part')
spec('C21', [run('check_C21_bytes', {'n':2,'widths':3}, {'n':3,'widths':4}), run('check_C21_dirs'), run('check_C21_deep', {'segments':100,'stack_kb':512}, {'segments':300,'stack_kb':512}, depth=120, steps=30000000, timeout=60)],
     'requests of a lead (empty, package, scope, relative, internal), 0..2 (thorough 3) characters each any ASCII byte (also NUL) or any two-byte, a three-byte (from U+4000) letter (thorough also a four-byte one), and a tail; four configurations; 22 issuing directories (empty, relative, root, with NUL, a file, below a file, missing, non-ASCII, not normalised) with 15 leads and one ASCII byte; six kinds of segments repeated 100 (thorough 300) times in requests, query, fragment and issuing directory: the call depth stays below 120 frames (the replay repeats them 60 times more on a 512 KiB stack)',
     'issuing directories that are not UTF-8; longer symbolic text; memory exhaustion')
spec('C22', [run('check_C22_shapes'), run('check_C22_pairs', {'ops':3}, {'ops':7}), run('check_C22_bytes', {'n':2}, {'n':3}), run('check_C22_deep', {'stack_kb':512}, timeout=60)],
     '44 JSON values for each of the fields name, main, browser, exports, imports, sideEffects, version and as the whole document, pairs of fields with 12 values each; 0..2 (thorough 3) arbitrary bytes at eleven places of a document (malformed ones must be reported by an error that names the file, an RFC 8259 reader written for the check is the oracle); seven operations; five kinds of nesting 60 levels deep (replay: 120000 levels, 512 KiB stack)',
     'documents with more fields; longer arbitrary text; a tsconfig (C27)')
spec('C23', [run('check_C23_alias', {'n':1,'alias':2,'req':1}, {'n':2,'alias':2,'req':2}), run('check_C23_browser', {'entries':2}, {'entries':3}), run('check_C23_imports', {'entries':2}, {'entries':3}, steps=20000000), run('check_C23_main', {'second':3}, {'second':14}), run('check_C23_mixed', {'names':5}, {'names':8})],
     'two alias entries with any key and target of 0..1 (thorough 2) characters over "ab/#." beside cyclic browser and imports maps; two (thorough three) browser entries over seven names; two (three) imports entries over five keys and eleven targets; main and module fields of two packages over 14 values; every combination of five (eight) names for alias, imports, browser, main and tsconfig leading to each other; each resolution ends within 3 (imports: 20) million instructions and 400 frames, a confirmed violation does not end within 20 s natively',
     'more entries; cycles through links (C16)')
spec('C32', [run('check_C32_edits'), run('check_C32_short', {'n':1}), run('check_C32_around')],
     'every name of the list, every name with one byte replaced by or one inserted of any of the 128 ASCII values at any place, every name with one byte removed, every string of up to one byte; every name between 20 prefixes (such as "node:") and 17 suffixes, also in upper case',
     'names further away from every entry of the list; the list itself is written down in the check')
spec('C26', [run('check_C26_key', {'n':2,'r':2}, {'n':3,'r':3}), run('check_C26_two'), run('check_C26_mix'), run('check_C26_any', {'n':2,'both':4}, {'n':3,'both':6})],
     'one paths key of 0..2 (thorough 3) characters over "ab/*" with at most one star, nine target lists (star, prefix, suffix, two stars, parent directories, absolute, empty), five baseUrl values (none, ".", subdirectory, parent, absolute), every request of 1..2 (3) characters over "ab/."; two of eight overlapping keys in both orders with 15 pairs of target lists; nine keys and six targets beside browser map, alias, imports and prefer-relative, with and without comments and trailing commas; files present or absent; every paths key (also with a star before or after) and every name asked for or present of 1..2 (thorough 3) printable characters other than quotes, slashes, dots, stars, colons, "@", "?" and "#"',
     'requests ending in a directory separator; three keys (C20); which of two patterns goes first (either is accepted, an equal key must)')
spec('C27', [run('check_C27_chain', {'levels':2}, {'levels':3}), run('check_C27_forms'), run('check_C27_shapes', {'second':4}, {'second':22}), run('check_C27_bytes', {'n':1}, {'n':2}), run('check_C27_any', {'n':2,'both':4}, {'n':3,'both':6})],
     'chains of one or two (thorough three) files in three directories, each with baseUrl and two paths keys present, absent or leading nowhere; eleven ways to name the extended file (with and without extension, parent, package file, package main, package exports, hoisted, absolute, missing), four contents with foreign settings and comments; 22 JSON values at seven places; one (thorough two) arbitrary bytes at seven places of the extending or extended file; every extends value and every name asked for or present of 1..2 (thorough 3) printable characters other than quotes, slashes, dots, stars, colons, "@", "?" and "#"',
     'a missing extended file may be reported or skipped; extends given as a list')
spec('C20', [run('check_C20_paths', {'keys':3,'anyhash':1}, {'keys':4,'anyhash':1}), run('check_C20_maps', {'keys':2,'anyhash':1}, {'keys':3,'anyhash':1})],
     'three (thorough four) overlapping tsconfig paths keys, inherited or not, and browser, exports, imports and condition maps (alone, within a condition, within default) of two (three) keys: the hash of every text is a symbolic value, so every bucket order of a table is explored; the answer is compared with that of a fixed order (replay: 64 randomly seeded tables)',
     'tables with more than four keys; tables keyed by paths (never iterated)')
spec('C30', [run('check_C30_pairs', {'ops':6,'resolvers':2,'preempt':1,'threads':2}, {'ops':3,'preempt':2}, samples=16)],
     'two threads, one call each on one resolver or on two resolvers that share a cache, six calls (thorough three) over a tree of packages with exports, imports, browser map, broken and missing description files (four trees); every schedule with at most one (thorough two) preemptions, a preemption being possible before every compare-exchange, exchange, atomic load and atomic store (lock acquisitions of the tables and of mutexes), with lock contention and futex waits; deadlock is a violation; replay: 1500 rounds with real threads and random pauses',
     'more preemptions, three threads; weak memory; data races on memory that is not accessed atomically; preemption at reference counter updates')
spec('C34', [run('check_C34_noise', {'n':1}, {'n':2})],
     'twenty things that do not apply (alias, condition, extension, main field, main file, prefer-relative, tsconfig paths, description field, exports, imports and browser entry, condition within a map, file or directory of another name, symlinks without links, a cache of its own, enforcement off, browser option without browser map, tsconfig without paths), their names every text of one (thorough up to two) printable characters other than quotes, slashes, dots, stars, "?" and "#", first or last in their list; 25 requests from two directories, package with and without exports, browser map on and off',
     'names longer than that; several such things at once')
spec('C35', [run('check_C35_spelling')],
     'three issuing directories, every separator one of "/", "//", "/./", three endings; 25 requests, package with and without exports, browser map on and off; the plain spelling already cached or not',
     'directories with ".." (C21 only claims that they do not crash); links (C16)')
spec('C36', [run('check_C36_defaults')],
     'thirteen files each present or absent, four description files, nine requests, four extension lists',
     'other description files')
