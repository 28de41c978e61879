#!/usr/bin/env python3
"""writes known_findings.json: findings (kept by hand below) and the repairs made in /repo"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
# commit subject -> properties, what failed
FIXED = [
 ('a directory without an entry point', 'C06 C21', 'resolving a directory that has no index file panicked'),
 ('a package without an entry point', 'C07 C28', 'node_modules/p without entry point near the importer hid p further up'),
 ('every main field and main file', 'C06', 'a later main field or main file was tried from the directory the earlier one led to'),
 ('text matched by a wildcard', 'C09', '"$1" or "$0" in the text a wildcard matched was expanded'),
 ('wildcard and nested exact keys', 'C09', 'keys with multi-byte letters were cut at the wrong place; the longer key did not always win'),
 ('an exports or imports target', 'C11', 'targets such as "./a/../../x" left the package'),
 ('a package name that is only a prefix', 'C31', 'package "ab" answered requests for "abc" as self references'),
 ('a package can refer to itself', 'C31', 'self reference failed when no node_modules directory existed'),
 ('an internal request', 'C12', '"#x" fell through to files and packages named "#x", or to an outer imports map'),
 ('an imports target naming a package', 'C12', 'an imports target "p" was looked up as a file of the package'),
 ('imports trees are cached apart', 'C18', 'exports and imports with the same JSON text shared a cache entry'),
 ('a package name is cut', 'C21 C31', 'multi-byte package names panicked'),
 ('a scope without a package name', 'C21', 'the request "@" or "@s/" panicked'),
 ('assert/strict', 'C32', 'assert/strict was not recognised as a builtin'),
 ('prefer_relative applies', 'C03 C12 C28', 'prefer_relative let absolute and "#" requests fall back to files in the directory'),
 ('unexpected values in exports', 'C22', 'numbers, booleans and nested arrays in exports or imports panicked'),
 ('a browser entry that is true', 'C22', 'a browser entry with the value true panicked'),
 ('the search for a description file', 'C21 C23 C29', 'relative or missing issuing directories made the upward search spin for ever'),
 ('a shared cache keeps', 'C18', 'two resolvers with different description_file over one cache saw each other\'s descriptions'),
 ('a description file with an older', 'C19', 'a description file replaced by one with an older mtime was not read again'),
 ('a description file that became malformed', 'C19 C22', 'a description that became malformed was answered from memory'),
 ('an unreadable description', 'C24', 'a description that could not be read once was remembered as absent'),
 ('configurations that refer', 'C23', 'cyclic alias, imports or main field overflowed the stack'),
 ('browser entries that lead back', 'C23', 'cyclic browser entries overflowed the stack'),
 ('browser entries apply', 'C20', 'the order of browser entries depended on the hash seed'),
 ('tsconfig paths are tried', 'C20', 'the order of tsconfig paths depended on the hash seed'),
 ('a tsconfig pattern matches', 'C26', 'a tsconfig pattern did not match the empty text and panicked on multi-byte letters'),
 ('a request mapped by tsconfig', 'C02', 'query and fragment were lost on the tsconfig route'),
 ('unexpected values in a tsconfig', 'C27', 'paths, extends or baseUrl of another type panicked'),
 ('a tsconfig that extends itself', 'C23 C27', 'a tsconfig that extends itself overflowed the stack'),
 ('the browser map of the requesting', 'C14', 'the importer\'s browser map did not apply to a package that has a description of its own'),
 ('a request path is normalised', 'C15 C16 C25', 'a request with ".." inside was looked up unnormalised, so links and descriptions of the wrong directory were used'),
 ('long requests and deep', 'C21', 'requests and directories of many thousand segments overflowed the stack'),
 ('a request mapped by an imports map', 'C01 C02', 'query and fragment were lost on the imports route'),
 ('a path mapped by tsconfig', 'C26', 'a mapped path with ".." behind a directory that does not exist was not found, one ending in "/" found hidden files'),
 ('a wildcard that is substituted', 'C23', 'an imports wildcard that doubles itself ("#a/*": "#a/*/*") grew without bound'),
]
log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()]
out = []
used = set()
for key, props, what in FIXED:
    c = [h for h, s in log if s.startswith('fix: ' + key)]
    assert len(c) == 1, (key, c)
    used.add(c[0])
    for p in props.split():
        out.append('fixed: property=%s %s %s' % (p, c[0], what))
left = [(h, s) for h, s in log if s.startswith('fix:') and h not in used]
assert not left, left
json.dump({'findings': FINDINGS, 'fixed': out}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
