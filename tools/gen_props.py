#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One place to edit the property texts.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,symbols):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
                  anchors=dict(files=files,mechanism=[dict(name=x,where=files[0] if len(files)==1 else ', '.join(files)) for x in symbols],hook_needed=None)))
R='src/resolve.rs'; L='src/lib.rs'; M='src/map.rs'; D='src/description.rs'
p('C01','A request splits exactly into path, query and fragment',
 'A request string is split without loss into a path, a query and a fragment: the query starts at the first "?" that is not inside the fragment, the fragment starts at the first "#" that is not the very first character of the request, and everything from a fragment start on belongs to the fragment. A successful resolution reports exactly that query and fragment text, and looks up exactly that path text.',
 ['inputs'],'every UTF-8 request string (bounded length), including ones that mix "?", "#", "\\0"-like and non-ASCII characters in any order','the parse test samples 15 strings; nothing checks that the result of resolve() carries the pieces',
 ['src/parse.rs',L],['Request::parse_identifier','Resolver::parse'])
p('C02','Query and fragment survive every rewriting route',
 'When a request with a query and/or fragment is resolved through an option alias, a browser-field alias, an exports map, an imports map, a package main field or main file, an extension, prefer-relative or tsconfig paths, the result carries the query and fragment of the original request unchanged (unless the rewriting rule itself spells a query or fragment).',
 ['inputs','configurations'],'every query and fragment text and every one of the rewriting routes','tests use two or three fixed query strings on a couple of routes',
 ['src/parse.rs','src/plugin/alias.rs','src/plugin/exports_field.rs','src/tsconfig_path.rs'],['Request::with_target','Resolver::_resolve_with_tsconfig'])
p('C03','Request kind decides where it is looked up',
 'A request path that is empty, ".", "..", or starts with "./" or "../" is resolved only against the issuing directory; one starting with "/" only against the filesystem root; every other path (that is neither "#..." nor a Windows drive path) is a package request looked up only under node_modules directories. In particular names such as ".foo", "..foo" or "a./b" are package requests.',
 ['inputs'],'every short request path','the kind test samples 11 strings and only looks at the internal classification',
 ['src/kind.rs',R,L],['Resolver::get_target_kind','Resolver::resolve_as_modules'])
p('C04','Exact file first, then extensions in configured order',
 'Without enforced extensions a path naming an existing regular file resolves to that file; otherwise the first configured extension, in list order, whose appended path is a regular file wins; a file always takes precedence over a directory of the same name, and a directory is never returned as a file.',
 ['inputs','configurations'],'every combination of which candidate paths exist as file, directory or nothing, and every order of the extension list','fixtures contain a handful of fixed file layouts',
 [R,'src/plugin/extensions.rs'],['Resolver::resolve_as_file','ExtensionsPlugin'])
p('C05','Enforced extension never accepts an unextended path',
 'When extensions are enforced (explicitly, or implicitly because the extension list contains an empty string), a file is only accepted through appending one of the configured extensions, in list order; when enforcement is explicitly off the exact path is tried first.',
 ['inputs','configurations'],'all values of the enforce option, extension lists with and without "", and all layouts of the candidate files','two fixtures with fixed layouts',
 [L,R,'src/plugin/extensions.rs'],['Resolver::new','Resolver::resolve_as_file'])
p('C06','Directory resolution follows main fields, then main files',
 'A directory resolves to the target of the first configured main field (in option order) whose string value leads to an existing file or directory entry point, relative to the directory that owns the description file; only if none does, to the first configured main file (in option order, with extension probing) present in the directory; else resolution fails. Main fields of a description file further up never apply to a subdirectory.',
 ['inputs','configurations'],'every presence/absence pattern of candidates, main field values and orders of the two option lists','a few fixed fixtures',
 [R,'src/plugin/main_field.rs','src/plugin/main_file.rs'],['Resolver::resolve_as_dir'])
p('C07','Package lookup picks the nearest node_modules that can serve it',
 'A package request is looked up in node_modules of the issuing directory, then of each ancestor up to the root, and the first directory level whose node_modules yields a result wins; a level that lacks the package does not stop the walk, and no directory other than these node_modules is consulted.',
 ['inputs'],'every subset of ancestor levels that contain the package, as file or directory, complete or incomplete','one fixture with two levels',
 [R],['Resolver::resolve_as_modules'])
p('C08','A package exports map encapsulates the package',
 'When a package in node_modules has an exports map, a request into the package succeeds only with a file that the map assigns to that subpath under the active conditions (of a list of targets, the first that is an existing file); subpaths the map does not list are refused even if the file exists, and refusal does not fall through to direct file lookup in that package.',
 ['inputs','configurations'],'every subpath string (bounded) against exports maps with exact, folder and wildcard keys','fixed lists of subpaths',
 [M,'src/plugin/exports_field.rs',R],['ExportsField','ExportsFieldPlugin'])
p('C09','Most specific exports/imports key wins',
 'Among the keys of an exports or imports map that match a request, an exact key wins over patterns and folder keys, and otherwise the key with the longest literal prefix wins, independent of the order in which keys are written; the part of the request after the prefix is substituted verbatim into the target.',
 ['inputs','configurations'],'every pair/triple of keys over a small alphabet and every request over that alphabet, in either key order','the map tests fix the keys and the requests',
 [M],['PathTreeNode::find_match','Field::target_mapping'])
p('C10','Conditions apply in written order with nesting and default',
 'In a conditional exports/imports target the first key in document order that is an active condition or "default" and leads (through nested conditions) to a target decides; a nested object without a matching condition (also an empty one) falls through to the next key, null decides that there is no target; inactive conditions never contribute.',
 ['inputs','configurations'],'every set of active conditions against nested condition objects, every document order','fixed condition sets',
 [M],['conditional_mapping'])
p('C11','Exports and imports targets never leave the package directory',
 'Whatever target strings an exports map (or relative targets of an imports map) contains and whatever subpath is requested, a resolution through it never yields a file outside the directory of the package that owns the map.',
 ['inputs','configurations'],'every target string and every substituted subpath (bounded) over path-significant characters such as ".", "/", and letters','the check_target test samples 20 strings',
 [M,'src/plugin/exports_field.rs','src/plugin/imports_field.rs'],['Field::check_target'])
p('C12','Internal (#) requests resolve only through the nearest imports map',
 'A request starting with "#" is resolved only by the imports map of the description file nearest to the issuing directory: a listed key yields its (condition-selected) file or package target, an unlisted key or a package without the map fails, and no file or node_modules entry literally named "#..." is ever returned for it.',
 ['inputs','configurations'],'every "#" request string (bounded) and map shape','a handful of fixed names',
 ['src/plugin/imports_field.rs',M],['ImportsFieldPlugin','ImportsField'])
p('C13','Option aliases rewrite prefixes in order and can ignore',
 'Alias entries whose key is a prefix of the request path are tried in list order: an ignore entry yields "ignored", a target entry replaces exactly the leading key once and, if the rewritten request resolves, its result is the answer; if it does not resolve later entries and finally the original request are tried; an entry whose target is itself a prefix of the request is skipped.',
 ['inputs','configurations'],'every alias key/target/request over a small alphabet, every order of two entries','one fixture list',
 ['src/plugin/alias.rs'],['AliasPlugin'])
p('C14','The browser field replaces or ignores exactly the named modules',
 'With browser-field support on, a request that names a module or file listed in the browser map of the applicable description file is replaced by its (transitively followed) target or reported as ignored when the value is false, and every unlisted request is unaffected; with support off the map has no effect.',
 ['inputs','configurations'],'every request and every map of the bounded shape, both settings of the option','one fixture package',
 ['src/plugin/alias_field.rs',D],['AliasFieldPlugin'])
p('C15','A successful result is an existing regular file',
 'For every layout of files and directories and every request, a successful result names, by an absolute path without "." or ".." components, a regular file that exists; a directory or a missing path is never returned.',
 ['inputs','configurations'],'every existence pattern of the candidate paths for every route (file, extension, directory, main field, exports, package)','tests check the equality of a few expected paths',
 [R,'src/normalize.rs'],['Resolver::normalize_result'])
p('C16','Symlinks are followed exactly when asked',
 'With the symlinks option on the result is the canonical real path of the file found; with it off the result is the lexically normalised path through which it was found, unaffected by links; the option never changes which file is found.',
 ['inputs','configurations'],'every combination of link/plain entries at the directory and file level, both settings','three fixture links',
 ['src/normalize.rs'],['Resolver::normalize_path'])
p('C17','Lexical normalisation of absolute paths is exact',
 'Normalising an absolute path lexically removes every empty and "." component, lets ".." cancel the preceding component and never climb above the root, keeps all other components byte for byte in order, yields no "." or ".." component, and is idempotent.',
 ['inputs'],'every absolute path string (bounded) over path-significant and arbitrary bytes','no unit test covers it directly',
 ['src/normalize.rs'],['Resolver::normalize_path_without_link'])
p('C18','Earlier resolutions never change later answers',
 'On an unchanged file system the answer to a request does not depend on which requests were resolved before with the same resolver, nor on sharing a cache with other resolvers that have other options: it equals the answer of a fresh resolver.',
 ['histories','configurations'],'every pair of requests and of package contents in the bounded worlds','two tests count cache entries',
 ['src/cache.rs',D,'src/fs.rs'],['ResolverCache','Resolver::load_pkg_file'])
p('C19','A modified description file is observed',
 'When a description file that was read before is modified and its modification time moves by at least one second (in either direction), the next resolution uses the new content exactly as a fresh resolver would.',
 ['histories'],'every pair of contents and every pair of modification times of the bounded world','no test modifies a file',
 ['src/fs.rs',D],['CacheFile::need_update','Resolver::load_pkg_file'])
p('C20','Answers do not depend on hash iteration order',
 'The result of a resolution is a function of options, file system and request: it never depends on the iteration order of internal hash maps (for the browser map, tsconfig paths or active conditions).',
 ['configurations','schedules'],'every iteration order of the internal hash tables','hash seeds are random per process; a test run sees one order',
 ['src/plugin/alias_field.rs','src/tsconfig_path.rs',M],['AliasFieldPlugin','Resolver::create_match_list'])
p('C21','No request string can crash the resolver',
 'For every issuing directory and every UTF-8 request string, including empty, non-ASCII, control and path-significant characters, resolving returns a result or an error and never panics, aborts or recurses without bound.',
 ['inputs'],'every request string up to the bound, in a world with packages, scoped packages, exports and imports maps','tests only use well-formed ASCII requests',
 [R,'src/kind.rs','src/plugin/exports_field.rs',M],['Resolver::resolve'])
p('C22','No package.json content can crash the resolver',
 'Whatever bytes the description file contains - not JSON, JSON of any shape, unexpected value types in name, main, browser, exports, imports or sideEffects - resolving returns a result or an error and never panics; content that is not valid JSON is reported as an error naming the file.',
 ['inputs','configurations'],'every value shape at every field position of the bounded grammar, and every short byte string as the whole file','two malformed fixtures',
 [D,M],['Resolver::parse_description_file','Field::from_json'])
p('C23','Resolution terminates on cyclic configuration',
 'Resolution terminates with a result or an error for every configuration, including alias entries, browser maps, imports maps, main fields or tsconfig extends that refer to themselves or to each other.',
 ['configurations'],'every configuration in the bounded grammar that can form a cycle, and every request','only the direct self-alias is tested',
 ['src/plugin/alias.rs','src/plugin/alias_field.rs','src/plugin/imports_field.rs','src/tsconfig.rs'],['AliasPlugin','AliasFieldPlugin','ImportsFieldPlugin'])
p('C24','I/O failures never crash or corrupt later answers',
 'If any file system call made during a resolution fails, the call returns an error or another candidate but never panics or hangs, never reports a file that does not exist, and a later resolution without failures gives the answer of a fresh resolver.',
 ['fault_sequences'],'every single failing call, each error kind, at every point of a resolution','no test injects a failure',
 ['src/fs.rs',D,'src/normalize.rs'],['CacheFile','Resolver::normalize_path'])
p('C25','The nearest description file is the one that applies',
 'For every path, the description file consulted (as reported by the side-effects query and as used in resolution) is the one in the closest ancestor directory that has one, whatever files exist above or below, and its sideEffects value is reported exactly: boolean, list of strings, or absent.',
 ['inputs','histories'],'every subset of ancestor directories holding a description file, in every query order','two fixtures',
 [D,'src/utils.rs'],['Resolver::load_pkg_file','Resolver::find_up','Resolver::load_side_effects'])
p('C26','tsconfig paths map exactly the matching requests',
 'With a tsconfig, a request equal to a paths key, or matching its single "*" with any (also empty) middle part, is tried at each listed target in order with "*" replaced by that part, relative to baseUrl; if none resolves, and for every non-matching request, the answer is the one without tsconfig.',
 ['inputs','configurations'],'every key/target/request over a small alphabet','fixture projects with fixed names',
 ['src/tsconfig_path.rs'],['Resolver::match_star','Resolver::_resolve_with_tsconfig'])
p('C27','tsconfig extends is merged with the extending file first',
 'Settings of a tsconfig override those of the file it extends key by key, at every depth of the extends chain; settings only present in the extended file take effect as if written in the extending file; a baseUrl that is no string, paths that are no lists of strings and a file that is not readable text are reported as errors, and no content crashes the resolver.',
 ['configurations'],'every presence pattern of baseUrl and paths along a chain of two or three files','one fixture chain',
 ['src/tsconfig.rs'],['merge','parse_file_to_value'])
p('C28','prefer-relative tries the relative file first, then the package',
 'With prefer_relative on, a package request resolves as a relative request when that succeeds and otherwise exactly as it would with the option off; with the option off a package request never resolves to a sibling file. Requests of other kinds are not affected by the option.',
 ['inputs','configurations'],'every existence pattern of the relative and package candidates','two assertions in one test',
 ['src/plugin/prefer_relative.rs'],['PreferRelativePlugin'])
p('C29','Resolution failures name the request and the directory',
 'Every failed resolution returns a non-empty error message; when nothing was found it is exactly "Resolve \'<request>\' failed in \'<directory>\'" with the request as given and the issuing directory, and internal placeholder values are never returned.',
 ['inputs'],'every failing request string in the bounded worlds','a few exact-message assertions',
 [L,'src/utils.rs'],['Resolver::raise_resolve_failed_message','Resolver::raise_tag'])
p('C30','Concurrent use gives sequential answers',
 'When several threads resolve with one resolver (or with resolvers sharing a cache) on an unchanged file system, every call returns the answer a lone call on a fresh resolver would return, with no deadlock and no crash.',
 ['schedules'],'every interleaving of the shared-cache accesses of two calls','tests are single threaded',
 ['src/cache.rs','src/fs.rs',D],['ResolverCache','CacheFile'])
p('C31','Scoped names and self references select the right package',
 'A package request addresses the package named by its first segment (first two segments for "@scope/name") and no other: a package whose name is merely a string prefix of the request never captures it, and a package with an exports map can be addressed by its own name from inside itself.',
 ['inputs'],'every request over a small alphabet against packages with related names','one scoped and one self-reference fixture',
 [R,'src/plugin/exports_field.rs'],['ExportsFieldPlugin::is_resolve_self','Resolver::resolve_as_modules'])
p('C32','The builtin predicate accepts exactly the Node builtins',
 'The builtin-module predicate is true for exactly the fixed list of Node core module names (such as "fs", "fs/promises", "assert/strict", "path/posix") and false for every other string.',
 ['inputs'],'every string up to the bound','two strings are tested',
 ['src/kind.rs'],['Resolver::is_build_in_module'])
p('C33','Description files are optional and renamable',
 'With the description file option unset, no package metadata influences the result; with a custom name only files of that name are consulted, with the same effect that package.json has by default.',
 ['configurations'],'every combination of description files of several names and option values','one fixture',
 [D,'src/options.rs'],['Resolver::load_pkg_file'])
p('C34','Configuration that does not apply changes nothing',
 'Adding something that does not apply to a request leaves its answer as it is: an alias entry whose key does not begin the request, a condition no map mentions or a map entry for an inactive condition, an extension, main field or main file that nothing has, an exports, imports, browser or tsconfig entry for another name, an unknown description field, files and directories of other names, prefer-relative where no such file is, symlinks where there are no links, an own cache.',
 ['inputs','configurations'],'every short name for the added thing, in every place of its list, for every kind of request','tests use one configuration each and never compare two',
 [L,R,D,'src/map.rs','src/options.rs'],['Resolver::resolve','AliasPlugin','ExportsField','ImportsField','AliasFieldPlugin'])
p('C35','The spelling of the issuing directory does not matter',
 'An issuing directory written with repeated slashes, "." segments or a trailing slash gives the same answer, and is governed by the same description file, as its plain spelling, whether or not the plain spelling was used before.',
 ['inputs','histories'],'every combination of separators in the issuing directory for every kind of request','tests pass plain directories only',
 [L,R,D,'src/cache.rs'],['Resolver::resolve','Resolver::load_pkg_file'])
p('C36','Options left out have their documented defaults',
 'A resolver built from the default options answers as one whose options are spelled out as documented: extensions ".js", ".json", ".node", main file "index", main field "main", description file "package.json", the condition "node", no alias, no browser map, no tsconfig, links followed; and an enforcement that is left out is on exactly if the empty extension is listed.',
 ['configurations'],'every tree of the bounded world','the default values are never compared with their documentation',
 ['src/options.rs',L],['ResolverOptions::default','Resolver::new'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
