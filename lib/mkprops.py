import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
VM="src/handlebars_vm.c";CO="src/handlebars_compiler.c";HE="src/handlebars_helpers.c";VA="src/handlebars_value.c"
LX="src/handlebars.l";GY="src/handlebars.y";WS="src/handlebars_whitespace.c"
p("R01","A rendered template is exactly the text the template language defines",
 "For every template the parser accepts and every context value, parsing, compiling and executing yields exactly the byte string the template language assigns to that template over that context: static text verbatim and in order, each mustache replaced by its value's text, each section rendered zero, one or many times as its value dictates. Nesting sections, inverses, chained else blocks and repeated sections never changes the meaning of the surrounding text.",
 ["inputs","programs"],"every accepted template × every JSON-like context",
 "The spec suites sample a few hundred template/context pairs, mostly one construct each; combinations of nesting depth, order and value kinds are unbounded.",
 [LX,GY,CO,VM,HE],[("AST to opcode translation","src/handlebars_compiler.c: handlebars_compiler_accept_*"),("opcode interpreter","src/handlebars_vm.c: accept_* and handlebars_vm_execute_program_ex"),("save/restore of stacks and buffer around every sub-program","src/handlebars_vm.c: handlebars_vm_execute_program_ex")],
 [("stack, contextStack, hashStack, blockParamStack","operand and scope stacks of the running template","src/handlebars_vm_private.h"),("buffer","output of the running program","src/handlebars_vm_private.h")],["handlebars_vm_execute return value"])
p("R02","Escaped output never contains markup characters taken from data",
 "A double-brace mustache whose value is not marked safe writes the value's text with & < > \" ' and ` replaced by their entities and every other byte unchanged, exactly once; triple-brace, ampersand mustaches and the no-escape option write it verbatim. Static template text and block or partial output is never escaped by rendering.",
 ["inputs"],"every value (string, number, boolean, array, nested array, safe string, helper result) × every output form and nesting",
 "Tests escape a handful of fixed strings; the guarantee is about every byte of every value through every output path.",
 [VA,"src/handlebars_string.c",CO,VM],[("append vs append_escaped selection","src/handlebars_compiler.c: handlebars_compiler_accept_mustache"),("entity table and copying","src/handlebars_string.c: handlebars_string_htmlspecialchars*"),("safe-string flag","src/handlebars_value.c: handlebars_value_expression_append")],None,["handlebars_vm_execute return value","handlebars_value_expression"])
p("R03","Paths resolve to exactly the addressed part of the context, or to nothing",
 "A path (a.b, a/b, this, ./a, ../a at any depth, segment literals, array indices) denotes the value reached by following its segments from the context it addresses; when any segment is missing or its parent is not a container the result is empty, never an enclosing or partially resolved value. In recursive-lookup (compat) mode a name is taken from the nearest enclosing context object that has it.",
 ["inputs","programs"],"every path over every context stack",
 "Tests use short paths over small objects; missing segments at each position, under each enclosing block, in each mode, are not enumerated.",
 [CO,VM,"src/handlebars_ast_helpers.c"],[("path preparation","src/handlebars_ast_helpers.c: handlebars_ast_helper_prepare_path"),("lookup_on_context / lookup_block_param / lookup_data / get_context","src/handlebars_vm.c")],[("contextStack","enclosing contexts","src/handlebars_vm_private.h")],["handlebars_vm_execute return value"])
p("R04","Iteration data and block parameters are scoped to their block",
 "Inside an iteration @index, @key, @first, @last and declared block parameters have the values of the current iteration, an inner block shadows them only for its own body, and after the block (including when the same collection is iterated again inside) they are what they were before; @root is always the top context.",
 ["inputs","programs"],"every nesting of iterating blocks, data references and block parameters",
 "Tests check one or two levels; restoring after inner blocks and shadowing at arbitrary depth is a statement over all programs.",
 [HE,VM,CO],[("data frame per iteration","src/handlebars_helpers.c: handlebars_builtin_each"),("block param stack and (depth,index) addressing","src/handlebars_compiler.c: block param index; src/handlebars_vm.c: lookup_block_param")],[("blockParamStack, data","block parameters and @data in scope","src/handlebars_vm_private.h")],["handlebars_vm_execute return value"])
p("R05","Built-in block helpers branch and iterate by one definition of truthiness",
 "if, unless, with, each, plain sections and inverse sections select their body or inverse by the documented emptiness of the value (false, null, missing, empty string, 0, empty collection), exactly one of the two is rendered, each visits every element once in order, lookup returns the indexed element, and an else/else-if chain renders the first branch that applies.",
 ["inputs","programs"],"every value × every block helper × every else chain",
 "Tests sample values per helper; agreement between helpers and sections over all value kinds and chain shapes is never enumerated.",
 [HE,VM,VA],[("built-in helpers","src/handlebars_helpers.c"),("block_value / ambiguous_block_value","src/handlebars_vm.c"),("emptiness","src/handlebars_value.c: handlebars_value_is_empty")],None,["handlebars_vm_execute return value"])
p("R06","Partials render as the partial template in the context given at the call",
 "A partial call renders the named (or dynamically computed) partial's template with the current or the given context extended by the call's hash arguments, contributes exactly that text at the call site, and leaves the caller's scope unchanged; a partial block is available to the partial as @partial-block and is the fallback when the partial is missing; a missing partial without fallback is an error (nothing in compat mode).",
 ["inputs","programs"],"every set of partials calling each other × every call form",
 "Tests use one or two partials; interactions of nested partials, blocks, hashes, contexts and loops are unbounded.",
 [VM,CO],[("partial invocation","src/handlebars_vm.c: accept_invoke_partial, execute_template"),("partial block stack","src/handlebars_vm.c: invoke_partial_block_closure"),("context + hash merge","src/handlebars_vm.c: merge_hash")],[("partialBlockStack","partial blocks in scope","src/handlebars_vm_private.h")],["handlebars_vm_execute return value"])
p("R07","Standalone tags and ~ strip exactly the whitespace they own",
 "A block, comment, inverse, partial or closing tag alone on its line removes that line's surrounding blanks and its newline and nothing else; ~ removes all adjacent whitespace on its side and nothing else; every other byte of static text is output unchanged.",
 ["inputs","programs"],"every arrangement of tags, blanks and newlines (LF and CRLF), including first and last line and adjacent or nested tags",
 "Tests fix a few dozen layouts; the rule depends on the neighbours on both sides across nesting levels, so the cases multiply.",
 [WS,"src/handlebars_ast_helpers.c"],[("whitespace visitor","src/handlebars_whitespace.c"),("strip flags","src/handlebars_ast_helpers.c: handlebars_ast_helper_set_strip_flags / prepare_block")],None,["handlebars_vm_execute return value","AST printer"])
p("R08","A standalone partial is indented line by line",
 "The output of a standalone partial has the partial tag's leading whitespace added at the start of each of its lines and nowhere else, also through nested partials; a partial that is not alone on its line, or with the prevent-indent option, is not indented.",
 ["inputs","programs"],"every partial text × indentation × nesting of standalone partials × compat on/off",
 "Tests indent a few fixed partials; empty lines, missing final newlines, CRLF and nested indentation are not enumerated.",
 [WS,VM,"src/handlebars_string.c"],[("indent recorded on the partial statement","src/handlebars_whitespace.c: handlebars_whitespace_accept_partial"),("indentation","src/handlebars_string.c: handlebars_string_indent*"),("application","src/handlebars_vm.c: execute_template")],None,["handlebars_vm_execute return value"])
p("L01","Tokens partition the template and preserve its text",
 "The token sequence for any template is the one the lexical grammar defines: concatenating static text tokens and mustache token texts in order reproduces the template except for the documented removal of escape backslashes, and no input makes the scanner lose text, write outside its result or loop.",
 ["inputs"],"every byte string used as a template",
 "Tests tokenise about a hundred fixed strings; scanner states (escaped mustache, raw block, comments) interact for arbitrary byte sequences.",
 [LX,"src/handlebars_parser.c","src/handlebars_token.c"],[("flex rules and start conditions","src/handlebars.l"),("token list construction","src/handlebars_parser.c: handlebars_lex_ex")],None,["handlebars_lex_ex result","handlebarsc --lex"])
p("L02","Exactly the well-formed templates are accepted, others fail with a located error",
 "A template is accepted if and only if it is derivable from the template grammar with matching open and close names; otherwise parsing fails with an error message and a source location inside the template, and yields no tree and no output. The tree printed for an accepted template is the one the grammar assigns.",
 ["inputs"],"every token sequence",
 "Tests contain a few dozen malformed templates; acceptance is a property of all token sequences.",
 [GY,LX,"src/handlebars_ast_helpers.c","src/handlebars_parser.c","src/handlebars_parser_private.c"],[("grammar and semantic checks","src/handlebars.y; src/handlebars_ast_helpers.c: prepare_block, check_block"),("error reporting","src/handlebars_parser_private.c: handlebars_yy_error")],None,["handlebars_parse_ex result","handlebars_error_*"])
p("L03","Delimiter changes rewrite only delimiters",
 "In compat mode a set-delimiter tag makes exactly the following text use the new delimiters until the next change: the template behaves as the same template written with default delimiters, ordinary text that merely resembles the old delimiters stays text, and partials and lambdas see the delimiters they are entitled to.",
 ["inputs","programs"],"every template with any sequence of delimiter changes",
 "The mustache suite has about fifteen delimiter cases; the scanner works character by character over any delimiter lengths and positions.",
 ["src/handlebars_delimiters.c",VM],[("delimiter preprocessor","src/handlebars_delimiters.c"),("delimiters passed to lambda sections","src/handlebars_vm.c: invoke lambda, delim_open/close")],None,["handlebars_preprocess_delimiters result","handlebars_vm_execute return value"])
p("L04","Printed tokens, trees, instruction listings and modules",
 "The textual forms the library prints of a template (its tokens, its syntax tree, the instructions of its program and of the serialized module) show exactly what lexing, parsing, compiling and serializing made of it: every token, node, literal, operand, hash pair, block parameter and child program appears once, in order, with all its bytes, and each reference to a program names that program.",
 ["inputs","configurations"],"every template × every compile option",
 "Tests print some fifty small trees and a few listings; a lost operand, a cut string or a wrong program number in a nested position shows only for the right combination of constructs.",
 ["src/handlebars_ast_printer.c","src/handlebars_opcode_printer.c","src/handlebars_token.c","src/handlebars_opcode_serializer.c"],[("tree printer","src/handlebars_ast_printer.c: handlebars_ast_print"),("listing printers","src/handlebars_opcode_printer.c: handlebars_program_print, handlebars_module_print"),("flattening of nested programs","src/handlebars_opcode_serializer.c: serialize_program")],None,["handlebars_token_print, handlebars_ast_print, handlebars_program_print, handlebars_module_print results"])
p("R09","Compile options change only what they name",
 "Under strict, assume-objects, known-helpers-only, no-escape, explicit-partial-context and mustache-style-lambda options a template either renders as the option's rule says or stops with an error naming the missing thing; with an option off, or when its rule is not triggered, the output is the same as without it.",
 ["inputs","configurations"],"every template × context × subset of the options",
 "Tests set one option at a time on a few templates; the options' product with template shapes is never covered.",
 [CO,VM],[("option tests","src/handlebars_compiler.c; src/handlebars_vm.c: lookup_on_context, lookup_data")],None,["handlebars_vm_execute return value","error message"])
p("R10","Helpers receive exactly the written arguments and their result is used once",
 "A helper call (inline, block or subexpression, by name, from the context, or through a lambda) invokes the helper exactly once per evaluation with the evaluated positional arguments in order, the evaluated hash, the current context and the block bodies written in the template, and its result takes the place of the call; a helper that does not exist is an error (or the field's value when called without arguments).",
 ["inputs","programs"],"every call form × arguments × nesting of subexpressions",
 "Tests register fixed helpers for single calls; argument order across nested subexpressions, hashes and blocks is a statement over all programs.",
 [VM,CO,VA],[("operand setup","src/handlebars_vm.c: setup_options, invoke_helper, invoke_known_helper, invoke_ambiguous"),("operand compilation","src/handlebars_compiler.c: compiler params/hash")],[("stack, hashStack","evaluated arguments","src/handlebars_vm_private.h")],["arguments seen by registered helpers","handlebars_vm_execute return value"])
p("R11","Compilation is faithful and every program leaves the machine balanced",
 "The instruction listing of a compiled template is the one its syntax tree determines, every sub-program reference is in range, and executing any program consumes and restores each machine stack exactly, so that executing the listing has the same result as evaluating the tree.",
 ["programs"],"every accepted template × compiler option set",
 "The compiler suites compare listings of fixed templates; balance and faithfulness quantify over all trees.",
 [CO,"src/handlebars_opcodes.c","src/handlebars_opcode_printer.c"],[("opcode emission","src/handlebars_compiler.c"),("printing","src/handlebars_opcode_printer.c")],None,["handlebarsc --compile / program printer","VM result"])
p("M01","A serialized program is equivalent to the original, wherever it is loaded",
 "Serializing a compiled program gives one contiguous block that renders exactly as the program does, stays valid after being copied to another address and relocated (any number of times), and carries a hash that is equal for equal programs and rejects altered content.",
 ["programs","histories"],"every compiled program × every sequence of copy, relocate, hash, execute",
 "Tests serialize a few programs; pointer fix-ups depend on every opcode and operand form and on the placement.",
 ["src/handlebars_opcode_serializer.c"],[("size computation and serialization","src/handlebars_opcode_serializer.c: handlebars_program_serialize"),("pointer patching","src/handlebars_opcode_serializer.c: handlebars_module_normalize_pointers / patch_pointers"),("hash","src/handlebars_opcode_serializer.c: handlebars_module_generate_hash / verify")],[("addr, size, hash","base address, extent, content hash of a module","src/handlebars_opcode_serializer.h")],["bytes of the module","handlebars_vm_execute result on the copy"])
p("E01","A failed operation reports an error and leaves everything reusable",
 "When parsing, compiling or rendering fails (at any point of a template, in a helper, in a partial, under any nesting of blocks) the caller gets the error's code, message and location and no output, and afterwards the same context and virtual machine render any other template exactly as a fresh one would.",
 ["histories","fault_sequences"],"every sequence of failing and succeeding parse, compile and render calls on one context",
 "Tests trigger single errors on fresh contexts; reuse after a failure at depth is a property of histories.",
 ["src/handlebars.c",VM,"src/handlebars_parser.c",CO,"src/handlebars_partial_loader.c"],[("non-local exit and handler chain","src/handlebars.c: handlebars_throw*; handlebars_setjmp_*"),("VM state restore","src/handlebars_vm.c: handlebars_vm_execute_ex, execute_template")],[("e->num, e->msg, e->loc, e->jmp","error state of the context","src/handlebars_private.h")],["handlebars_error_num/msg/loc","later renders"])
p("E02","Nesting and size never corrupt memory; limits are reported as errors",
 "Whatever the nesting depth of blocks, subexpressions, partials, parent paths or block parameters and whatever the size of the template or data, an operation either succeeds with the right result or reports an error; built-in limits are enforced before anything is written past them.",
 ["inputs"],"every nesting depth and size around and beyond each built-in limit",
 "Tests do not approach the fixed-size stacks; limits matter exactly at and after the boundary.",
 [CO,VM,"src/handlebars_stack.c","src/handlebars_ast_printer.c","src/handlebars_opcode_printer.c",LX],[("bounded stacks","src/handlebars_compiler.c: source node / block param stacks; src/handlebars_stack.c: handlebars_stack_push")],[("bps, sns","compiler's fixed-size stacks","src/handlebars_compiler.c")],["result or error","memory sanitizer"])
p("E03","Running out of memory at any allocation is an error, not corruption",
 "If any single allocation of the library during context creation, parsing, compiling, serializing, printing, rendering or an operation on a map, stack, value or string fails, the operation reports an out-of-memory error without a partial result (unless it can do without that allocation, and then its result is the right one), what was there before is unchanged, and the next attempt with memory available succeeds on the same context, machine and cache.",
 ["fault_sequences"],"every allocation of every pipeline phase and data-structure operation failing, in repeated attempts",
 "Tests fail the next allocation of a few constructors; the pipeline has hundreds of allocation points.",
 ["src/handlebars_memory.c","src/handlebars.c","src/handlebars_parser.c",CO,VM],[("checked allocation","src/handlebars_memory.h: MC / HANDLEBARS_MEMCHECK"),("fault injection interface","src/handlebars_memory.c: handlebars_memory_fail_*")],None,["handlebars_error_num"])
p("R12","Rendering is deterministic and does not change its inputs",
 "Executing a compiled template any number of times, on one or several virtual machines, gives the same output for the same context, and leaves the context value, the helper and partial tables, the data and the compiled program unchanged.",
 ["histories","inputs"],"every template × context × number and interleaving of executions",
 "Tests render once per case; mutation of shared structures shows only in later operations.",
 [VM,HE,VA,"src/handlebars_map.c"],[("separate-before-write on shared values","src/handlebars_map.c, src/handlebars_stack.c, src/handlebars_string.c separation"),("hash merge into a new map","src/handlebars_vm.c: merge_hash")],None,["value dump before/after","bytes of the module","repeated output"])
p("D01","The map is an insertion-ordered dictionary",
 "After any sequence of add, update, remove, rehash, sort and copy operations a map contains exactly the last value of each key not removed, lookup finds a key if and only if it is present (whatever the hash values), size, iteration order and positional access agree with each other, and removed keys never reappear.",
 ["histories"],"every operation sequence over any keys, including colliding hashes and table growth",
 "Tests run two or three fixed sequences; tombstones, probing, growth and compaction interact over histories.",
 ["src/handlebars_map.c"],[("open-addressed table with tombstones","src/handlebars_map.c"),("growth and compaction","src/handlebars_map.c: rehash, compact")],[("table, vec, i, tombstones","hash slots, ordered entries, counts","src/handlebars_map.c: struct handlebars_map")],["handlebars_map_* API results"])
p("D02","Shared maps, arrays, strings and values behave as independent copies",
 "After a value, map, array or string has been shared, changing it through one holder is never visible through another, every holder's content stays valid until that holder lets go, and when the last holder lets go nothing refers to it.",
 ["histories"],"every sequence of share, mutate, iterate and release operations over a few holders",
 "Tests check a few copies; the separate-before-write decision depends on the reference count at each step of a history.",
 ["src/handlebars_map.c","src/handlebars_stack.c","src/handlebars_string.c",VA,"src/handlebars_rc.c","src/handlebars_closure.c","src/handlebars_ptr.c"],[("reference counts","src/handlebars_rc.c"),("separation","handlebars_*_separate")],[("refcount","number of holders, saturating at immortal","src/handlebars_rc.h")],["content seen by each holder","reference counts","memory sanitizer"])
p("D03","The stack is a bounded LIFO sequence with exact save and restore",
 "A stack returns its elements in LIFO order and by index, setting or pushing never disturbs other elements or other copies, restoring a saved position drops exactly what was pushed since, and pushing beyond a fixed capacity is reported as an error.",
 ["histories"],"every sequence of push, pop, set, copy, save, restore over growable and fixed stacks",
 "Tests cover single operations; save/restore protection interacts with pops and copies over histories.",
 ["src/handlebars_stack.c"],[("save/restore and protection","src/handlebars_stack.c")],[("i, capacity, protect","depth, capacity, protected prefix","src/handlebars_stack.c")],["handlebars_stack_* results"])
p("D04","String operations compute the byte string their name says",
 "Construction, append, compare, equality, hash, copy, implode, reduce, replace, trim, quoting and escape processing, html escaping and indentation give the mathematically defined result for every byte string (including empty, NUL and 8-bit bytes), equality and hash agree with content after any sequence of operations, and results are always NUL terminated at their length.",
 ["inputs","histories"],"every operation sequence over every byte string",
 "Tests apply each function to one or two fixed strings; cached hashes and in-place growth make results depend on the history.",
 ["src/handlebars_string.c","src/handlebars_scanners.re"],[("length + cached hash representation","src/handlebars_string.c")],[("len, hash, val","length, cached hash, bytes","src/handlebars_string.c: struct handlebars_string")],["handlebars_string / handlebars_str_* results"])
p("D05","Values convert, compare, count and iterate consistently with their kind",
 "For every value, its reported kind, text, number and boolean conversions, emptiness, size, member lookup, iteration sequence, equality and printed form are those defined for that kind; assigning a new content fully replaces the old one, including its safe mark; iterating visits each element exactly once in order, also when iterations of the same value are nested.",
 ["inputs","histories"],"every value of every kind and every sequence of assignments and iterations",
 "Tests check conversions of a few constants; iteration state and flags depend on what was done before.",
 [VA,"src/handlebars_value_handlers.c"],[("tagged value","src/handlebars_value.c"),("iterators","src/handlebars_value.c: handlebars_value_iterator_*")],[("type, flags, v","kind, marks and payload","src/handlebars_value_private.h")],["handlebars_value_* results"])
p("C01","Caching never changes what is rendered",
 "Rendering with any of the caches attached, in any state of fill, reuse, eviction or expiry, gives exactly the output rendering without a cache gives, for every history of templates, partials, contexts and options, including distinct templates whose cache keys coincide.",
 ["histories","inputs"],"every history of renders sharing one cache × every cache kind",
 "Tests render one partial twice; wrong hits need particular histories (same partial with another indent, delimiter, option set or a colliding key).",
 [VM,"src/handlebars_cache_simple.c","src/handlebars_cache_mmap.c","src/handlebars_cache_lmdb.c"],[("lookup by template text","handlebars_cache_*: cache_find"),("use by the VM","src/handlebars_vm.c: execute_template")],None,["handlebars_vm_execute return value"])
p("C02","The in-memory cache keeps its accounting and its bounds",
 "After any sequence of add, find, release, garbage collection, reset and clock advance, the in-memory cache finds exactly the entries added and not since evicted, its statistics equal the entries' number and size and the hits and misses that happened, and garbage collection removes exactly what the configured age, count and size limits demand, never an entry still in use.",
 ["histories"],"every operation history over a few templates, limits and times",
 "Tests exercise one gc scenario each; accounting errors accumulate over histories.",
 ["src/handlebars_cache_simple.c","src/handlebars_cache.c"],[("cache map and eviction","src/handlebars_cache_simple.c: cache_gc/cache_add/cache_find")],[("current_entries, current_size, hits, misses","statistics","src/handlebars_cache.h: struct handlebars_cache_stat")],["handlebars_cache_stat","handlebars_cache_find"])
p("C03","The shared-memory cache is safe under concurrent use",
 "Under every interleaving of find, add, release and reset by any number of processes or threads, a finder gets either nothing or the complete, correct program for its template, a program in use is never overwritten or cleared, nobody blocks forever, and the in-use count returns to zero.",
 ["schedules"],"every interleaving of the cache's atomic steps by a few users",
 "The existing test runs threads freely and cannot reach specific interleavings.",
 ["src/handlebars_cache_mmap.c"],[("reset flag, reference count and lock","src/handlebars_cache_mmap.c: lock/unlock, cache_find, cache_add, cache_reset, cache_release")],[("in_reset, refcount, lock","shared control words","src/handlebars_cache_mmap.c: struct handlebars_cache_mmap")],["cache API results per schedule"],"scheduling points before each shared-memory access (HBS_VERIF)")
p("C04","The shared-memory cache respects its capacity and entry life time",
 "For every sequence of adds of any sizes the shared-memory cache stores an entry completely or not at all, never outside its data area or over another entry, resets when full and not in use, never returns an entry older than the configured age or from another template, and its counters match what happened.",
 ["histories","inputs"],"every history of add, find, release, reset and clock advance × sizes and table sizes",
 "Tests fill the cache once; boundaries of table and data area and expiry need particular histories.",
 ["src/handlebars_cache_mmap.c"],[("bump allocation and open addressing","src/handlebars_cache_mmap.c: cache_add, table_set/table_find")],[("table_count, data_length","used slots and bytes","src/handlebars_cache_mmap.c: struct handlebars_cache_mmap")],["handlebars_cache_stat","handlebars_cache_find"])
p("C05","The persistent cache returns only what was stored, across reopening",
 "The on-disk cache finds exactly the entries stored by any process before and not expired, collected or reset, also after closing and reopening; expired or damaged records are never executed; distinct templates never share a record; garbage collection removes exactly the expired entries and reset removes all.",
 ["histories","crash_points","inputs"],"every history of add, find, gc, reset, reopen and record corruption × template lengths",
 "Tests add and find one entry; persistence, collection and long keys need histories over reopened stores.",
 ["src/handlebars_cache_lmdb.c","src/handlebars_opcode_serializer.c"],[("transactions and keying","src/handlebars_cache_lmdb.c"),("version and hash verification","src/handlebars_cache_lmdb.c: cache_find; src/handlebars_opcode_serializer.c: handlebars_module_verify")],None,["handlebars_cache_find","handlebars_cache_stat"])
p("J01","JSON, YAML and native values are interchangeable",
 "The same document loaded as JSON wrapped lazily, as JSON converted to native values, or as YAML presents the same members, order, elements, kinds and text, and therefore renders identically in every template; malformed input is reported as an error.",
 ["inputs"],"every document × every access path",
 "Tests load one small document per kind; wrapper and native access paths differ in code for every value kind and position.",
 ["src/handlebars_json.c","src/handlebars_yaml.c",VA],[("lazy JSON handlers","src/handlebars_json.c"),("YAML conversion","src/handlebars_yaml.c")],None,["value API results","handlebars_vm_execute return value"])
p("J02","Partials loaded from a directory are the files' contents",
 "With a partial directory and extension, a partial name denotes exactly the content the file of that name had at first use, stays the same on later uses, and behaves in every template like a partial given in memory. A name without a file is a partial that does not exist (an error, or the partial block's own content); a file that is empty or cannot be read is an error. Neither affects later renders.",
 ["histories","inputs"],"every set of partial files × names × sequence of renders",
 "Tests load one existing and one missing file; path composition, caching and recovery need histories.",
 ["src/handlebars_partial_loader.c"],[("path construction, reading and caching","src/handlebars_partial_loader.c")],None,["handlebars_value_map_find on the loader","handlebars_vm_execute return value"])
p("J03","The command-line tool is a faithful front end",
 "handlebarsc, for every mode and option combination, prints exactly what the library computes for the given template, data and partial files, exits zero exactly when it succeeded, and on failure reports the library's error without printing a result; input-conversion, newline, partial-path, run-count and pool options do not change the result they do not name.",
 ["configurations","inputs"],"every mode × option subset × template and data file",
 "Tests run a few command lines; the options are read by hand-written code in combination.",
 ["bin/handlebarsc.c"],[("option parsing and mode dispatch","bin/handlebarsc.c")],None,["stdout, stderr and exit status of handlebarsc"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
