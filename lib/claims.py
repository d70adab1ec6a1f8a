TR = "TLA+ specification checked with TLC; "
SEM = TR + "executable semantics evaluated and enumerated by TLC, replayed in the library (ASan build)"
SEMT = " Trusts spec/HbsSem.tla as the meaning of templates; the bounds are the enumerated lengths and the random sample."
CLAIMS = {
 "L01": (TR + "lexer specification enumerated by TLC and replayed in the library", "model_checking",
   "Every template over four fragment alphabets up to a length, and seeded random templates and byte strings: the library's tokens (ASan build) are those of spec/HbsLexer.tla, on which TLC checks the text-preservation law. Trusts the transcription of the flex rules in the specification for inputs not enumerated."),
 "L02": (TR + "grammar specification enumerated by TLC and replayed in the library", "model_checking",
   "Every tag sequence over four alphabets up to a length, and seeded random and mutated templates: accepted/rejected, error number, message, location and tree are those of spec/HbsParser.tla."),
 "R07": (TR + "whitespace-control specification enumerated by TLC and replayed in the library", "model_checking",
   "Every balanced template over five alphabets of tags, blanks and newlines up to a length, and seeded random templates: each static text and partial indent is that of spec/HbsWhitespace.tla, on which TLC checks independent stripping laws."),
 "L03": (TR + "delimiter-rewriting specification enumerated by TLC and replayed in the library", "model_checking",
   "Every sequence of tags, texts and delimiter changes over three alphabets up to a length: TLC checks that the rewritten template means the same as the one written with default delimiters, and rewriting and output of the library are those of spec/HbsDelims.tla and HbsSem.tla; plus seeded random byte sequences. Texts directly joined to a delimiter are outside the law (the two findings)."),
 "R01": (SEM, "model_checking", "All block-balanced templates over three alphabets up to 4 (6) fragments in six environments, with TLC checking that concatenation composes, and seeded random templates/contexts/partials: the library's output or error number is the specification's." + SEMT),
 "R02": (SEM, "model_checking", "Every kind of tag applied to every kind of value, every byte, all short strings of special bytes and long strings around buffer sizes, plus random cases, escaped and unescaped as spec/HbsValues.tla says." + SEMT),
 "R03": (SEM, "model_checking", "All sequences of up to 3 (4) path pieces in seven settings and four contexts, with and without compat, all nestings of context changes up to 5 (6) tags, plus random cases." + SEMT),
 "R04": (SEM, "model_checking", "All block-balanced templates over three alphabets of iterations, block parameters, frames and partials up to 4 (6) fragments in six environments, blocks that partials render from scopes of their own, plus random cases." + SEMT),
 "R05": (SEM, "model_checking", "Every builtin helper form against every kind of value in every block shape, all chains of if/unless/with/each/else up to 4 (6) fragments in sixteen environments, lookup of all keys in all values, plus random cases." + SEMT),
 "R06": (SEM, "model_checking", "All block-balanced templates of partial calls and partial blocks over two alphabets in four sets of partials, blocks that partials render from scopes of their own, every form of name, argument and hash, plus random cases." + SEMT),
 "R08": (SEM, "model_checking", "All templates over two alphabets of blanks, newlines and partial calls in four sets of partials and three option sets, plus random nested partials." + SEMT),
 "R09": (SEM, "model_checking", "Every expression form in every tag under no option, every single option and every pair of seven options; sections handled by functions; TLC checks that a successful strict or assume-objects rendering equals the ordinary one; plus random option sets." + SEMT),
 "R10": (SEM, "model_checking", "Every helper (registered, builtin, from the context, missing, overridden) with every argument list in every tag form, nested blocks with inverses and block parameters, plus random cases; helpers print the arguments, hash, name, scope and bodies they get, and every call of a function is recorded, on both sides, in order, with its arguments, hash and bodies (in every other rendering check too); log with and without a logger." + SEMT),
 "R11": (TR + "compiler specification and stack machine: TLC checks that executing the compiled program means what the tree means; programs compared with the library's", "model_checking",
   "Every expression form in every tag under every option, and seeded random templates and option sets: the compiled programs are those of spec/HbsCompiler.tla (operations, operands, children, flags). TLC executes those programs on the stack machine of spec/HbsSem.tla for every balanced template over five alphabets and for seeded templates and data: output and error are those of the tree, nothing missing is taken from a stack and nothing is left; the library's output is compared too."),
 "R12": (SEM, "model_checking", "Programs executed repeatedly on two interleaved machines: every execution gives the specification's result, and context, helpers, partials, data and the program's bytes are afterwards what they were." + SEMT),
 "M01": (TR + "state machine of a serialized block, all histories replayed in the library", "model_checking",
   "All histories of copying, normalizing, patching, hashing and verifying a block over 2-3 (4) memory slots up to 5 (6) operations from spec/HbsModule.tla, replayed on modules of many templates (guarded memory, ASan): pointers, verification, single-byte corruption, repeated serialization and output are as specified."),
 "D01": (TR + "state machine of dictionaries, all histories replayed in the library; refinement of the hash table checked", "model_checking",
   "All histories of add, update, remove, sort, compact, rehash, copy and share over two handles and colliding keys up to 4 (5) operations from spec/HbsMap.tla and thousands of long seeded histories, each answer compared (ASan build); spec/HbsTable.tla: TLC checks that the open-addressing table refines the ordered sequence for every assignment of hash values. The table model is the algorithm as read from the code; the binding is by the replayed histories."),
 "D02": (TR + "store of shared containers with value semantics, all histories replayed in the library", "model_checking",
   "All histories over 10-11 operations on variables that share arrays, maps and strings up to 4 (5) operations from spec/HbsHeap.tla, and thousands of long seeded histories; every variable's whole content is compared at the end, in an ASan build. Raw iteration that changes the iterated variable itself is not covered."),
 "D03": (TR + "state machine of stacks, all histories replayed in the library", "model_checking",
   "All histories of push, pop, set, protect, save, restore, truncate, copy and share over one and two handles, growable and fixed memory, up to 4 (5) operations from spec/HbsStack.tla, and thousands of long seeded histories (ASan build)."),
 "D04": (TR + "byte-string functions specified, enumerated and replayed in the library", "model_checking",
   "Every string over small alphabets up to length 4 (5) through every function, all histories of rewriting operations on shared strings up to 4 (5), and thousands of long seeded histories of 30 operations, as spec/HbsStrings.tla defines them (ASan build); content, hash, equality and terminator compared."),
 "D05": (TR + "all questions to a value specified; values and assignment histories enumerated by TLC, replayed in the library", "model_checking",
   "Every fact of a value (kind, conversions, counts, members, iteration, escaped text, printed form) as spec/HbsValfn.tla says for thousands of values of every kind, nesting and size; equality of all pairs of ~50 scalars; all histories of assigning, copying, marking and taking elements up to 4 (5) operations and seeded long ones with the facts of every variable (ASan build). Integers are within 64 bits; NaN, infinities and -0 are left out."),
 "J01": (TR + "JSON grammar enumerated by TLC, documents replayed through every way of loading", "model_checking",
   "Every JSON text of up to 5 (and over fewer tokens 7/9) tokens, complete, cut short or wrong, and seeded documents as native values, JSON (NUL-terminated and counted, lazily, converted once and deeply, inside native containers) and YAML (block and flow, every style of scalar): all answers of spec/HbsValfn.tla; and seeded templates rendered over the same data as JSON and YAML. Relies on json-c and libyaml being the parsers; YAML tags, anchors and merge keys are left out."),
 "E01": (SEM, "model_checking", "Histories of failing and succeeding parse, compile and render calls on one context and two machines, with and without a handler of the caller: every way to fail before every other render, a failure put behind every tag of nested templates, failures deep in blocks repeated beyond the number of levels, machines that take all or some options from the programs they execute, seeded histories of damaged templates. Each step gives the result of spec/HbsSem.tla, for errors the message and location a fresh context gives, and leaves the handler chain as it was." + SEMT),
 "C01": (TR + "rendering does not depend on the cache in spec/HbsSem.tla; histories with every cache replayed in the library", "model_checking",
   "Every pair of 15 renders that meet in the cache (other options, delimiters, indents, errors, recursion, garbage collection, reset and clock from inside the partial) with eleven cache configurations, partial texts with equal hashes, and seeded histories of renders, ticks, collections, resets and reopening on several machines: each render gives the specification's result without a cache, and no program stays held (ASan build)." + SEMT),
 "C02": (TR + "transition relation of the caches; the state graph enumerated by TLC and replayed in the library", "model_checking",
   "Every history of find, add, release, gc, reset, clock and limit changes over a few templates up to 5 (7) operations from spec/HbsCache.tla (all states of its graph reached, laws checked by TLC) and long seeded histories: each answer, the counts, sizes, hits, misses and programs held are ones the relation allows (ASan build, driver's clock)."),
 "C04": (TR + "transition relation of the caches; the state graph enumerated by TLC and replayed in the library", "model_checking",
   "Every history of find, add, release, reset, gc and clock up to 5 (7) operations with one slot, with several, and with a filling data area from spec/HbsCache.tla, programs of every size around the space left, and long seeded histories over tables of 1-513 slots: each answer and all counters are ones the relation allows; constructor sizes around page boundaries (ASan build; a guard page lies behind the shared memory)."),
 "C05": (TR + "transition relation of the caches; the state graph enumerated by TLC and replayed in the library", "model_checking",
   "Every history of find, add, release, gc, reset, reopening, clock and another process' writes up to 4-5 (6) operations from spec/HbsCache.tla, on real databases, keys around the length limit and with equal hashes, damaged and truncated records, a process ended at every database call: each answer and counter is one the relation allows (ASan build)."),
 "C03": (TR + "the protocol of the shared memory access by access, all interleavings checked by TLC; schedules of the real code explored and their histories validated against the specification", "model_checking",
   "TLC checks every interleaving of 2 users × 2-4 operations and 3 × 1 of spec/HbsShm.tla (nothing held is overwritten, nothing torn is read, the in-use count is exact, rest is clean, everybody finishes) and that eight wrong protocols are seen. The real code, compiled so that every access to the shared memory is a scheduling point, is run under every schedule with up to 2-3 preemptions of hundreds (thousands) of programs of 2-3 users; each distinct history (answers, statistics at rest, contents of held programs, crashes, blocking) is one that TLC finds in the specification. Sequential consistency is assumed."),
 "J02": (SEM, "model_checking", "Histories over a directory: files are written, replaced, removed, turned into directories; names are looked up and templates rendered with the loader as the table of partials, against spec/HbsLoader.tla (a name is the file path beneath the directory, the first contents read stay, a miss leaves nothing behind) over spec/HbsSem.tla, which reports the partials a rendering asks for. TLC enumerates the histories over small directories and evaluates names of every shape, files of every size and seeded histories; the library reads real files in a directory of its own."),
 "E02": (TR + "stack machine executing the compiled instructions, with its limits; families of templates at, around and beyond every limit evaluated by TLC and replayed in the library", "model_checking",
   "129 families (nested blocks, subexpressions, operands, hashes, partials, partial blocks, contexts, paths, parents, names, deep data, endless recursion) at every size around each limit: spec/HbsSem.tla's machine - 96 values per stack, 64 open nodes, 384 running programs - gives the result or error 7, and the library does the same (ASan build), also under other options; long templates composed of parts whose results TLC shows to concatenate, with tags across every buffer boundary. Above some kB sizes are sampled by composition only."),
 "E03": (SEM, "model_checking", "spec/HbsFault.tla: attempts on one context, each with at most one refused allocation, over what they share; TLC checks for all programs of 4 steps and 4 attempts that an attempt ends right or out of memory, the latter only with a refusal, and that four wrong designs break this. The driver replaces the library's allocation functions and, for templates with every construct in every phase and seeded ones, refuses every allocation in turn, then two more in further attempts on the same context, machine and cache, then none: every history of attempts has to be one of the specification's, its results those of spec/HbsSem.tla. Histories on maps, stacks, values and strings with every allocation refused: the refused operation has not happened (spec/HbsMap, HbsStack, HbsHeap, HbsStrings)."),
 "J03": (TR + "the tool as a function of its arguments and files; command lines enumerated by TLC and run with the real tool", "model_checking",
   "Every command line of up to 3 (4) options and positions over two sets, and thousands of seeded command lines with template, data and partial files of any content, name and kind, standard input, unwritable output: exit status, standard output and the reason are those of spec/HbsCli.tla, whose results come from the lexer, parser, compiler, printer and rendering specifications (ASan build of bin/handlebarsc.c)."),
 "L04": (TR + "printed forms specified as functions of tokens, tree and program, evaluated by TLC and compared with the library's", "model_checking",
   "Token list, tree, instruction listing and flattened module of every tag sequence over four alphabets up to a length and of seeded templates, literals, bytes and options: the text is that of spec/HbsPrint.tla, on which TLC checks that the flat program table names every program once and its children by their places."),
}
NA = {}
HOOKS = {}
def tb(x): return '"op":"meaning","t":"%s"' % x
KNOWN = [
 {"id": "L03-brace", "property": "L03", "match": [tb("{{=<% %>=}}{<%a%>")], "what": "{{=<% %>=}}{<%a%>: a text ending in { directly before a tag with other delimiters is rewritten to {{{ and rejected (Handlebars has no way to write it)"},
 {"id": "L03-backslash", "property": "L03", "match": [tb("{{=<\\\\ \\\\>=}}<\\\\a\\\\>")], "what": "{{=<\\ \\>=}}: a delimiter ending in a backslash is rejected (it escapes the quote of the operand the change is rewritten to)"},
]
FIXED = [  # (part of the subject, property)
 ("standalone ^ closer", "R07"), ("starts with else", "L01"), ("between as and the block", "L01"), ("long comment ends", "L01"), ("unterminated comment", "L02"),
 ("NUL byte in template", "L02"), ("next to an empty program", "E02"), ("honour ignore_standalone", "R07"), ("whitespace control for partial blocks", "R07"),
 ("close tag of an else-if chain", "R07"), ("whole name of a raw block", "L02"), ("the empty template", "L02"), ("missing statement list", "E02"),
 ("delimiters of {{!--}}", "E02"), ("missing path segment of a block", "R03"), ("@root is the outermost", "R04"), ("@../ access", "R04"), ("nested iteration of one map", "R04"),
 ("strings are equal only", "D04"), ("past an embedded NUL", "D04"), ("trimming a string", "D04"), ("stripping escapes and reducing", "D02"),
 ("indenting an empty string", "R08"), ("compacting a map", "D01"), ("adding to a full map", "D01"), ("errors inside a partial", "E01"),
 ("hash of a partial was dropped", "R06"), ("every program has a level of block params", "R06"), ("a failed render left", "E01"),
 ("inverse of #with", "R05"), ("includeZero=false", "R05"), ("#unless has the condition", "R05"), ("lookup of an index outside", "R05"),
 ("safe string flag outlived", "D05"), ("assigning a value to itself", "D02"), ("null in JSON", "J01"), ("empty YAML scalar", "J01"), ("partial loader without the file", "J02"),
 ("protected stack segment", "D03"), ("compiler's stacks wrote", "E02"), ("alternate decorators", "E02"), ("string_params and track_ids", "E02"),
 ("trailing backslash", "L03"), ("printing a tree glued", "L02"), ("printing a partial lost", "L02"), ("printing a string literal lost", "L02"), ("printing a path lost", "L02"),
 ("knownHelpersOnly dereferenced", "R09"), ("text of a lambda section", "R09"), ("an empty closing delimiter", "L03"), ("braces in the text of a template", "L03"), ("strict mode refused helpers", "R09"),
 ("simple blocks and partials left", "R11"), ("decimal numbers lost", "D05"), ("byte 255 after a NUL", "L01"), ("dynamic partials without context", "R06"),
 ("fifth hash argument", "R10"), ("string search took bytes", "D04"), ("truncating a string", "D04"), ("appending a string to itself", "D04"), ("a stack that was resized", "D03"),
 ("failed set on a shared stack", "D03"), ("pushing an element of a stack", "D03"), ("adding a key twice", "D02"), ("continues after \"0\"", "D05"), ("storing an element of a map", "D02"),
 ("stored in itself contained", "D02"), ("that had been compacted", "D04"), ("printing an empty path segment", "R09"),
 ("quoted YAML scalars", "J01"), ("YAML words like nan", "J01"), ("converting a native container", "J01"), ("index did not advance when a JSON", "J01"), ("rejected without a terminator", "J01"), ("JSON object reached twice", "J01"),
 ("referred to keys that were gone", "C02"), ("freed programs that were being executed", "C02"), ("cache returned expired programs", "C04"), ("counted entries that did not fit", "C04"), ("reset while a program was being looked up", "C03"),
 ("on-disk cache did not collect", "C05"), ("declared never to return null", "E01"),
 ("partial name with a NUL byte", "J02"), ("refused allocation of a closure", "E03"), ("refused allocation of a module", "E03"), ("could not be shrunk was lost", "E03"), ("dump went on after a refused", "E03"),
 ("read empty YAML data as JSON", "J03"), ("read a.yml as JSON", "J03"), ("wrote past its buffer for a pipe", "J03"), ("cut templates at a NUL", "J03"), ("after an unrecognized option", "J03"), ("output could not be written", "J03"),
 ("literals of their body bare", "L04"), ("printed opcodes cut", "L04"), ("printed modules named the wrong", "L04"),
 ("called as a plain field was given", "R10"), ("number literals too large", "R10"),
]
