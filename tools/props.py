"""The single source of properties.jsonl and MANIFEST.json: python3 tools/gen_meta.py rewrites both."""
LN = ("Exhaustive within the stated bounds on the real code (gencpp's sources from /repo compiled natively over an in-memory "
      "stand-in for its Win32 calls, AddressSanitizer on); trusts clang's native build to behave like the MinGW one, the stand-in, and the reference model in the check. ")
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, note, observe=None, technique=None, level="model_checking", state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, observe=observe or [], technique=technique, level=level, state=state))

P("C01", "The dynamic array behaves as a sequence under every operation history",
  "After any sequence of appends, insertions at an index, removals, fills, resizes, capacity changes and clears, a dynamic array holds exactly the elements a plain sequence would, in order, reports their count, and never holds more than its capacity. Growth preserves the contents, freeing it returns all of its memory, and when memory runs out the operation reports failure and leaves the contents as they were.",
  ["histories", "fault_sequences"], "every operation sequence up to the depth bound over three element sizes, from several start states; every history of plain appends across each capacity growth followed by every pair of operations; an allocation failure at each allocation of each operation",
  "The tests only use arrays indirectly to generate code; insertion, removal, fill, shrinking and out-of-memory never run, and the errors need particular sizes relative to the capacity.",
  ["base/dependencies/containers.hpp"], [("array_append / array_append_at / array_grow / array_set_capacity", "base/dependencies/containers.hpp")],
  "Depth 5 (quick) / 6 (thorough) over a 26 operation alphabet.", technique="explicit-state exploration of operation sequences on the real container, checked step by step against a sequence model")
P("C02", "The hash table behaves as a map under every operation history",
  "After any sequence of insertions, replacements, lookups, removals, rehashes and clears, including keys that collide, a hash table returns for each key the value last stored for it and nothing for keys that are absent. Every stored entry stays reachable across growth, and iteration visits each stored value.",
  ["histories", "fault_sequences"], "every operation sequence up to the depth bound over colliding keys, and every pair of operations after every insertion history up to the length bound",
  "The tests reach the table only through the string and macro caches with the keys they happen to have; collisions at chain boundaries, removal and rehash during chains are never exercised.",
  ["base/dependencies/containers.hpp"], [("hashtable_set / hashtable_get / hashtable_rehash / hashtable_remove", "base/dependencies/containers.hpp")],
  "All sequences to the depth bound over 0-8 colliding keys; long histories to 40+ keys.", technique="explicit-state exploration of operation sequences on the real container against a map model")
P("C03", "Allocators hand out disjoint, aligned memory within their bounds",
  "Every block an allocator returns is aligned as asked, lies within the memory the allocator owns, and never overlaps another live block; a request that does not fit is refused. Resizing preserves the contents up to the smaller size, temporary scopes and clears make the memory available again, and the memory copy, move, set, compare and search primitives agree with their definitions.",
  ["histories"], "every operation sequence up to the depth bound on arenas over three kinds of backing, pools and the default allocator; every offset and length up to the bound for the memory primitives",
  "Tests allocate only in the patterns generation happens to produce; overlap and overrun at the last bytes of a region need particular sizes and alignments.",
  ["base/dependencies/memory.hpp", "base/dependencies/memory.cpp", "base/components/interface.cpp"], [("arena/pool/heap allocator procedures", "base/dependencies/memory.cpp"), ("fallback allocator", "base/components/interface.cpp")],
  "Live blocks are filled with patterns and re-verified after every step.", technique="explicit-state exploration of allocate/free/resize sequences on the real allocators with an ownership model")
P("C04", "Growable strings and string views hold exactly the text put into them",
  "After any sequence of appends of characters, strings, views, other builders or formatted text, trims, space stripping, clears, reservations and duplications, a string builder holds exactly the text a plain string would, with its length, terminator and capacity consistent, and no text is dropped however long it is. Comparison, prefix, containment, joining, duplication and whitespace visualisation of strings give the same answer as their definitions for every pair of strings, reading only within the given lengths.",
  ["histories", "inputs", "fault_sequences"], "every operation sequence up to the depth bound from 13 starting points; a failing allocation at each operation; every pair of strings up to the length bound over a 3-letter alphabet; formatted text around every print buffer boundary",
  "Tests append whatever generation produces; capacity boundaries, trims at the ends and texts near the buffer limits are not sampled.",
  ["base/dependencies/strings.hpp", "base/dependencies/strings.cpp"], [("strbuilder_make_space_for / strbuilder_append_c_str_len", "base/dependencies/strings.cpp"), ("strbuilder_append_fmt_va", "base/dependencies/strings.cpp")],
  "Depth 5 (quick) / 6 (thorough) over 20 operations.", technique="explicit-state exploration of operation sequences on the real string type against a string model")
P("C05", "Formatted printing produces the specified text and never overruns its buffer",
  "For every supported combination of flags, width, precision, length modifier and conversion, and every value, the formatted printer produces the text the C standard specifies for it (plus its own conversions for views and builders), consuming its arguments in order. For every buffer size it writes nothing outside the buffer, terminates what it wrote, and reports truncation instead of a length.",
  ["inputs"], "the product of the listed flags, widths, precisions, length modifiers, conversions and boundary values, every pair of conversions with literals between them, each at every buffer size around the needed size",
  "Only a handful of formats occur in the library's own use, all with a large buffer; the others and every truncation boundary are never run.",
  ["base/dependencies/printing.cpp", "base/dependencies/printing.hpp"], [("c_str_fmt_va and the per-conversion printers", "base/dependencies/printing.cpp")],
  "Oracle: the C library's snprintf, in the domain where the library's documented deviations (precision is a length, truncated instead of rounded decimals) coincide with it.", technique="exhaustive enumeration of a bounded format/value/buffer-size space on the real printer against the C library")
P("C06", "Number, character and C-string conversions agree with their definitions",
  "Converting text to a number yields the value of the longest valid prefix and where it ends, converting a number to text and back is the identity in every base, and the character classes and case conversions agree with ASCII. The C-string copy, compare, length, search, skip and reverse primitives and the checksums give their defined result for every input, touching only the given extent.",
  ["inputs"], "every byte; every text up to the length bound over digit, sign, prefix and junk alphabets; numbers around every power of two and ten in seven bases; every pair of short strings; checksums of all short byte strings",
  "Tests convert almost no numbers; prefixes, partial matches and boundary values are not sampled.",
  ["base/dependencies/string_ops.hpp", "base/dependencies/string_ops.cpp", "base/dependencies/hashing.cpp"], [("c_str_to_i64 / i64_to_str / c_str_to_f64 / crc32", "base/dependencies/string_ops.cpp")],
  "Length bound 5 (quick) / 6 (thorough) for integers, 6/7 for floats.", technique="exhaustive enumeration of bounded input domains on the real functions against reference definitions")
P("P01", "Parsing and serializing a declaration preserves its tokens",
  "For every declaration the parser accepts, in every scope it accepts it in, serializing the parsed code gives the same sequence of C++ tokens as the source, in the same order, including literals, attributes, specifiers, default values, initializers, bodies, macros, preprocessor directives and the comments gencpp keeps (between declarations and trailing on a line). That holds however long the names and texts are, however many parts there are, and whatever identifiers are called. Nothing is dropped, duplicated, merged with a neighbour or moved into another declaration; only formatting, empty declarations, comments inside of a declaration and the side of the type a const stands on may differ. The supported declaration forms stay accepted.",
  ["inputs"], "every product of the alternatives of each syntactic position of every declaration form, in each scope (global, namespace, extern, export, class, struct, union), every pair of neighbouring declarations, every pair of pieces of code in every form of function body, parts of lengths and counts around every buffer, and identifiers that look like something else (directives, internal token names, the checksum of a keyword) in every position",
  "The tests parse a few of the library's own headers and compare nothing; losing a token needs a particular combination of specifiers, attributes, comments and neighbours.",
  ["base/components/parser.cpp", "base/components/interface.parsing.cpp", "base/components/code_serialization.cpp", "base/components/lexer.cpp", "base/components/inlines.hpp"],
  [("parse_global_nspace and the parser_parse_* productions", "base/components/parser.cpp"), ("*_to_strbuilder serializers", "base/components/code_serialization.cpp"), ("lex", "base/components/lexer.cpp")],
  "371 thousand sources (quick) / 1.15 million (thorough), with LF and CRLF line ends; forms the parser does not support at the pinned commit are listed by fingerprint in mc/checks/P01.rejects.inc and may also be accepted.",
  technique="exhaustive enumeration of a bounded declaration grammar through the real lexer, parser and serializer, compared with a reference tokenizer")
P("P02", "Serialized code parses again to the same code",
  "The text gencpp serializes for any parsed declaration is itself accepted by the parser, in a fresh context, and yields code of the same kinds with the same structure, entry by entry, and the same tokens when serialized again. Generated files can be fed back to the generator.",
  ["inputs"], "the output of every declaration of the bounded grammar in every scope, and of every pair of neighbouring declarations",
  "The tests never parse what they generate; an output that reads back as a different declaration needs particular combinations.",
  ["base/components/code_serialization.cpp", "base/components/parser.cpp", "base/components/lexer.cpp"],
  [("*_to_strbuilder serializers", "base/components/code_serialization.cpp"), ("parser_parse_* productions", "base/components/parser.cpp")],
  "87 thousand sources (quick) / 205 thousand (thorough), each parsed, serialized, parsed and serialized.", technique="exhaustive enumeration of a bounded declaration grammar through parse, serialize, parse on the real code")
P("P03", "Each declaration parses the same by its own entry point as inside a body",
  "For every declaration form with a parse function of its own (class, struct, enum, union, function, operator, operator cast, constructor, destructor, variable, using, typedef, template, namespace, friend, extern linkage, export), parsing a declaration with that function yields code of the same kind and the same serialized tokens as parsing it as an entry of the body it belongs to, and accepts it whenever the body does.",
  ["inputs"], "every declaration of the bounded grammar whose kind has an entry point of its own",
  "The tests use a few of the entry points, each with one input.",
  ["base/components/interface.parsing.cpp", "base/components/parser.cpp"],
  [("parse_class ... parse_variable", "base/components/interface.parsing.cpp"), ("parser_parse_* productions", "base/components/parser.cpp")],
  "One declaration per source; no pairs.", technique="exhaustive enumeration of a bounded declaration grammar, differential between two entry points of the real code")
P("P04", "Parsing any text ends with code or a diagnostic, reading only the text",
  "For every text, well formed or not, terminated or not, parsing ends: with code that can be serialized, or with a reported failure. It never reads or writes outside of the text and its own memory, never loops, and never crashes, wherever the text breaks off and whatever tokens follow each other.",
  ["inputs"], "every token sequence up to the length bound in seven contexts; every truncation, deletion, duplication and swap of tokens in every declaration of the bounded grammar",
  "The tests only parse well formed headers; an overrun or endless loop needs a text that breaks off or continues in an unexpected way at a particular token.",
  ["base/components/parser.cpp", "base/components/lexer.cpp", "base/components/interface.parsing.cpp"],
  [("lex / lex_next_token", "base/components/lexer.cpp"), ("lex__eat and the parser_parse_* productions", "base/components/parser.cpp")],
  "10.6 million parses in the quick tier (of the largest families of the grammar, bodies and CRLF forms, every 24th declaration; thorough: every eighth). Every text is held in a heap block of exactly its size, so a read past its end is seen by AddressSanitizer; a fatal trap counts as the diagnostic.", technique="exhaustive enumeration of bounded token sequences and token level edits through the real parser under AddressSanitizer and a watchdog")
P("U01", "Code built by the upfront constructors says what its arguments say",
  "For every combination of arguments the upfront constructors accept (def_class, def_function, def_operator, def_variable, def_enum, def_typedef, def_template, def_params and the others, in their single, variadic and array forms), serializing the code gives exactly the C++ tokens those arguments stand for, in the place C++ puts them: names, types, attributes, specifiers before and behind, module flags, parents and interfaces with their access, parameters with default values, bodies, bit fields, initializers and inline comments. No argument is dropped, doubled or read past its end, and adding parameters, specifiers, interfaces or arguments afterwards is the same as giving them at once.",
  ["inputs"], "every listed combination of the arguments of every upfront constructor",
  "The tests call a handful of constructors with a few arguments each; a dropped argument needs a particular combination.",
  ["base/components/interface.upfront.cpp", "base/components/code_serialization.cpp", "base/components/inlines.hpp", "base/components/interface.hpp"],
  [("def_* constructors", "base/components/interface.upfront.cpp"), ("*_to_strbuilder serializers", "base/components/code_serialization.cpp")],
  "44 thousand definitions. Each argument carries the text it stands for; the reference writes the C++ declaration from those texts and both are compared as tokens.", technique="exhaustive enumeration of bounded argument combinations through the real constructors and serializers against a reference writer")
P("U02", "Definitions and bodies take only what belongs in them, and keep it in order",
  "An upfront constructor given a code of a kind an argument cannot be (or null where it is required, or an empty name) refuses it with a diagnostic or an invalid code instead of producing malformed text or crashing, and accepts every kind it documents. A body takes exactly the kinds of entries that may stand in it, keeps them in the order given with its entry count, chain and parents consistent, writes them one after another, and gives the same result from its array form, its variadic form and by appending; entries that already belong to a body are copied, bodies are merged, and body validation agrees with what the constructors accept.",
  ["inputs"], "every argument of every constructor given each of the 62 kinds of code and null; every body given an entry of each kind, alone and next to others, in each of its forms",
  "The tests never pass a wrong kind and validate no body.",
  ["base/components/interface.upfront.cpp", "base/components/ast.cpp", "base/components/ast_case_macros.cpp", "base/components/inlines.hpp"],
  [("def_* argument checks and def_*_body", "base/components/interface.upfront.cpp"), ("code_validate_body", "base/components/ast.cpp"), ("body_append / code_append", "base/components/inlines.hpp")],
  "8.7 thousand executions; a fatal trap counts as a refusal.", technique="exhaustive enumeration of argument kinds and body memberships on the real constructors against a table of what belongs where")
P("A01", "Code compares equal exactly when it defines the same",
  "Two codes are equal exactly when they define the same: their kinds, names, types, specifiers, parameters, structure and entries in order agree, wherever in a file they stand and however deep they are nested. The relation is symmetric and a code equals itself and what parsing its source once more gives; text kept raw (default values, bodies, attributes, directive contents, comments) may or may not be told apart. A duplicate equals its original, serializes the same and leaves the original as it was. A description of any code can be produced and says its kind and name.",
  ["inputs"], "every pair of definitions written from the product of the alternatives of their parts, in each surrounding; every pair of the 62 kinds; every pair of types, parameter lists and specifier sequences; every declaration of the bounded grammar parsed twice",
  "No test compares code.",
  ["base/components/ast.cpp", "base/components/inlines.hpp"],
  [("code_is_equal / code_duplicate / code_debug_str", "base/components/ast.cpp")],
  "94 thousand executions, 1.25 million comparisons.", technique="exhaustive enumeration of bounded pairs of definitions on the real comparison against the alternatives they were written from")
P("A02", "Lists of entries, parameters and specifiers behave as sequences",
  "Specifiers, parameters, define parameters and the entries of bodies are sequences: appending adds at the end one entry or, given a list or body, all of its entries in order; removing a specifier takes out its first occurrence and keeps the order of the others; lookups by index or value, membership, counts, iteration in both directions and serialization all agree with the sequence at every point of every history, and asking past the end gives nothing. A list or body something is taken from, or that a new one is made from, stays as it was. Appending specifiers over the capacity is refused and changes nothing.",
  ["histories"], "every history of operations up to the depth bound on specifiers from seven starts around the capacity, on two parameter lists, two define parameter lists and two bodies of five kinds, through the free functions and the members",
  "Tests append in one go and read once; sharing an entry between lists and the ends of the capacity need particular histories.",
  ["base/components/inlines.hpp", "base/components/interface.upfront.cpp"],
  [("specifiers_append / specifiers_remove", "base/components/inlines.hpp"), ("params_append / params_get", "base/components/inlines.hpp"), ("code_append / body_append / code_entry", "base/components/inlines.hpp"), ("def_params / def_define_params", "base/components/interface.upfront.cpp")],
  "Depth 4 (quick) / 5 (thorough): 230 thousand / 2.5 million histories.", technique="explicit-state exploration of operation histories on the real lists against sequence models")
P("F01", "Files and memory streams read and write like a byte string with a cursor",
  "Whatever sequence of reads, writes, positioned reads and writes, seeks and queries is run on an open file or memory stream, each returns what a byte string with a cursor would give: reads give the bytes that are there and say how many, writes replace or extend exactly the bytes asked for (a gap being filled with zeroes), appending starts at the end, truncating starts empty. Sizes and positions are exact; nothing outside the stream's memory is read or written; a stream of fixed size never grows, and one opened only for reading never changes. Reading or writing where the mode does not allow it, at a negative offset, or without memory for it fails and changes nothing; opening a missing file for reading is reported. Closing gives all memory and handles back.",
  ["histories", "fault_sequences"], "every history of 19 operations up to the depth bound on eleven ways to open a file (existing, empty, missing) and five memory streams; a failing allocation at each point of histories of growing streams",
  "The tests read and write each file once from start to end; positions past the end, short reads, growth in steps and failing allocations never occur.",
  ["base/dependencies/filesystem.cpp", "base/dependencies/filesystem.hpp"], [("file_read_at_check / file_write_at_check / file_seek / file_open_mode", "base/dependencies/filesystem.cpp"), ("_memory_file_read / _memory_file_write / file_stream_open", "base/dependencies/filesystem.cpp")],
  "Files are on the in-memory stand-in of the Win32 calls, so the operating system's own behaviour is trusted. Where a positioned operation leaves the cursor of a file is not specified. Depth 3 (quick) / 4 (thorough).", technique="explicit-state exploration of operation histories with allocation faults on the real file layer against a byte string model")
P("F02", "What a builder prints is what its file holds, or the failure is reported",
  "After any sequence of prints of code, formatted prints and line paddings, writing a builder leaves its file with exactly the text of those in that order and nothing else: whatever the file held before is gone, nothing reaches the file earlier, and builders used side by side do not mix. If a call to the system fails or writes less than asked, the builder does not end as if it had succeeded. Likewise reading a file (whole, as lines, as a string, as code) gives all of its bytes or reports that it could not.",
  ["histories", "fault_sequences"], "every history of ten builder operations up to the depth bound over a new and an existing file and three initial buffer sizes, without a fault and with each call to the system failing, short or torn; eight interleavings of two builders; every file reader with every call failing and with the file missing",
  "The tests never see a failing or short write, and compare the output with nothing.",
  ["base/auxiliary/builder.cpp", "base/dependencies/filesystem.cpp"], [("builder_print / builder_print_fmt_va / builder_pad_lines / builder_write", "base/auxiliary/builder.cpp"), ("file_read_contents / file_write", "base/dependencies/filesystem.cpp")],
  "Faults are injected in the in-memory stand-in of the Win32 calls. Depth 3 (quick) / 4 (thorough).", technique="exhaustive exploration of operation histories and of the fault point and kind in each, on the real builder over a fault-injecting file system")
P("F03", "Scanning a file gives its text less the leading INTELLISENSE_DIRECTIVES block",
  "Scanning a file gives an untyped code holding the text of the file byte for byte, less everything up to the end of its first `#ifdef INTELLISENSE_DIRECTIVES` ... `#endif` block when it has a complete one. Other directives, line endings and blank lines after the block are kept, as is everything of a file without such a block; a file that ends at any point, even within a directive, is never read past its end, and the file is closed.",
  ["inputs"], "every text of up to the bound of lines out of thirteen, with LF, CRLF and mixed line ends, with and without the last line end",
  "The tests scan the library's own headers, which all have the block at the same place and well formed.",
  ["base/auxiliary/scanner.cpp", "base/auxiliary/scanner.hpp"], [("scan_file", "base/auxiliary/scanner.cpp")],
  "One blank line right behind the block may go with it; what an `#ifdef` without a name reads on to is only checked for memory safety. 4 lines (quick) / 5 (thorough).", technique="exhaustive enumeration of bounded texts run through the real scanner against a line based reference")
P("V01", "CSV tables survive being read and written",
  "Reading delimited text gives, column by column and row by row, exactly the cells written in it, in every notation: quoted or bare, with doubled quotes, delimiters and line ends inside quotes, blanks around bare cells, either line ending, with or without the last one, and any delimiter; a bare cell of the form 0x and up to 16 hexadecimal digits is the integer it denotes, every other cell is a string. With a header the first row names the columns. Writing any table of columns of equal length, to a file or a string, gives text that reads back as the same table. Text whose rows have different lengths, an unclosed quote, or text behind a quoted cell is refused with an error. Nothing outside the text is touched and freeing a table gives all its memory back.",
  ["inputs"], "every table of up to three rows and columns of cells from sixteen in each of 64 notations, read, written and read again; tables built node by node; every text up to the length bound over nine characters",
  "No test reads or writes a table.",
  ["base/dependencies/parsing.cpp", "base/dependencies/parsing.hpp"], [("csv_parse_delimiter / _csv_trim", "base/dependencies/parsing.cpp"), ("csv_write_delimiter / _csv_write_record / csv_write_strbuilder_delimiter", "base/dependencies/parsing.cpp")],
  "Tables of a header alone, and rows that consist of one blank bare cell, are not specified. Texts to 6 (quick) / 7 (thorough) characters.", technique="exhaustive enumeration of bounded tables, notations and texts through the real reader and writer against a table model")
P("V02", "Data trees stay the tree their changes describe",
  "After any sequence of appending, inserting, removing, moving, swapping and setting nodes, a data tree holds exactly the nodes those changes leave, with their names, kinds and values, in order, and every node's parent is the node that holds it, however often the arrays of nodes grew or moved. The node a change gives back is the one it made or moved. A change at a place that is not there, into a node that holds none, or without memory for it, is refused and leaves the tree as it was. Looking a node up by name (in one object, or deeply through objects) or by a query of names, indices, `[value]` and `[field=value]` parts gives the first node that matches, or nothing when none does. Destroying the tree gives all its memory back.",
  ["histories", "fault_sequences"], "every history of changes up to the depth bound at every node near the ends of its list, from seven starts around the capacity of the arrays, each also with a failing allocation in its last change; every node found and queried by name, index, field and value after each",
  "No test builds a tree; nodes are kept by value, so only particular growths, insertions and moves leave stale parents behind.",
  ["base/dependencies/parsing.cpp", "base/dependencies/parsing.hpp"], [("adt_alloc_at / adt_move_node_at / adt_swap_nodes / adt_remove_node", "base/dependencies/parsing.cpp"), ("adt_find / adt_query", "base/dependencies/parsing.cpp")],
  "Removing a branch leaves its own nodes to be destroyed by the caller first. Values of real numbers are not looked up. Depth 3/2 (quick: 403 thousand executions), 4/3 (thorough: 17 million).", technique="explicit-state exploration of operation histories with allocation faults on the real nodes against a tree model")
P("S01", "Strings are interned by content, macros registered by their exact name",
  "Caching a string gives a terminated copy of exactly its text that lives until the context is reset, whatever becomes of the source. Caching an equal text again (up to the cache's longest length) gives the same memory, and different texts never share it, even those with the same checksum, however many strings, arenas and macros there are; the names of parsed and of constructed code are the cached ones. A macro is found by exactly its name, with the type and flags of its last registration, singly, in a list, by an array or by a define; a parsed #define registers a name not registered yet, as functional when it has parameters, and takes the parameters it is written with; resetting forgets all but the library's own.",
  ["histories", "inputs"], "every history up to the depth bound of 25 operations over texts and names with equal checksums and of lengths around the arena's size and the cache's limit, for given and fallback allocators; runs of many strings and macros",
  "Names are compared by address everywhere; a pair of equal checksums, a string at the end of an arena or a macro redefined otherwise appears in no test.",
  ["base/components/interface.cpp", "base/components/lexer.cpp"], [("cache_str / get_cached_str_allocator", "base/components/interface.cpp"), ("register_macro / register_macros / lookup_macro", "base/components/interface.cpp"), ("lex_preprocessor_define", "base/components/lexer.cpp")],
  "Strings longer than the cache takes need only hold their text. Depth 4 (quick: 494 thousand executions), 5 (thorough).", technique="explicit-state exploration of operation histories on the real context against maps")
P("I01", "Contexts are independent, reusable, and report running out of memory",
  "After any history of initializing, deinitializing, resetting and switching between contexts, each initialized context parses and constructs the same code from the same input, the code and macros of every context stay as they are until that context itself is reset or deinitialized, and the constants stay valid for all of them while the first one lives. A context works whether its allocators and sizes are given or left to the defaults, for sources, strings and bodies of any size. Deinitializing every context gives all memory of the heap back, and resetting and doing the same work again takes no more memory. When the heap is out of memory, what was asked for is reported as failed, or has been done completely.",
  ["histories", "fault_sequences"], "every history up to the depth bound of init, deinit, reset, set_context, parse, construct and define over two and three contexts of four configurations, cycles of work and reset, the heap failing at each allocation, sources up to 120 thousand declarations",
  "Tests use one context once; what a reset or the end of another context does to memory shows only in particular orders and at particular sizes.",
  ["base/components/interface.cpp", "base/components/interface.hpp"], [("init / deinit / reset / set_context", "base/components/interface.cpp"), ("make_code / cache_str", "base/components/interface.cpp"), ("fallback_allocator_proc", "base/components/interface.cpp")],
  "The first context outlives the others, as documented. Memory failures are explored for the fallback allocator on the heap; a user's own allocator that fails is not. Depth 5/6 (quick: 69 thousand executions), 6 to 8 (thorough).", technique="explicit-state exploration of histories of contexts with allocation faults on the real library")
P("T01", "Text templates give exactly the substituted text",
  "Formatting a text with tokens (token_fmt, token_fmt_va, and code_fmt, parse_fmt and untyped_token_fmt built on it) replaces every <token> given by its value and keeps every other byte as it is: names between < and > that were not given, brackets that do not close, empty brackets. Values, which may be empty, may contain brackets and need no terminator, are written as they are and are not searched for further tokens; of tokens given twice the last counts, and no token outlives its call. A text which does not fit the buffer is reported, never cut. Code made from such a text, or from a printf style format with untyped_fmt, holds exactly that text as its content and is written as it.",
  ["inputs"], "every format up to the bound of pieces with every set of tokens, every size of the buffer around the size needed, texts around the print buffer's length, up to twenty tokens",
  "Tests format a few well-formed templates; brackets of the text itself, values with brackets and texts at the end of the buffer are not sampled.",
  ["base/components/interface.untyped.cpp", "base/components/inlines.hpp", "base/components/interface.hpp"], [("token_fmt_va / untyped_token_fmt / untyped_fmt", "base/components/interface.untyped.cpp"), ("token_fmt_impl", "base/components/inlines.hpp")],
  "Formats of up to 5 pieces (quick, 179 thousand executions) or 6 (thorough, 2.0 million) of eleven; eight sets of tokens; two tokens whose names have the same checksum are not distinguished by the library and are not explored.", technique="exhaustive enumeration of formats, token sets and buffer sizes against a plain substitution on the real library")

P("D01", "Refused texts are reported with the place they were refused at",
  "Whenever the parser refuses a text it says so in words. The line and column it gives, both counted from one, are the beginning of a token of the text (or its end when the text ended too early), a token named in the message as the unexpected one is what stands there, and the place is within the declaration which is broken, not in declarations before it. Whether a text is accepted and what it is reported with depends on the text and the macros registered so far, not on what else was parsed before it in the same context. This holds for texts and for the fragments each parse function takes.",
  ["inputs", "histories"], "every declaration form broken at every token by leaving out, inserting, replacing or ending there, in every scope, behind other declarations and after other texts, and given to the twenty parse functions after each other",
  "Tests parse well formed code; what is reported, and what a refused text sees of an earlier one, is never looked at.",
  ["base/components/parser.cpp", "base/components/lexer.cpp"], [("parser_to_strbuilder / lex__eat", "base/components/parser.cpp"), ("lex", "base/components/lexer.cpp")],
  "Thirty forms and twenty parse functions: 330 thousand parses (quick) or 2.6 million (thorough) of broken texts, most of them parsed again after other texts. The place is checked to be possible, not to be the best one: a parser that looks ahead may report the beginning of the declaration. Refusals by the constructors the parser calls name no place.", technique="exhaustive enumeration of broken texts and of the texts before them on the real library")

P("G01", "The generated libraries behave as the library they are generated from",
  "The libraries gencpp generates from itself (the C11 library, the single header, the segmented and the Unreal variant) can be generated and compiled, and behave as the library in base: every declaration that library parses they parse, and what it refuses they refuse; the result is of the same kind, is written with the same text, has equal copies and the same description. Only the names of gencpp's own macros differ (gen_forceinline and the like in the C library, FORCEINLINE in Unreal's), and the Unreal variant knows other attributes.",
  ["inputs"], "every declaration of the bounded grammar in every scope, through all five libraries",
  "The tests generate one file with the C library and one with the C++ library and compare neither.",
  ["gen_c_library/c_library.cpp", "gen_c_library/components/misc.hpp", "gen_c_library/c_library.refactor", "gen_singleheader/singleheader.cpp", "gen_segmented/segmented.cpp", "gen_unreal_engine/unreal.cpp", "gen_unreal_engine/components/parser_case_macros.cpp", "base/base.cpp", "base/components/inlines.hpp"],
  [("gen_main of the generators", "gen_c_library/c_library.cpp"), ("Unreal's specifier cases", "gen_unreal_engine/components/parser_case_macros.cpp"), ("keyword tables for C", "base/helpers/base_codegen.hpp"), ("code that C++ and C share", "base/components/inlines.hpp")],
  "72 thousand executions (thorough: 364 thousand).", technique="exhaustive enumeration of bounded declarations on the real generated libraries against the library they are generated from")
P("G02", "The C library's arrays and hash tables behave as sequences and maps",
  "The containers the generator writes for C keep what is stored in them under every history of operations, through the generic macros and through their functions alike: an array holds the elements a plain sequence would, in order, with their count, and never more than its capacity; a table gives for each key the value last stored and nothing for absent keys, also when keys collide, and visits each stored value once. Freeing a container returns all of its memory and leaves an array null, and an operation that runs out of memory reports failure and leaves an array as it was. Its fixed arenas of every size, its other arenas and its pools hand out zeroed, aligned blocks that stay apart, say how much is left, refuse what does not fit, and return their memory.",
  ["histories", "fault_sequences"], "every operation sequence up to the depth bound, every pair of operations behind long histories, every failing allocation",
  "The tests use C arrays only where the library itself appends codes, and no C table but its caches.",
  ["gen_c_library/components/containers.array.hpp", "gen_c_library/components/containers.hashtable.hpp", "gen_c_library/components/memory.fixed_arena.hpp", "gen_c_library/components/misc.hpp", "gen_c_library/c_library.cpp"],
  [("fixed arenas", "gen_c_library/components/memory.fixed_arena.hpp"), ("gen_array", "gen_c_library/components/containers.array.hpp"), ("gen_hashtable", "gen_c_library/components/containers.hashtable.hpp"), ("generic selection", "gen_c_library/components/misc.hpp")],
  "2 million operation sequences. Runs the header the generator writes, not its source.", technique="explicit-state exploration of operation sequences on the generated C containers, checked step by step against a sequence, a map and a bump allocator")
P("G03", "The interface of the generated libraries does what the library's does",
  "The same calls give the same in every library gencpp generates from itself as in the library: every upfront constructor with any of its optional arguments (in C by name through its macro), bodies and parameter lists in their array, variadic and appended forms, walks over their entries, operations on specifiers and parameters, strings, token templates, builders and scanned files, CSV and value trees. The result has the same kind and text, copies and comparisons agree, and what one refuses the others refuse.",
  ["inputs", "histories"], "the product of the alternatives of every argument of each family of calls, through all five libraries",
  "The tests call a handful of constructors in C with one set of arguments.",
  ["gen_c_library/c_library.cpp", "gen_c_library/components/misc.hpp", "base/components/interface.hpp", "base/components/interface.upfront.cpp", "base/components/inlines.hpp", "base/components/code_types.hpp", "gen_singleheader/singleheader.cpp", "gen_segmented/segmented.cpp", "gen_unreal_engine/unreal.cpp"],
  [("upfront macros for C", "gen_c_library/c_library.cpp"), ("upfront constructors", "base/components/interface.upfront.cpp"), ("code that C++ and C share", "base/components/inlines.hpp")],
  "14 thousand executions (thorough: all combinations).", technique="exhaustive enumeration of bounded argument combinations through the real generated libraries against the library they are generated from")
NOT_APPLICABLE = []
