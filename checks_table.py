ASSUME = [
    "gencpp's Windows code path is compiled natively (clang 18, x86-64) against a stand-in for the Win32 calls it makes; the deciding runs execute gencpp's own sources from /repo, not a model of them",
]
CHECKS = {
 "C01": dict(bound="every operation sequence up to the depth bound over the array alphabet, checked step by step against std::vector", ),
 "C02": dict(bound="every operation sequence up to the depth bound over colliding keys, and every pair of operations after every long insertion history, against a map"),
 "C03": dict(bound="every operation sequence up to the depth bound on arenas (from memory at 3 skews, from an allocator, sub-arenas, fixed), pools, and the context fallback allocator; every offset/length up to the bound for the memory primitives"),
 "C04": dict(bound="every operation sequence up to the depth bound on string builders from 13 starting points (free functions and members), allocation failure at each, every pair of strings over a 3-letter alphabet up to the length bound, formatted appends at the print buffer boundary", ),
 "C05": dict(bound="every combination of flag, width, precision, length modifier and conversion from the listed sets over boundary values, every pair of conversions with literals around them, each printed at every buffer size around the needed one, against the C library's snprintf", ),
 "C06": dict(bound="every byte for the character classes; every text up to the length bound over digit/sign/prefix alphabets for the number scanners; every pair of short strings for the C-string primitives; checksums of every text up to two bytes and longer patterns", ),
}
CHECKS["P01"] = dict(bound="every product of the listed alternatives at each syntactic position of each declaration form, every specifier and every two in front of each form and every two behind it, in each scope, and every pair of neighbouring declarations, texts and repetitions of lengths around every buffer, identifiers that look like something else in every position; parsed, serialized and compared token by token against a reference tokenizer")
CHECKS["P02"] = dict(bound="the output of every declaration of the P01 grammar, parsed again in a fresh context and compared in tokens, kinds and structure")
CHECKS["P03"] = dict(bound="every declaration of the P01 grammar that has a parse function of its own, parsed by it and as the entry of a body, compared in tokens and kinds")
CHECKS["P04"] = dict(bound="every token sequence up to the length bound over a 51 symbol alphabet in 7 contexts, and every truncation, deletion, duplication and neighbour swap of the tokens of every declaration of the P01 grammar (a 24th or eighth of its two largest families; thorough: every byte prefix); each text in a buffer of exactly its size under AddressSanitizer and a watchdog")
CHECKS["U01"] = dict(bound="every listed combination of the arguments of every upfront constructor, serialized and compared token by token with the text its arguments stand for")
CHECKS["U02"] = dict(bound="every argument of every upfront constructor given a code of each of the 62 kinds and null; every body constructor given an entry of each kind, in its array, variadic and append-then-validate form")
CHECKS["A01"] = dict(bound="every pair of definitions of each of 32 families written from the product of the alternatives of their parts, in five surroundings; every pair of the 62 kinds of code; every pair of listed types, parameter lists and specifier sequences; every declaration of the P01 grammar parsed twice")
CHECKS["A02"] = dict(bound="every history of operations up to the depth bound on specifiers (7 operations, 7 starts around the capacity), on two parameter lists and two define parameter lists (13 operations) and on two bodies of five kinds (10 operations), free functions and members, every list compared with a vector after each operation")
CHECKS["F01"] = dict(bound="every history of 19 read, write, seek and size operations up to the depth bound on eleven ways to open a file and five memory streams, against a byte string with a cursor; a failing allocation at each point of the histories of growing streams")
CHECKS["F02"] = dict(bound="every history of ten builder operations up to the depth bound, over a new and an existing file, free functions and members, three initial buffer sizes, each without a fault and with every call to the system failing, short or torn; eight interleavings of two builders; every file reader with every call failing and the file missing")
CHECKS["F03"] = dict(bound="every text of up to the bound of lines from thirteen (guard blocks, other directives, broken directives, blanks), with LF, CRLF and mixed line ends, with and without the last one, scanned and compared byte for byte with a line based reference")
CHECKS["V01"] = dict(bound="every table of up to three rows and columns of cells from sixteen (quotes, delimiters, line ends, numbers, blanks) in each of 64 notations (quoting, spaces, line ends, header, four delimiters), read, written and read again; tables built node by node; every text up to the length bound over nine characters")
CHECKS["V02"] = dict(bound="every history of changes (append of each kind, insertion, removal, move, swap, set; each at every node of the tree near the ends of its list) up to the depth bound from seven starts around the capacity of the arrays, each also with a failing allocation in its last change; every node found and queried by name, index, field and value after each history")
CHECKS["S01"] = dict(bound="every history up to the depth bound of 25 operations (caching of 12 texts with equal checksums and lengths around the arena's size and the cache's limit, registering macros in four ways, defines, parsed names, reset), for given allocators and the fallback allocator, against maps; runs of many strings and macros across arenas and growing tables")
CHECKS["G01"] = dict(libs=True, bound="the four generators run on the tree, their headers compiled and run side by side with the library; every declaration of the bounded grammar in every scope (quick: a fifth of them, by hash) and every specifier in front of and every two behind every form, parsed as part of a file and alone: text, kind, copy, equality and description")
CHECKS["G02"] = dict(libs=True, bound="arrays of three element types and tables of two value types, through the generic macros and through the functions, from several reserves: every operation sequence of up to 3 (thorough: 4) of 28 operations on arrays and of 27 on tables with colliding keys; every pair of operations behind histories of up to 30 (80) appends and 40 (100) insertions; each allocation failing in each operation on arrays of up to 9 elements; every sequence of up to 4 (5; of up to 2 and 3 in the large ones) of 15 operations on arenas of 15 kinds and of up to 7 (9) of 4 on pools of 48 shapes")
CHECKS["G03"] = dict(libs=True, bound="23 families of calls through all five libraries: the product of the alternatives of every argument of every upfront constructor, of bodies of every kind in their three forms with walks over their entries, operations on lists of specifiers and parameters, three string operations in a row, token templates, files of four prints, CSV of three rows, four tree operations, every type of code given to the functions for any code; about a thousand of each family (thorough: all of them)")
CHECKS["I01"] = dict(bound="every history up to the depth bound of init, deinit, reset, set_context, parsing, constructing and defining over two and three contexts of four configurations; cycles of work and reset in tiny pools and arenas; the heap failing at each allocation; sources up to 120000 declarations and strings up to 20 MB with nothing configured")
CHECKS["T01"] = dict(bound="every format of up to 5 (thorough: 6) of eleven pieces (tokens, brackets, texts) with eight sets of tokens; every buffer size around the needed one and the code forms for formats of up to 3 (4) pieces; texts around the length of the print buffer; up to twenty tokens")
CHECKS["D01"] = dict(bound="thirty declaration forms in six scopes behind four beginnings, broken at every token in 23 (thorough: 44) ways: left out, broken off, one of 21 tokens inserted or put in its place; every refusal once more after one (thorough: four) other texts, thorough also with a declaration behind")
