"""The properties: single source of properties.jsonl and MANIFEST.json (python3 lib/mkmeta.py)."""

D = "base/dependencies/"
K = "base/components/"
MC = "model_checking"


def P(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, level=MC):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, state=state or [], observe=observe or [], note=note, level=level)


TESTNOTE = "The three existing programs generate a few files and assert nothing, so no wrong value can fail them; "

PROPS = [
P("C01", "Constructor functions build exactly the described node or refuse",
  "For every combination of arguments, a definition constructor (class, struct, enum, union, function, operator, variable, typedef, using, namespace, and the rest) either returns a node whose type, name, value and every linked child are exactly those its arguments describe, or refuses with the invalid node. "
  "It refuses exactly when a required argument is missing or an argument has a node type that construct does not admit, and building never changes what previously built nodes say. "
  "A body filled entry by entry validates exactly if each of its entries is one its construct admits.",
  ["inputs", "histories"], "all constructors x all argument kinds (absent, admissible, inadmissible node types) and all statement kinds in all bodies",
  TESTNOTE + "and they use a handful of admissible argument combinations; refusal is never exercised.",
  [K + "interface.upfront.cpp", K + "interface.hpp", K + "inlines.hpp"],
  [("argument validation and node assembly", K + "interface.upfront.cpp"), ("body content tables", K + "interface.upfront.cpp:AST_BODY_*")],
  "Every enumerated call of the specification is executed on the real constructors and the whole resulting tree is compared by TLC with the tree the specification prescribes."),
P("C02", "Operator definitions are accepted exactly for the arities C++ allows",
  "An operator definition is accepted exactly when the operator, the number of its parameters, their types and the return type form an overload: a member has one parameter less than the operator has operands (assignment, subscript, call and arrow are members only), increment and decrement tell their postfix form by an int parameter, compound assignments and steps that are not members return the type of their first operand, and logical not returns bool. "
  "An accepted one records the operator, whether it is a member, its parameters and return type, and a refused one yields the invalid node; operators without a return type or with arguments of other kinds are refused.",
  ["inputs"], "all operators x 0..3 parameters x parameter types x return types x specifiers",
  TESTNOTE + "the table of operators and arities has several thousand combinations of which a few are used.",
  [K + "interface.upfront.cpp"], [("operator overload table", K + "interface.upfront.cpp:operator__validate")],
  "TLC enumerates the whole table; every row is executed."),
P("C03", "Interning gives one string per text and never loses or changes one",
  "Interning a text gives a stored string with exactly that content: the same stored string every time the same text is given and different ones for different texts, also when their hashes agree (texts longer than the configured limit are stored but not shared). "
  "It stays valid, NUL-terminated and unchanged while any number of later texts of any length are interned.",
  ["histories", "inputs"], "all sequences of interned texts, including long ones and texts whose 32-bit hashes collide",
  TESTNOTE + "collisions and arena exhaustion need specific texts or long histories.",
  [K + "interface.cpp", D + "strings.cpp"], [("string cache", K + "interface.cpp:cache_str"), ("string arena growth", K + "interface.cpp:_allocator_strings")],
  "Traces of the real cache, with content read back after every step, are validated by TLC against the specification."),
P("C04", "Allocators hand out disjoint, aligned, in-bounds blocks",
  "Every block obtained from an arena, fixed arena, pool, the heap allocator (with its bookkeeping or without) or the library's fallback allocator lies inside that allocator's memory, has the requested alignment, and overlaps no other live block; a request that does not fit fails without effect. "
  "Freeing returns exactly the released memory, resizing keeps the contents, and live blocks are never disturbed.",
  ["histories", "inputs"], "all sequences of allocate, free, resize and free-all of all sizes and alignments",
  TESTNOTE + "overlap only shows when particular sizes, alignments and frees are combined.",
  [D + "memory.cpp", D + "memory.hpp", K + "interface.cpp"], [("arena", D + "memory.cpp:arena_allocator_proc"), ("pool free list", D + "memory.cpp:pool_allocator_proc"), ("fallback buckets", K + "interface.cpp:fallback_allocator_proc")],
  "Histories enumerated by TLC and random ones run on the real allocators; TLC recomputes disjointness of the returned blocks after each call."),
P("C05", "The growable array is a sequence",
  "Every operation of the growable array has the effect on its contents, length and result that the same operation has on a mathematical sequence: append, insert, remove, fill, pop, resize, reserve, copy and clear neither lose, duplicate nor corrupt an element; functions, members and overloads name the same operations. "
  "Capacity never falls below the length, out-of-range requests are refused without effect, and a failed allocation leaves the array as it was.",
  ["histories", "inputs", "fault_sequences"], "all sequences of array operations with all indices, and allocation failures at any growth",
  TESTNOTE + "only appends are used by them.",
  [D + "containers.hpp"], [("array operations", D + "containers.hpp:array_*")],
  "TLC checks the array design exhaustively within small bounds, its behaviours are replayed on the real array, and long random traces are validated."),
P("C06", "The hash table is a map",
  "After any history of insertions, overwrites, removals, rehashes and clears, looking a key up yields exactly the value last stored under it, or nothing if there is none; iteration visits each present entry once; functions, members and overloads name the same operations. "
  "Growth and rehashing change no entry.",
  ["histories"], "all histories over colliding and non-colliding keys",
  TESTNOTE + "bucket collisions, growth and removal are never combined.",
  [D + "containers.hpp"], [("hashtable operations", D + "containers.hpp:hashtable_*")],
  "TLC checks the chained table design exhaustively for small tables, its behaviours are replayed, and random histories are validated."),
P("C07", "Bodies, parameter lists and specifier lists keep their structure",
  "Appending to a body, parameter list or specifier list makes the element its last, keeps the order and count right, links neighbours both ways and sets the parent; an element that already has a parent is duplicated so that its first owner is unchanged. "
  "Iterating a list visits exactly its elements in order, and a duplicate of a list has the same elements in elements of its own, so that what is appended to one is not in the other.",
  ["histories"], "all histories of append, append-body, duplicate, remove and iterate over several lists sharing elements",
  TESTNOTE + "sharing a node between two lists, or appending a whole list, is not inspected.",
  [K + "ast.cpp", K + "inlines.hpp"], [("body append", K + "inlines.hpp:body_append"), ("parameter append", K + "inlines.hpp:params_append"), ("specifiers", K + "ast.hpp")],
  "Histories enumerated by TLC run on the real nodes; after every step the driver dumps all lists and links, which TLC compares with the specification."),
P("C08", "Structural equality of nodes is an equivalence that sees every difference",
  "Comparing two nodes for equality yields true for a node and its duplicate and for separately built nodes with the same description, and the result does not depend on the order of the operands. "
  "Nodes that differ in kind, name, return or value type, specifiers, attributes, parameters or members compare unequal, and comparing never modifies them.",
  ["inputs"], "all pairs of descriptions of all comparable node kinds",
  TESTNOTE + "no test compares two nodes.",
  [K + "ast.cpp"], [("equality", K + "ast.cpp:code_is_equal")],
  "TLC enumerates pairs of descriptions differing in at most one place; the real verdicts are compared with equality of the descriptions."),
P("C09", "Registered macros decide how identifiers are parsed",
  "An identifier is treated as a macro exactly if it is registered at that moment: the registry returns what was registered last under a name, with its kind and its functional, body and statement flags, also among many registrations. "
  "A #define met while parsing registers its name, functional macros must carry an argument list unless they may appear without one, and unregistered identifiers are ordinary identifiers.",
  ["histories", "inputs"], "all registries, redefinitions and uses in source text",
  TESTNOTE + "they register a fixed list once.",
  [K + "interface.cpp", K + "lexer.cpp"], [("registry", K + "interface.cpp:register_macro"), ("macro lookup in the lexer", K + "lexer.cpp:lex_identifier")],
  "Registrations and lexed uses are recorded and validated by TLC against the registry specification."),
P("C10", "Contexts are isolated and can be initialised, reset and torn down repeatedly",
  "After any sequence of initialising, switching, resetting and tearing down contexts, the active context behaves as a freshly initialised one that has seen only its own operations: interned strings, registered macros and constants of one context are invisible to another. "
  "Tearing down releases everything obtained from the caller's allocators (what is allocated as temporary belongs to the caller), and repeated use of a context after reset gives the same output as first use. The context initialised first outlives the others.",
  ["histories"], "all sequences of init, switch, reset and deinit over up to three contexts interleaved with interning, parsing and building",
  TESTNOTE + "each calls init once and deinit once.",
  [K + "interface.cpp", "base/gen.cpp"], [("context", K + "interface.cpp:init/deinit/reset/set_context")],
  "Lifecycle histories enumerated by TLC are executed with a counting allocator and validated."),
P("C11", "The lexer partitions the source into the right tokens",
  "For any source text in the supported language the tokens, in order, are exactly those of the text: concatenating their texts gives back the text with only white space missing, every token has the kind its text has in C++, and its line and column are those of its first character. "
  "Comments, string and character literals, numbers, preprocessor directives and multi-character operators are single tokens.",
  ["inputs"], "all token sequences with all separations by blanks, tabs, line ends and comments",
  TESTNOTE + "token streams are never looked at.",
  [K + "lexer.cpp", K + "gen/etoktype.hpp"], [("lexer", K + "lexer.cpp:lex")],
  "TLC generates token sequences and the spec gives kinds and positions; the real token stream is validated event by event."),
P("C12", "Parsing and serialising preserve the declared program",
  "For every program in the supported language, parsing it and turning the result back to text gives the same sequence of C++ tokens, up to comments and optional punctuation; parsing that text again gives an equal tree, and its text is the same text up to blank lines. "
  "The tree has the declared kinds, names, types, specifiers, attributes, parameters and nesting.",
  ["programs"], "all declarations of the supported grammar, nested, in all orders",
  TESTNOTE + "the outputs are not compared to anything.",
  [K + "parser.cpp", K + "ast.cpp", K + "code_serialization.cpp"], [("parser", K + "parser.cpp"), ("serialisers", K + "code_serialization.cpp")],
  "TLC generates declarations with their token sequence; the tokens of what the real code emits are compared with it by TLC."),
P("C13", "Building and parsing a declaration agree",
  "A declaration built with the constructor functions and the same declaration obtained by parsing its source text are equal in structure and serialise to the same tokens.",
  ["programs"], "all declarations expressible both ways",
  TESTNOTE + "no declaration is made both ways.",
  [K + "interface.upfront.cpp", K + "parser.cpp", K + "code_serialization.cpp"], [("constructors", K + "interface.upfront.cpp"), ("parser", K + "parser.cpp")],
  "TLC enumerates declarations; both ways are executed and compared."),
P("C14", "Token substitution replaces exactly the given tokens",
  "Formatting a template with name/value pairs yields the template in which every <name> whose name was given is replaced by its value and every other character is kept. "
  "It never writes outside its buffer and needs no particular order, number or length of tokens.",
  ["inputs"], "all templates over brackets, names and other characters, and all token maps",
  TESTNOTE + "the templates used are well formed and small.",
  [K + "interface.cpp", K + "interface.untyped.cpp"], [("token_fmt", K + "interface.cpp:token_fmt_va")],
  "TLC enumerates all small templates and gives the substitution; every one is run on the real function, plus random long ones."),
P("C15", "String views, builders and C-string helpers compute their textbook results",
  "Every operation of string views, string builders and C-string helpers returns what its mathematical counterpart on byte sequences returns: append, trim, search, compare, visit, case conversion, tokenising, and conversions between numbers and text. "
  "Builders stay null-terminated with capacity at least their length, and no operation changes an operand it only reads.",
  ["inputs", "histories"], "all byte strings and all histories of builder operations",
  TESTNOTE + "only a few literals pass through them.",
  [D + "strings.hpp", D + "strings.cpp", D + "string_ops.hpp", D + "string_ops.cpp"], [("string builder", D + "strings.hpp"), ("C strings", D + "string_ops.hpp")],
  "TLC checks laws of the specification and generates builder histories; the real results are validated."),
P("C16", "Formatted printing writes what the directives say",
  "For every format made of literals and the supported directives (flags, width, precision, size modifiers, strings, string views, builders, characters, signed and unsigned integers in all bases, pointers, repetition) the text produced is the concatenation of the literals and of each argument's conversion, padded as stated, whatever entry point is used. "
  "The reported length is the length of that text. A text that does not fit the caller's buffer is reported, its beginning is kept and terminated, and nothing is written past the buffer; "
  "text printed to a string builder may be of any length.",
  ["inputs"], "all formats of supported directives with all argument values and all buffer sizes",
  TESTNOTE + "only a few directives are used.",
  [D + "printing.cpp", D + "strings.hpp"], [("printf engine", D + "printing.cpp:c_str_fmt_va")],
  "TLC enumerates the directive table; the real output is validated byte for byte."),
P("C17", "Files are written and read back exactly, whatever the operating system answers",
  "What a builder writes to its file is exactly the concatenation of everything printed to it, and scanning a file yields exactly its content. "
  "A file that cannot be opened, or a write or read that fails or is short, is reported or refused and leaves no handle open and no memory corrupted.",
  ["fault_sequences", "histories"], "all builder histories and all placements of open, read and write faults",
  TESTNOTE + "no fault ever happens.",
  ["base/auxiliary/builder.cpp", "base/auxiliary/scanner.cpp", D + "filesystem.cpp"], [("builder", "base/auxiliary/builder.cpp"), ("files", D + "filesystem.cpp")],
  "TLC enumerates histories with fault placements; they run on the real code over a fault-injecting file layer."),
P("C18", "CSV tables are parsed to exactly their cells",
  "Parsing a CSV text yields a table with exactly its rows and columns, each cell with its text (quotes resolved) and, for numbers, its value; writing it back gives an equivalent table. "
  "Malformed tables are reported as such.",
  ["inputs"], "all tables of quoted, plain, numeric and empty cells, with and without header",
  TESTNOTE + "only the well-formed tables of the repository are read.",
  [D + "parsing.cpp", D + "parsing.hpp"], [("CSV", D + "parsing.cpp:csv_parse_delimiter"), ("ADT", D + "parsing.cpp:adt_*")],
  "TLC enumerates small tables; the parsed nodes are validated."),
P("C19", "Enumerator tables and their text are consistent",
  "For operators, specifiers, token kinds, node kinds, macro kinds, access specifiers and module flags, the text of each enumerator is the one listed for it, text-to-enumerator is its inverse, and unknown text maps to the invalid enumerator. "
  "The enumerations generated from the repository's own tables are the ones the library is built with.",
  ["inputs"], "all enumerators, all listed texts and all other texts up to a length",
  TESTNOTE + "only those occurring in the test inputs are looked up.",
  ["base/enums", K + "gen", "base/base.cpp"], [("generated tables", K + "gen/*.hpp")],
  "The tables are the specification's constants; all lookups of the real code are recorded and validated."),
P("C20", "Malformed input is refused without harm",
  "For every input text and every kind of construct it is parsed as, with or without registered macros, parsing ends, touches no memory outside the text and the library's own, and comes to exactly one of: a node, the invalid node, "
  "or a refusal that is reported (by default it ends the process). A whole declaration is never refused, and the beginning of a declaration that was cut off (a bracket is still open, or what ends such a declaration is missing) never comes to a node. "
  "The outcome and the tree depend on the text alone, not on what was parsed before or on the bytes after the text.",
  ["inputs", "histories"], "all texts of few tokens; all truncations of generated declarations; deletions, duplications, insertions and replacements of tokens, noise, and texts of unusual size, interleaved with well-formed ones",
  TESTNOTE + "malformed input never occurs.",
  [K + "parser.cpp", K + "lexer.cpp"], [("parse error handling", K + "parser.cpp:parser_to_strbuilder/lex__eat")],
  "Every text of few tokens, every truncation and many mutations of generated programs are run under memory instrumentation; the trace specification decides from the text's brackets and ending which outcomes are allowed, and requires the same outcome every time."),
P("C21", "Every generated variant of the library behaves as the base library",
  "The library variants the repository generates from its own sources (segmented headers, single header) and its C-like interface compile and satisfy the same specifications as the base library: same trees, same text, same refusals.",
  ["configurations", "programs"], "generated variants x the behaviours of the other specifications",
  TESTNOTE + "the variants are only compiled and linked by them.",
  ["gen_segmented", "gen_singleheader", "base"], [("generators", "gen_singleheader/singleheader.cpp"), ("generators", "gen_segmented/segmented.cpp")],
  "The generators are run, their output is compiled with the same drivers, and the traces are validated against the same specifications."),
P("C22", "Memory primitives and checksums compute their textbook results",
  "Setting, clearing, copying, moving, swapping and searching memory touch exactly the named bytes and give the textbook result, for every length, residue of the addresses and, where they may, every overlap; "
  "addresses are aligned upwards to the next multiple, pointer distances and powers of two are told exactly, and crc32 and crc64 are the published checksums of the bytes given.",
  ["inputs"], "all contents, lengths, offsets, address residues and overlaps",
  TESTNOTE + "the primitives are unrolled by words, so that only particular lengths, residues and distances take a particular path.",
  [D + "memory.cpp", D + "memory.hpp", D + "hashing.cpp"], [("memory primitives", D + "memory.cpp:mem_*"), ("checksums", D + "hashing.cpp:crc32")],
  "The specification holds memory as a sequence of bytes; every pair of operations enumerated by TLC and grids of lengths, residues and distances run on the real primitives, with guard bytes, under a sanitizer and optimised; TLC recomputes memory and checksums after each."),
]
