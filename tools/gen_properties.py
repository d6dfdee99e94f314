#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording has one source)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})
PARSER = "src/parse/parser.rs"

prop("C01", "Loading any text ends in an object or an error, never a crash",
     "Loading any text or any file content, however malformed, long or deeply nested, returns either an object or an error. It never panics, aborts, overflows the stack or fails to terminate, and neither does rendering the resulting error or printing and dropping the resulting object.",
     ["inputs"], "every text, and every byte content of a loaded or included file",
     "The tests load about 70 fixed files; a fuzz target exists for panics but samples, and cannot be built here.",
     [PARSER, "src/parse/char_stream.rs", "src/parse/util.rs", "src/parse/error.rs"],
     [("depth limit for nested containers, includes and dots", PARSER), ("sign runs collected in a loop", PARSER), ("zero divisor check before num_rational", PARSER), ("peek().unwrap() only after an end check", PARSER)],
     [("depth", "current nesting", PARSER)], ["Obj::from_str", "Obj::from_file", "OverError Display"])

prop("C02", "Writing an object and loading the text gives back an equal object",
     "For every object that loading or the checked constructors can produce with distinct field names, none of them a reserved keyword, and nested within the reader's depth limit, the text it is written as loads again and yields an equal object: same fields in the same order, same values, same types, same chain of parents. Writing that object again produces the identical text, and a file written with it loads to the same object.",
     ["inputs"], "every object over all value kinds, every string content, every number, all nestings, parents at any level",
     "One integration test round-trips ten fixed files; strings, numbers, one-element and empty containers, and parents combine without bound.",
     ["src/parse/format.rs", "src/obj.rs", PARSER, "src/util.rs"],
     [("escaping of written strings", "src/parse/format.rs"), ("n.0 for whole fractions", "src/parse/format.rs"), ("parents written as ^", "src/parse/format.rs")],
     (), ["Obj::write_to_string", "Obj::write_to_file", "Obj::from_str", "Obj::from_file"])

prop("C03", "The printed form of any value is a literal for that same value",
     "Formatting any value, array, tuple or object for display yields text that, used as the value of a field, loads as an equal value of the same type.",
     ["inputs"], "every value of every kind, nested in every way, within the reader's depth limit",
     "No test parses what Display prints; only whole objects are written, and only ten of them.",
     ["src/parse/format.rs", "src/value.rs", "src/arr.rs", "src/tup.rs", "src/obj.rs"],
     [("Display delegates to the full format", "src/value.rs"), ("brackets and braces in full mode", "src/parse/format.rs")],
     (), ["Display of Value, Arr, Tup, Obj", "Obj::from_str"])

prop("C04", "String literals decode to exactly the characters written",
     "A quoted string yields exactly the characters between its quotes, with the escapes \\\\ \\\" \\' \\$ \\n \\r \\t replaced by the character they denote and every other character, including line breaks, comment signs, brackets and any Unicode character, taken verbatim. Any other character after a backslash, and a string that is not closed, is an error.",
     ["inputs"], "every sequence of characters between quotes, at every position a string may occur",
     "The tests contain about fifteen strings; every Unicode character and every adjacency of escapes is possible.",
     [PARSER, "src/parse/util.rs"], [("parse_str escape state", PARSER), ("get_escape_char table", "src/parse/util.rs")],
     (), ["Obj::from_str"])

prop("C05", "Number literals have their exact mathematical value",
     "An integer literal of any length yields exactly that integer, and a decimal literal, with either '.' or ',' as the decimal sign and an optional empty integer or fractional part, yields exactly that fraction in lowest terms and never an integer. Single underscores between digits do not change the value and leading signs apply to it; two adjacent underscores, a second decimal sign, a literal without any digit or any other character inside a number is an error.",
     ["inputs"], "every literal over digits, '.', ',', '_', signs, of any length",
     "Some twenty literals are tested; leading and trailing zeros, underscores, and lengths past the machine word combine freely.",
     [PARSER, "src/parse/util.rs"], [("parse_numeric", PARSER), ("frac_from_whole_and_dec", "src/parse/util.rs")],
     (), ["Obj::from_str", "Value::Int", "Value::Frac"])

prop("C06", "Arithmetic is exact and follows the documented precedence and types",
     "In an expression without spaces, * / and % bind tighter than + and -, operators of equal precedence apply from left to right, and unary signs bind tightest. Results are exact: integers combine to integers except that / always gives a fraction, % is the remainder with the sign of the dividend and only for integers, mixing an integer with a fraction gives a fraction, + also concatenates two strings or two arrays of compatible type; division or remainder by zero and every other combination of operand types is an error.",
     ["inputs"], "every expression over every operator sequence and operands of all types, of any magnitude",
     "About thirty expressions are tested; precedence, associativity and promotion interact across operator sequences and operand types.",
     [PARSER, "src/parse/mod.rs"], [("value and operator deques", PARSER), ("binary_op_on_values", PARSER), ("is_priority", "src/parse/mod.rs")],
     (), ["Obj::from_str"])

prop("C07", "Names resolve only to what is in scope and already defined",
     "A plain name used as a value or inside an array, tuple or include resolves to the field of that name defined earlier in the same innermost enclosing object, and to nothing else: not to later fields, not to fields of outer, inner or sibling objects. A global, once defined anywhere in a file, is visible from there on everywhere in that file, never outside it, never as a field, and is separate from a field of the same name; using an undefined name, or defining a field twice in an object or a global twice in a file, is an error.",
     ["programs"], "every sequence and nesting of field and global definitions and references",
     "Two small fixed files exercise globals and variables; scoping is about all orders and nestings of definitions and uses.",
     [PARSER], [("obj_pairs passed per object", PARSER), ("globals map per file", PARSER), ("duplicate checks", PARSER)],
     [("obj_pairs", "fields of the current object", PARSER), ("globals", "globals of the current file", PARSER)], ["Obj::from_str", "Obj::from_file"])

prop("C08", "Dot notation yields exactly the named field or indexed element",
     "obj.field yields the value that looking the field up in that object gives, inherited fields included, and container.index yields the element at that zero-based position of an array or tuple, where the index is an integer literal or a name of an integer value. A missing field, an index that is negative, not an integer or not below the length, and a dot on any other type of value are errors.",
     ["programs"], "every path over nested objects with parents, arrays and tuples, and every index",
     "About ten fixed paths are tested; existence, inheritance, bounds and value types combine along paths.",
     [PARSER, "src/obj.rs", "src/arr.rs", "src/tup.rs"], [("parse_variable dot handling", PARSER), ("Obj::get", "src/obj.rs"), ("Arr::get and Tup::get bounds checks", "src/arr.rs")],
     (), ["Obj::from_str"])

prop("C09", "A field comes from the object itself or else its nearest ancestor",
     "Looking up a field gives the object's own value if it has one, otherwise that of the nearest ancestor having it, otherwise nothing, and the lookup that also names the source names exactly that object. Length, emptiness, containment, iteration and the field list concern own fields only; a ^ entry sets the parent to the very object given, must be an object, may occur once per object at any place among the fields, and never becomes a field itself.",
     ["programs", "histories"], "every parent chain and every distribution of field names over it, from text or constructors",
     "One test has a chain of three objects built one way; shadowing patterns and positions of ^ are not enumerated.",
     ["src/obj.rs", PARSER, "src/macros.rs"], [("recursive get", "src/obj.rs"), ("parent slot in parse_field_value_pair", PARSER)],
     [("parent", "optional parent object", "src/obj.rs")], ["Obj::get", "Obj::get_with_source", "Obj::get_parent", "Obj::contains", "Obj::len", "Obj::iter"])

prop("C10", "Every array holds one element type, and reports it",
     "However a checked way produces an array - a literal, concatenation, an included file, or the checked constructor - every element's type agrees with the array's reported element type, where an empty array agrees with any array type, and the reported type is the most specific one the elements determine (unknown only where no element determines it). Elements that do not agree are rejected, elements that agree are accepted, the outcome does not depend on which of these ways was used, and element values and order are kept.",
     ["inputs", "programs"], "every sequence of elements of scalar, array, tuple and object types, nested, with empty arrays anywhere",
     "Around twelve arrays with empty sub-arrays are tested; unification over nested partial types has many orders.",
     ["src/arr.rs", "src/types.rs", PARSER], [("incremental most_specific in from_values, parse_arr, parse_arr_file", "src/arr.rs"), ("concatenation type", PARSER)],
     [("inner_t", "element type", "src/arr.rs")], ["Arr::inner_type", "Value::get_type", "Arr::from_values", "Obj::from_str"])

prop("C11", "Types unify by lawful rules",
     "Combining two types yields a result exactly when they are equal up to unknown parts, and the result is the least specific type that fills each side's unknown parts from the other, with the flag telling exactly whether unknown parts remain; the operation is commutative, idempotent, has the unknown type as unit and is associative where defined. Type equality holds exactly when the types can be combined and strict identity holds exactly for structurally identical types; a value's type describes its contents exactly.",
     ["inputs"], "every pair and triple of types up to a nesting bound",
     "One doc example and a handful of comparisons; the laws quantify over all pairs and triples of types.",
     ["src/types.rs", "src/value.rs", "src/tup.rs"], [("Type::most_specific", "src/types.rs"), ("Type eq, is, has_any", "src/types.rs")],
     (), ["Type::most_specific", "Type::has_any", "Type::is", "Type eq", "Value::get_type", "Tup::inner_type_vec"])

prop("C12", "An include yields exactly what its file holds, as the stated type",
     "Including a file as an object, array or tuple yields what its text denotes when read as the body of that container, and including it as a string yields its text verbatim; without a type keyword it is an object. The path is taken relative to the directory of the file containing the include (the working directory for text without a file), names and globals of the including file are not visible in the included one nor the reverse, and a path that is not a regular file, or whose content cannot be read as that type, is an error.",
     ["configurations", "inputs"], "every set of files in nested directories including one another as every type, from every position a value may occur",
     "The tests use one directory and four included files; paths, types, positions and contents multiply.",
     [PARSER, "src/parse/util.rs", "src/parse/char_stream.rs"], [("parse_include path resolution", PARSER), ("parse_obj_file_includes, parse_arr_file, parse_tup_file, parse_str_file", PARSER)],
     [("included", "values of processed includes by type and path", PARSER)], ["Obj::from_file", "Obj::from_str"])

prop("C13", "Circular includes are always rejected, others never",
     "A load fails with an error whenever a file is reached that directly or through other files includes itself, by whatever path spelling or symbolic link and as whatever type, and it always terminates. A set of files without such a circle loads, no matter how often and along how many paths a file is included.",
     ["configurations"], "every include graph over a bounded number of files, all orders of includes, all path spellings",
     "Only a file that includes itself directly is tested.",
     [PARSER], [("set of files being read, keyed by canonical path, entered and left around each include", PARSER)],
     [("included.1", "canonical paths of files being read", PARSER)], ["Obj::from_file"])

prop("C14", "A file included several times is processed once and shared",
     "Within one load, all includes of the same file as the same type, by any path spelling and from any file, yield one shared instance, while including it as different types yields the value for each type. Separate loads share nothing: each reflects the contents of the files at that time, whatever was loaded or failed to load before.",
     ["histories", "configurations"], "every history of loads, file changes and failed loads, and every multiset of includes of the same files",
     "One pointer comparison within one load is tested; no test changes a file between loads.",
     [PARSER], [("included map created per load, keyed by type and canonical path", PARSER)],
     [("included.0", "processed includes", PARSER)], ["Obj::from_file", "ReferenceType::ptr_eq"])

prop("C15", "I/O faults never pass for success",
     "If opening, reading, creating or writing a file fails at any point, the load or write in question returns an error; a load that succeeds has used the complete contents of every file involved, and a write that succeeds has left exactly the written text in the file, replacing whatever it held. Interrupted calls and partial reads or writes by the system do not change any result.",
     ["fault_sequences"], "every system call of a load or write, failing, being interrupted or transferring any partial amount, in every combination up to a bound",
     "Tests run on a healthy file system where every read and write is complete.",
     ["src/util.rs", "src/parse/util.rs", "src/parse/char_stream.rs", "src/error.rs", PARSER], [("write_all after File::create", "src/util.rs"), ("read_to_string", "src/parse/char_stream.rs"), ("? on every io::Result", PARSER)],
     (), ["Obj::from_file", "Obj::write_to_file"])

prop("C16", "Nesting is accepted up to the limit and rejected beyond it",
     "Values nested in up to 63 containers or includes below the top-level object load, whatever mixture of objects, arrays, tuples, parents and includes they are, and one more level is an error stating that the maximum recursion depth was exceeded. The limit concerns nesting alone: neither the number of siblings, fields, elements, operators or signs nor what was closed before has any influence on it.",
     ["inputs", "configurations"], "every mixture of container kinds around the limit, with any preceding siblings",
     "Three fixed deep files are tested, all far beyond the limit and in few mixtures.",
     [PARSER, "src/parse/mod.rs"], [("depth > MAX_DEPTH check in each container parser", PARSER), ("depth + 1 per container", PARSER)],
     [("depth", "current nesting", PARSER)], ["Obj::from_str", "Obj::from_file"])

prop("C17", "A rejected text's error names the file and place of the fault",
     "When a text is rejected, the error message names the line, and except at an unexpected end also the column, of the offending character, name or value, counted from 1 in characters (an offending line break counts as column 0 of the next line). For a file, also an included one, the message starts with the path of the file that contains the fault.",
     ["inputs"], "every text that is one edit away from a valid one, in every file of an include chain",
     "The test of error messages fails at this commit and so gives no signal; where it ran it covered about sixty fixed files.",
     [PARSER, "src/parse/char_stream.rs", "src/parse/error.rs"], [("line and col counters of the character stream", "src/parse/char_stream.rs"), ("stream.file() in every error", PARSER)],
     [("line, col", "position of the next character", "src/parse/char_stream.rs")], ["OverError Display"])

prop("C18", "Every container instance has its own ID, under any interleaving",
     "Any two distinct instances of arrays, tuples and objects ever created in a process have different IDs, no matter how many threads create them, by loading or by construction, and however their steps interleave. An instance's ID never changes and is the same through every clone and every place it is reached from.",
     ["schedules", "histories"], "every interleaving of threads that create containers and load texts",
     "No test starts a thread or looks at an ID.",
     ["src/lib.rs", "src/arr.rs", "src/tup.rs", "src/obj.rs"], [("atomic fetch_add in gen_id", "src/lib.rs"), ("id stored in the shared inner struct", "src/obj.rs")],
     [("CUR_ID", "next ID", "src/lib.rs")], ["ReferenceType::id"])

prop("C19", "Equality follows content and is a lawful equivalence",
     "Two values are equal exactly when they are of the same kind with equal content: numbers by value, strings by characters, arrays and tuples element by element, objects when their own fields agree in order, names and values and their parents are equal or absent on both sides; identity, sharing and IDs play no role. Equality is reflexive, symmetric and transitive, and comparing a value with a native boolean, integer, string, fraction or container gives the same answer as converting that first, in both directions.",
     ["inputs"], "every pair and triple of values up to a bound, every native integer type at its limits",
     "Tests compare equal things they expect to be equal; few unequal pairs, no laws, no limits of integer types.",
     ["src/value.rs", "src/arr.rs", "src/tup.rs", "src/obj.rs"], [("PartialEq impls", "src/value.rs"), ("impl_eq_int", "src/value.rs")],
     (), ["PartialEq of Value, Arr, Tup, Obj"])

prop("C20", "Typed access succeeds exactly on the matching type",
     "Asking a value, or an object's field, for a boolean, integer, fraction, string, array, tuple or object returns exactly the contained data when the value has that type (an integer may also be asked for as a fraction) and otherwise a type-mismatch error naming the expected and the actual type, and a field-not-found error naming the field if neither the object nor an ancestor has it. Element access returns the element below the length and an out-of-bounds error naming the index otherwise, and conversions from native data keep it exactly.",
     ["inputs"], "every accessor on every kind of value, own or inherited, and every index",
     "One mismatch and a few successes are tested out of the accessor by type matrix.",
     ["src/value.rs", "src/obj.rs", "src/arr.rs", "src/tup.rs", "src/error.rs"], [("get_fn macros", "src/value.rs"), ("bounds checks in get", "src/arr.rs")],
     (), ["Value::get_*", "Obj::get_*", "Arr::get", "Tup::get", "From impls"])

prop("C21", "Layout and comments never change what a text means",
     "Between fields, between a colon and its value, between elements and inside brackets, any run of whitespace characters (any Unicode whitespace) and comments from # to the end of the line may be inserted, removed or exchanged for another, as long as tokens that need a separator keep one, without changing the resulting object. A # inside a string is no comment.",
     ["inputs"], "every placement of every separator run in every text up to a bound",
     "One fixed file has comments in a dozen places.",
     [PARSER, "src/parse/util.rs"], [("find_char", PARSER), ("is_whitespace", "src/parse/util.rs")],
     (), ["Obj::from_str"])

prop("C22", "Malformed text is rejected, well-formed text is accepted",
     "A text loads exactly when it is a sequence of fields with values in the documented grammar: brackets balanced and of matching kind, each value followed by whitespace, a comment, an operator, its container's closing bracket or the end, no stray characters, nothing missing. A text that breaks the grammar at one place anywhere is an error, never silently repaired, truncated or partially loaded.",
     ["inputs"], "every text over the structural characters up to a length, and every single edit of valid texts",
     "Tests reject about sixty fixed texts.",
     [PARSER, "src/parse/util.rs"], [("check_value_end", PARSER), ("InvalidClosingBracket checks", PARSER), ("is_value_end_char", "src/parse/util.rs")],
     (), ["Obj::from_str"])

prop("C23", "One rule decides which field names are valid everywhere",
     "A field name is valid exactly if it starts with a letter or underscore and continues with letters, ASCII digits and underscores, letters being alphabetic in the Unicode sense; the validity test, the checked constructor and the reader (where additionally the reserved keywords are refused) all apply this rule, for globals after the @ too. A field with a valid name can be referenced by it and looked up under exactly it.",
     ["inputs"], "every Unicode character at the first and a later position, every short name, every keyword and near-keyword",
     "Five or so names are tested; the rule ranges over all of Unicode.",
     ["src/obj.rs", "src/parse/util.rs", PARSER], [("is_valid_field and is_valid_field_char", "src/obj.rs"), ("is_reserved", "src/parse/util.rs"), ("parse_field", PARSER)],
     (), ["Obj::is_valid_field", "Obj::from_pairs", "Obj::from_str"])

prop("C24", "Containers keep exactly the given contents in the given order",
     "The fields of an object, the elements of an array and those of a tuple are exactly those written or given, each once and in that order, under every way of seeing them: length, emptiness, indexing, lookup, iteration, the visiting function, the raw list, and the written text. This holds for any number of them.",
     ["inputs", "histories"], "every number of fields and elements up to a bound and every order, from text and constructors, through every accessor",
     "Tests look at containers of at most fifteen entries through one accessor each.",
     ["src/obj.rs", "src/arr.rs", "src/tup.rs", PARSER, "src/macros.rs"], [("Vec storage", "src/obj.rs"), ("push in parse loops", PARSER)],
     [("pairs, values", "contents", "src/obj.rs")], ["len", "is_empty", "get", "iter", "with_each", "values_ref", "pairs_ref"])

prop("C25", "Concurrent use gives the results of sequential use",
     "Threads that load texts or files, read, compare, print, clone and drop shared values obtain the results each would obtain alone, under every interleaving; no interleaving deadlocks, crashes or leaves shared values altered.",
     ["schedules"], "every interleaving, up to the order of independent steps, of small programs of two to four threads loading and using shared values",
     "No test starts a thread.",
     ["src/lib.rs", PARSER, "src/obj.rs", "src/arr.rs", "src/tup.rs"], [("immutable data behind Arc", "src/obj.rs"), ("per-load parser state", PARSER), ("lazily built include keyword markers", PARSER)],
     [("OBJ_SENTINEL and the like", "lazily built globals", PARSER)], ["Obj::from_str", "Obj::from_file", "Obj::get"])

prop("C26", "Clones and references share one immutable instance, counted exactly",
     "Cloning a container, getting it out of another, or referring to it by a name in a text yields the same instance, not a copy: pointer equality holds exactly between handles of one instance, and its reference count is at every moment the number of live handles and containers holding it. Whatever is created, combined or dropped elsewhere, what an existing handle shows never changes.",
     ["histories"], "every sequence of create, clone, nest, get, load and drop operations up to a depth",
     "Tests check five reference counts at fixed points.",
     ["src/obj.rs", "src/arr.rs", "src/tup.rs", "src/lib.rs", PARSER], [("Arc inner", "src/obj.rs"), ("Value clone", "src/value.rs")],
     [("inner", "shared instance", "src/arr.rs")], ["ReferenceType::ptr_eq", "ReferenceType::num_references", "ReferenceType::id"])

prop("C27", "Finished loads and writes leave nothing behind",
     "Once a load or a write has ended, in success or in error and whatever the system answered, no file it opened is still open, no file other than the target of a write has been created, changed or removed, the working directory is as before and an object that was written is unchanged. Once the last handle to what was loaded or constructed is gone, its memory is freed, so that any operation can be repeated without limit.",
     ["histories", "inputs", "fault_sequences"], "every text, layout of files, sequence of operations and fault, each repeated",
     "The tests run each operation once and look only at its result.",
     [PARSER, "src/parse/char_stream.rs", "src/parse/util.rs", "src/util.rs", "src/obj.rs", "src/arr.rs", "src/tup.rs"],
     [("files are opened in a function's scope", "src/parse/char_stream.rs"), ("the stream owns the text it iterates over", "src/parse/char_stream.rs"), ("reference counting without cycles", "src/obj.rs")],
     [("contents", "text of the file being read", "src/parse/char_stream.rs")], ["open descriptors", "directory contents", "allocated memory"])

prop("C28", "An operation's outcome depends on its inputs alone",
     "Loading a text or file, writing, constructing, looking up, comparing and printing give the same value, text or error message whenever they are given the same inputs and the same files. Nothing done before in the process has any influence on it, be it successful or failed operations of any kind, in any order and number, with their results kept or dropped, nor has what surrounds it, such as environment variables, the time, random numbers or the thread; only IDs differ.",
     ["histories"], "every sequence of earlier operations, every operation after it",
     "The tests run in separate threads of one process, in no fixed order, and never compare an outcome with that of another history.",
     [PARSER, "src/parse/char_stream.rs", "src/lib.rs", "src/obj.rs", "src/util.rs"],
     [("includes and globals are kept per load", PARSER), ("no state shared between loads but the ID counter and sentinels", "src/lib.rs")],
     [("OBJ_SENTINEL", "process-wide objects standing for include keywords", PARSER)], ["Obj::from_str", "Obj::from_file", "Display", "OverError Display"])

prop("C29", "An error says what is wrong",
     "The message of an error states the fault that is there, in the same words for every fault of its kind, and names exactly what it is about: the character, name, path, index, operator or bracket as written, and the types of the operands or elements involved, in their order. So two faults of one kind differ in their messages only by these and the place, and an error value returned by a constructor or getter carries, and displays, the wanted and the actual type, the missing field's name or the index.",
     ["inputs"], "every faulty text, file and set of files; every call of a constructor or getter that fails",
     "The tests assert that some texts fail and ignore all but a few messages; operators, types, names, characters and indices combine without bound.",
     ["src/parse/error.rs", "src/error.rs", PARSER, "src/types.rs", "src/arr.rs", "src/value.rs"],
     [("Display of each kind of parse error", "src/parse/error.rs"), ("OverError messages", "src/error.rs"), ("the arguments each error is built with", PARSER)],
     (), ["OverError Display", "Obj::from_str", "Obj::from_file", "Arr::from_values", "Value::get_int and its kin"])

prop("C30", "A file and a string with the same text load and are written alike",
     "Loading a file gives what loading its content as a string gives, with the same values, types, order, names and parents, or fails with the same error, which for a file additionally names the file; however the path is spelled. Writing an object to a file leaves exactly the characters there that writing it to a string gives. No character, line ending, byte order mark, length or last line of a file is treated differently, and nothing is added, dropped or replaced.",
     ["inputs"], "every text, in a file by any spelling of its path, and as a string",
     "The fixtures are loaded as files and other texts as strings; no test loads one text both ways.",
     ["src/parse/char_stream.rs", "src/parse/mod.rs", "src/obj.rs", "src/util.rs"],
     [("CharStream::from_file and from_string share what follows", "src/parse/char_stream.rs"), ("write_to_file writes what write_to_string returns", "src/obj.rs")],
     (), ["Obj::from_str", "Obj::from_file", "Obj::write_to_string", "Obj::write_to_file"])

prop("C31", "The same value text means the same value wherever it stands",
     "A text that is a value of a field is the same value, of the same type, wherever a value may stand and the names in it are in scope: as the value of any field, element of an array or tuple at any depth and position, field of a nested object or a parent, value of a global, in an included file of any type, whatever precedes or follows it, and when reached through a name, an index or a chain of dots.",
     ["inputs"], "every text of a value, every place of a text or included file a value may stand in",
     "Each kind of literal and expression is tested in one or two places, mostly as a field.",
     [PARSER, "src/parse/util.rs"],
     [("parse_value is shared by fields, elements, parents and includes", PARSER), ("parse_arr_file, parse_tup_file", PARSER)],
     (), ["Obj::from_str", "Obj::from_file", "Obj::get", "Arr::get", "Tup::get"])

prop("C32", "Which names are chosen makes no difference",
     "Replacing the names of a text by other valid names, consistently and so that different names remain different, changes nothing but the names: the text is accepted or rejected as before, and yields the same fields, in the same order, with the same values, found under the new names. No name but the documented keywords has a meaning, whatever its length, script, case, or likeness to a keyword, a number or another name.",
     ["inputs"], "every text, every injective renaming to valid names",
     "Tests use some forty short names; what a name means cannot be told from one choice of names.",
     [PARSER, "src/parse/util.rs", "src/obj.rs"],
     [("is_reserved, is_valid_field_name", "src/parse/util.rs"), ("globals and fields are looked up by the whole name", PARSER)],
     (), ["Obj::from_str", "Obj::get", "Obj::contains"])

prop("C33", "A value built in code is the value loaded from its text",
     "A value built in code - by conversion from any native type, by the macros however nested and with any number of items, or by the constructors - and the value loaded from the text that writes the same contents are interchangeable: equal in both directions, of the same type, with the same fields, elements and parent, printing the same, agreeing as elements of one array, and equal to exactly the native values that have the same type and content. Contents that a text may not have (elements that do not agree, a parent that is no object) cannot be built by the checked ways either. Each macro works in every place an expression may stand, imported alone, by path or with all others.",
     ["inputs"], "every value, every native value and type, every nest of macro calls and every place one may stand in",
     "The tests build expected values with some macros and compare them with a few fixtures.",
     ["src/macros.rs", "src/value.rs", "src/arr.rs", "src/tup.rs", "src/obj.rs"],
     [("impl_from, impl_eq, impl_eq_int", "src/value.rs"), ("arr!, try_arr!, tup!, obj!, try_obj!", "src/macros.rs"), ("from_values and the reader's array types", "src/arr.rs")],
     (), ["arr!", "tup!", "obj!", "try_arr!", "try_obj!", "int!", "frac!", "Value::from", "Arr::from_values", "Tup::from_values", "Obj::from_pairs"])

prop("C34", "A name stands for the value it was given, everywhere",
     "Replacing a literal value anywhere in a text - as a field, element, operand of any operator, parent, index, or part of a larger value - by a name in scope that was given this value (a field, a global, a path through objects, parents, arrays and tuples by constant or variable index, a name for a name) changes nothing: the text is accepted exactly if it was, with the same values and types, or fails for the same reason. Likewise a literal may replace a name.",
     ["inputs"], "every value, every way to name it, every place of a text it may stand in",
     "Tests use names in a few places and never compare with the literal.",
     [PARSER, "src/parse/util.rs"],
     [("parse_variable and parse_value give the same Value", PARSER), ("binary_op_on_values, unary_op_on_value", PARSER), ("get_dot indexes by literal or by name", PARSER)],
     (), ["Obj::from_str", "Obj::get"])

prop("C35", "What follows in a text never changes what came before",
     "Texts with different names compose: if two texts load, their concatenation (with whitespace between them) loads in either order, with the fields of the first followed by those of the second, each with the value it has alone; this holds for any number of texts. A fault in a text is reported in the same words at the same place whatever follows it, and the same number of lines further down whatever sound text precedes it.",
     ["inputs"], "all texts, all that may follow or precede them, any number of them",
     "Each test loads one text as it is.",
     [PARSER, "src/parse/char_stream.rs"],
     [("parse_obj_file: one loop, fields appended in order", PARSER), ("position of each character", "src/parse/char_stream.rs")],
     (), ["Obj::from_str"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
