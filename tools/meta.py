"""Writes properties.jsonl and MANIFEST.json from the table below.

usage: python3 tools/meta.py   (a property is claimed when its check exists)
"""

import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = "pyclibrary/c_parser.py"
L = "pyclibrary/c_library.py"
B = "pyclibrary/backends/ctypes.py"
U = "pyclibrary/utils.py"
I = "pyclibrary/init.py"


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         level="exploration"):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, technique=technique, note=note, level=level)


PROPS = [
    prop(
        "C01", "Comments, line splices and layout never change what is found",
        "Rewriting a header by adding, removing or changing comments, continuing lines "
        "with a backslash, or changing the blanks and line breaks between tokens changes "
        "nothing in the definitions reported. Text inside strings and character "
        "constants is never taken for a comment, and nothing written in a comment is "
        "ever reported.",
        ["inputs", "programs"], "every header and every layout of its tokens",
        "The tests parse one comment file and compare it to a stored text; they cannot "
        "try the layouts of arbitrary declarations and directives.",
        [P], [("remove_comments", P), ("preprocess", P)],
        "metamorphic runtime monitor: two layouts of the same tokens must be reported alike",
        "Generated headers, relaid out with comments, splices and blanks; the monitor "
        "compares complete definition snapshots.",
    ),
    prop(
        "C02", "Conditional sections are the ones a C compiler keeps",
        "The definitions reported are those of the sections a C compiler keeps for the "
        "same macros, for any nesting of #if, #ifdef, #ifndef, #elif, #else and #endif. "
        "A directive in a skipped section has no effect (no macro defined or undefined, "
        "no packing changed), and exactly one branch at most of each group is kept.",
        ["inputs", "programs"], "every nesting of conditionals and macro state",
        "The tests cover a handful of fixed conditions; the nesting and the state of "
        "the macros at each directive form an unbounded space.",
        [P], [("preprocess (if_true/if_hit)", P), ("eval_preprocessor_expr", P)],
        "differential runtime monitor against gcc -E on generated histories of directives",
        "gcc is the reference; operators whose precedence differs between C and Python "
        "are excluded (listed findings).",
    ),
    prop(
        "C03", "At each point of a file a macro has its value of that moment",
        "After any sequence of #define, redefinition and #undef, each use of a name is "
        "replaced according to the definitions in force at that line, and the macros and "
        "values reported at the end are those still defined, none of the others. A name "
        "is only replaced as a whole identifier, outside strings, character constants and "
        "comments.",
        ["histories", "inputs"], "every history of macro directives and uses",
        "Tests look at a few macros once; stale values only show for some orders of "
        "definition, redefinition, removal and use.",
        [P], [("process_macro_defn", P), ("expand_macros", P), ("rem_def", P)],
        "history monitor: online model of the macro table plus gcc -E as reference",
        "Chains of macros naming later macros are excluded (listed finding).",
    ),
    prop(
        "C04", "Constants have the value a C compiler computes",
        "The value reported for a macro, an enumerator, a variable or an array size is "
        "the one C gives to the expression: all forms of integers and floating numbers "
        "with their suffixes, characters, strings, casts, arithmetic and bitwise operators, and names "
        "of constants defined before. What has no constant value is reported without "
        "value; evaluating never runs anything else than the expression.",
        ["inputs"], "every constant expression of the supported operators",
        "The tests evaluate about thirty literals; the number forms, suffixes, signs, "
        "operators and operands combine without bound.",
        [P], [("eval_expr/eval", P), ("number grammar", P)],
        "differential runtime monitor: values computed by a compiled C program",
        "gcc is the reference; boolean operators excluded (listed finding).",
    ),
    prop(
        "C05", "Function-like macros expand like the C preprocessor expands them",
        "A call of a function-like macro is replaced by its body with every parameter, "
        "and nothing else, replaced by the matching argument, whatever parentheses, "
        "commas, strings, braces or other macro calls the body and the arguments hold. A "
        "name not followed by an argument list, or which only contains the name of the "
        "macro, is left alone.",
        ["inputs", "programs"], "every macro body and list of arguments",
        "The tests expand six macros; argument splitting, nesting and quoting combine "
        "freely.",
        [P], [("compile_fn_macro", P), ("expand_fn_macro", P), ("expand_macros", P)],
        "differential runtime monitor: declarations after expansion against gcc -E",
        "gcc is the reference; calls on one line, no # and ## operators.",
    ),
    prop(
        "C06", "Declarators are read like C reads them",
        "For every variable, typedef, prototype or function definition made of pointers, "
        "arrays, functions and parentheses in any combination, the type reported is the C "
        "type, each derivation in its order, with the parameter names and types. Each "
        "declared name is reported once, under the right kind, and nothing else is.",
        ["inputs", "programs"], "every nesting of declarators",
        "The tests hold some forty declarations; declarators nest recursively and the "
        "order of derivation only shows in nestings.",
        [P], [("process_declarator/process_type", P), ("declarator grammar", P),
              ("_derive", P)],
        "reference-model runtime monitor on generated declarations",
        "The model writes each type tree as C and says what must be reported; C18 to C20 "
        "check the same trees against compiled code.",
    ),
    prop(
        "C07", "Qualifiers stay at their level; compiler words leave no trace",
        "Each const, volatile, restrict, near or far is reported at the level of the type "
        "it qualifies and in the order written, and changes nothing else in the type. "
        "Storage classes and compiler words (__name, with or without arguments) have no "
        "effect on what is reported, and a calling convention is reported where it is "
        "written.",
        ["inputs", "programs"], "every placement of qualifiers, storage classes and words",
        "The tests place qualifiers in a few declarations; positions multiply with the "
        "declarators.",
        [P], [("type_qualifier, call_conv, storage_class_spec", P), ("process_type", P)],
        "reference-model runtime monitor on generated declarations",
        "Placement of qualifiers after the base type is only explored for single "
        "declarators.",
    ),
    prop(
        "C08", "Structures and unions have the members written, in order",
        "For every structure or union, named or not, nested, recursive or mentioned "
        "before and after its definition, the members reported are those written, in "
        "order, with their names, types, default values and bit widths. Unnamed "
        "structures are each given a name of their own which leads to their members.",
        ["inputs", "histories"], "every body, nesting and order of mentions",
        "The tests define a dozen structures; nesting, bit-field lists and the order of "
        "mentions and definitions are unbounded.",
        [P], [("process_struct", P), ("struct_member grammar", P)],
        "reference-model runtime monitor on generated structures",
        "Members are reached through the reported types, as a user does.",
    ),
    prop(
        "C09", "#pragma pack applies to exactly the structures it covers",
        "The packing reported for each structure or union is the one in force where it is "
        "written after all the #pragma pack directives before it in the same file (push, "
        "pop, names, values, default). Directives in skipped sections, blank, continued "
        "or comment lines, and other files do not change it.",
        ["histories", "inputs"], "every history of pack directives and structures",
        "The tests contain one sequence of directives and two packed structures.",
        [P], [("preprocess (pragma)", P), ("packing_at", P)],
        "history monitor: model of the pack stack, cross-checked with clang's layout",
        "Pushing over a bare pack(n) is excluded (listed finding).",
    ),
    prop(
        "C10", "Enumerators have their C values",
        "Each enumerator of each enumeration, tagged or not, has the value C gives to it, "
        "explicit or implicit, both in its enumeration and among the values. An "
        "enumeration holds exactly its own enumerators and later mentions of its tag "
        "change nothing.",
        ["inputs", "histories"], "every list of enumerators and expressions",
        "The tests have three enumerations.",
        [P], [("process_enum", P)],
        "differential runtime monitor: values read from gcc's output",
        "gcc is the reference; boolean operators excluded.",
    ),
    prop(
        "C11", "Type names resolve to the type they stand for",
        "Resolving any type built on typedef names gives the fundamental, structure, "
        "union or enum type with all derivations and qualifiers applied in the C order, "
        "whatever the length of the chain and the order of the definitions. Loops and "
        "unknown names are refused with a definition error, and resolving changes no "
        "definition.",
        ["inputs", "programs"], "every graph of typedefs",
        "The tests resolve ten types; arrays of arrays, chains and loops compose.",
        [P], [("Type.eval/eval_type", P), ("is_fund_type", P), ("_derive", P)],
        "reference-model runtime monitor on random typedef graphs",
        "Qualifiers of array typedefs are not compared.",
    ),
    prop(
        "C12", "Unsupported or damaged code is skipped without losing the rest",
        "Parsing ends without an error whatever the text of the headers is. Constructs "
        "which are not supported, or a file cut short, do not change what is reported for "
        "the complete declarations around them, nor for files parsed later.",
        ["inputs", "fault_sequences"], "every text, cut or alteration",
        "The tests parse well-formed headers only.",
        [P], [("parse_defs (scanString)", P), ("preprocess", P)],
        "fault-injection runtime monitor: foreign constructs, cuts and alterations",
        "Foreign constructs come from a list; alterations are random.",
    ),
    prop(
        "C13", "Several files compose, and each definition belongs to its file",
        "Files given together are read in order as one program: each sees the macros, "
        "constants and types of the previous ones, and the overall definitions are the "
        "union of those of the files, the last definition of a name being kept. Each "
        "definition is attributed to the file which holds it, and searching a name finds "
        "exactly the files and kinds which define it.",
        ["programs", "configurations"], "every split of definitions over files",
        "The tests load the files one by one.",
        [P], [("add_def/file_defs", P), ("find", P), ("load_file", P)],
        "metamorphic runtime monitor: one file against the same text split in several",
        "File names are distinct (two files of the same base name share their entry).",
    ),
    prop(
        "C14", "Parsers start from what they are given and share nothing",
        "A parser given definitions as options or copied from other parsers sees them as "
        "if they had been read first, and reports them with its own. Nothing done with a "
        "parser changes another one, the ones it copied from, or the objects given by "
        "the caller.",
        ["histories", "configurations"], "every sequence of creations and copies",
        "The tests copy one parser once and never look at the original again.",
        [P], [("__init__/import_dict", P)],
        "history monitor: snapshots of all live parsers after each step",
        "Definition values themselves may be shared as long as none is modified.",
    ),
    prop(
        "C15", "A cache gives back exactly what parsing gives",
        "Loading a valid cache reports the same definitions, overall and by file, as "
        "parsing the files again, including types, qualifiers, packings and values, and "
        "whether or not the files can still be found. Creating, loading and reloading a "
        "cache any number of times changes nothing in what is reported.",
        ["inputs", "histories"], "every header and number of reloads",
        "The tests cache one small header and look at a few names.",
        [P], [("write_cache/load_cache", P), ("Type.__getnewargs__", P)],
        "metamorphic runtime monitor with a read log: cached against fresh snapshots",
        "Options whose macros are undefined by the header are excluded (listed finding).",
    ),
    prop(
        "C16", "A stale, foreign or damaged cache is never used",
        "If a header changed after the cache was written, or any option (files, "
        "replacements, start definitions, copied parsers, encoding) differs, the headers "
        "are parsed again and the result is the one of parsing. A cache file which is "
        "truncated, unreadable or of an older format never makes parsing fail nor leaves "
        "its content in the result, and it is written anew.",
        ["crash_points", "fault_sequences", "configurations"],
        "every truncation point, alteration and change of option or file time",
        "The tests change two options and one file time; they never damage a cache.",
        [P], [("load_cache", P), ("process_all", P), ("init_opts", P)],
        "fault-injection runtime monitor: every truncation length of a cache, and changes "
        "of options and times",
        "Every byte length of small caches is cut; the rest is sampled.",
        "fault_enumeration",
    ),
    prop(
        "C17", "Replacements and encodings apply to the text read, never to the files",
        "The definitions reported are those of the text decoded with the requested "
        "encoding with the requested replacements applied in order. The header files "
        "themselves are never modified, and with processing deferred nothing is reported "
        "until it is asked for, then exactly what immediate processing reports.",
        ["inputs", "configurations"], "every text, encoding and replacement",
        "The tests replace one word in one file.",
        [P], [("load_file", P), ("process_all", P)],
        "metamorphic runtime monitor with file-access watch",
        "Encodings of the Python codec registry that round-trip the text.",
    ),
    prop(
        "C18", "Structures have the memory layout of the compiler",
        "For every structure or union built from a header, its size, the offset and size "
        "of each member, and the bits of each bit field are those the C compiler uses, "
        "with the packing in force. Reading and writing a member from Python or from C "
        "gives the same value.",
        ["inputs", "programs"], "every structure definition and packing",
        "The tests bind two structures of the test library.",
        [B, P], [("_get_struct", B), ("_get_type", B), ("process_struct", P)],
        "differential runtime monitor: layouts and member values exchanged with compiled C",
        "gcc on this machine; bit-field types and packings ctypes supports.",
    ),
    prop(
        "C19", "Scalars pass to and from C unchanged",
        "A value of any fundamental type, enum or typedef of them given to a function "
        "reaches C as this value, and the value returned by C is the one the call "
        "returns, for every spelling of the type and at the limits of its range. The "
        "same holds for pointers to them, strings, structures and arrays.",
        ["inputs"], "every type spelling, signature and value",
        "The tests call a few functions with small integers.",
        [B, L], [("_get_type/_types_", B), ("CFunction.__call__", L),
                 ("_init_function", B)],
        "differential runtime monitor: compiled functions record the bytes they receive",
        "gcc on this machine.",
    ),
    prop(
        "C20", "Omitted pointers become fresh outputs; no memory error in any call",
        "A pointer argument left out is replaced by new, zeroed storage of the pointed "
        "type which C may fill, and what C wrote is given back by index, by name and "
        "with all the automatic values in order; None passes NULL. No call reads or "
        "writes outside the objects it was given, and results of different calls never "
        "share their storage.",
        ["inputs", "histories"], "every signature, choice of omitted arguments and history",
        "The tests omit the arguments of two functions, without memory checking.",
        [L, B], [("CFunction.__call__", L), ("_get_pointer", B), ("CallResult", L)],
        "AddressSanitizer-built libraries under generated calls, plus a value monitor",
        "The library is instrumented and malloc intercepted; Python objects live in "
        "malloc blocks.",
    ),
    prop(
        "C21", "Arguments reach the parameters they are meant for, or nothing is called",
        "Arguments given by position or by name reach the parameter of that position or "
        "name, whatever the order of the names, and its type, value and result are found "
        "under that position and name. A missing argument which cannot be made "
        "up, an unknown name or a value of a wrong kind is refused with an error and the "
        "C function is not called.",
        ["inputs"], "every signature and way of giving the arguments",
        "The tests try three calls.",
        [L], [("CFunction.__call__", L)],
        "call monitor: a compiled library logs every call and the arguments received",
        "Errors are told by the type of exception only.",
    ),
    prop(
        "C22", "With locked calls, no two calls into the library overlap",
        "When a library is opened with locked calls, at most one thread is executing one "
        "of its functions at any time, for every schedule of the threads and whatever "
        "functions they call, and a thread may call again from a callback without "
        "blocking. A call which fails releases the library, and without the option calls "
        "are not serialised.",
        ["schedules", "fault_sequences"], "every interleaving of calling threads",
        "No test uses threads.",
        [L], [("CFunction.__call__", L), ("CLibrary.__init__ (lock)", L)],
        "concurrency monitor: overlap counters inside the C functions under injected "
        "delays; watchdog for deadlocks",
        "Schedules are sampled under stress and delays.",
    ),
    prop(
        "C23", "Names resolve to the same object whatever the way they are asked",
        "A definition can be reached as an attribute (first match among values, "
        "functions, types, structures, unions and enums) or by kind and name, with or "
        "without one of the declared prefixes, and each definition always gives the same "
        "object, of the right kind. The exact name wins over a prefixed one, and unknown "
        "names are refused.",
        ["inputs", "histories"], "every set of names and prefixes and order of accesses",
        "The tests look at a few names of one library in a fixed order.",
        [L], [("__getattr__/__call__", L), ("_make_obj_/_all_names_", L)],
        "history monitor: model of the name table under random access orders",
        "Names colliding with attributes of the wrapper itself are excluded.",
    ),
    prop(
        "C24", "One wrapper per library file, for as long as it is used",
        "Opening a library again while it is in use gives the same wrapper, whatever the "
        "way the file is named (path, link, relative path, name found by search, library "
        "object), and distinct files give distinct wrappers. Once no longer used it is "
        "forgotten, and opening it again uses the new headers and options; a failed "
        "opening leaves nothing behind, and threads opening it at once share one wrapper.",
        ["histories", "configurations", "schedules"], "every history of openings and releases",
        "The tests open the same library twice.",
        [L, U], [("CLibraryMeta.__call__", L), ("find_library", U),
                 ("get_library_path", B)],
        "history monitor: model of the open libraries, weak references and collections",
        "Weak references tell what is still used.",
    ),
    prop(
        "C25", "Binding is deterministic and never changes the definitions",
        "The types, structures and functions obtained from a library are equivalent "
        "whatever was asked before, in whatever order and by whatever threads, and asking "
        "for the same thing twice gives the same result. Using a library never modifies the definitions of "
        "the parser, so that it can be used again, cached or shared between libraries. "
        "A library given header files holds what a parser given the same files and "
        "options does.",
        ["histories", "schedules"], "every order of accesses and calls, by any threads",
        "The tests access each object once, from a fresh library.",
        [B, L], [("_get_type/_get_struct", B), ("CFunction.__init__", L)],
        "metamorphic runtime monitor: access orders compared, definitions snapshotted",
        "Classes are compared by structure (size, fields, offsets).",
    ),
    prop(
        "C26", "Arrays and casts have the requested shape, content and address",
        "An array built for a library has the requested element type and dimensions, in "
        "C order, filled with the given values or zeroes, shares no memory with another "
        "one and can be passed to its functions, while more values than elements, bad "
        "sizes and unknown types are refused. A cast object has the requested type and "
        "the same address, so that both see the same memory, which it keeps.",
        ["inputs"], "every element type, shape and content",
        "The tests build three arrays.",
        [B, L], [("_get_array/_cast_to", B), ("build_array/cast_to", L)],
        "reference-model runtime monitor, with C functions reading the memory",
        "gcc on this machine.",
    ),
    prop(
        "C27", "Function pointers call back with the right values",
        "A Python function wrapped with a function-pointer type of the headers can be "
        "passed to C, stored in structures and arrays and called by C any number of "
        "times; it receives exactly the values C passes and C gets exactly the value it "
        "returns. A function pointer returned by C can be called from Python in the same "
        "way.",
        ["inputs", "histories"], "every function-pointer signature and values",
        "One callback type is bound in the tests.",
        [B], [("_get_type (function pointers)", B)],
        "differential runtime monitor: compiled C calls back and records",
        "gcc on this machine, cdecl convention.",
    ),
    prop(
        "C28", "Headers and libraries are found where they should, or refused",
        "A header or library is searched by its name in the directories given, then in the ones "
        "added by the user, last added first, then in the standard ones, and the first "
        "existing file is used; nothing is found means an error. The lists given by the "
        "caller are never modified, and a library of another bitness than Python is "
        "refused before it is loaded.",
        ["configurations", "histories"], "every arrangement of directories and files",
        "The tests use one directory each.",
        [U, L], [("find_header/find_library", U), ("add_*_locations", U),
                 ("get_arch/LibraryPath", U), ("CLibraryMeta.__call__", L)],
        "reference-model runtime monitor over random directory trees",
        "Linux search rules; ELF files.",
    ),
    prop(
        "C29", "Initialisation happens once and its types and modifiers are honoured",
        "The extra types and modifiers given at initialisation are understood in all "
        "declarations parsed afterwards, types being bound to the given C types and "
        "modifiers leaving no trace. Initialising again is refused and changes nothing, "
        "and creating a parser first, from any thread, initialises with the defaults.",
        ["histories", "configurations", "schedules"], "every set of extra types and modifiers, and order",
        "The tests initialise twice and read module variables.",
        [I, P, B], [("init/auto_init", I), ("_init_cparser", P), ("init_clibrary", B)],
        "history monitor in fresh processes",
        "Each case runs in its own interpreter.",
    ),
    prop(
        "C30", "Type descriptions compare, print, copy and convert faithfully",
        "Two descriptions are equal exactly when base type, derivations and qualifiers "
        "are equal, pickling, copying and evaluating their printed form give an equal "
        "description, and adding then removing the function form gives the original "
        "back. The same holds for structures, unions and enumerations.",
        ["inputs"], "every type description",
        "The tests try a few descriptions.",
        [P], [("Type", P), ("Compound/Struct/Union/Enum", P)],
        "reference-model runtime monitor on random descriptions",
        "Descriptions of the shapes the parser makes.",
    ),
    prop(
        "C31", "What is asked of a parser tells what it holds, without changing it",
        "The unparsed text returned for each file holds every construct which gave no "
        "definition and none of the declarations which did; searching a text finds "
        "exactly the lines of the files containing it, and a name or pattern its "
        "definitions. Printing a parser, or one file, "
        "shows every definition of every kind in a form which evaluates back to it, and "
        "none of these requests changes the definitions.",
        ["inputs", "programs"], "every header, supported or not, and every text searched",
        "The tests hardly look at what is printed, and never at the unparsed text.",
        [P], [("parse_defs(return_unparsed)", P), ("find_text", P),
              ("print_all/_format_parsed_file", P)],
        "round-trip runtime monitor of the printed, searched and unparsed texts",
        "Generated headers with unsupported constructs between the declarations.",
    ),
    prop(
        "C32", "Parsers working at the same time give what they give alone",
        "Parsers made and used at the same time by several threads, of different headers "
        "and options, report the definitions and answers they report when they are alone. "
        "Threads and processes which share a cache file only ever get from it what "
        "parsing their own headers with their own options gives.",
        ["schedules", "inputs"],
        "every schedule of several parsers, and every order of writes and reads of a cache",
        "The tests never use two parsers at the same time.",
        [P], [("parse_defs/build_parser", P), ("write_cache/load_cache", P),
              ("_init_parser", I)],
        "concurrent stress with a schedule monitor and a sequential reference",
        "Schedules perturbed by tiny switch intervals and delays injected at random lines.",
    ),
]


def main():
    claimed = []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            json.dump(
                {
                    "id": p["id"],
                    "title": p["title"],
                    "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["text"]},
                    "why_tests_cant": p["why"],
                    "anchors": {
                        "files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    },
                },
                f,
            )
            f.write("\n")
            if os.path.exists(
                os.path.join(HERE, "vf", "checks", p["id"].lower() + ".py")
            ):
                claimed.append(p)
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "./run.sh %s quick" % p["id"],
                "thorough_cmd": "./run.sh %s thorough" % p["id"],
                "technique": p["technique"],
                "level": p["level"],
                "level_note": p["note"],
            }
            for p in claimed
        ],
        "not_applicable": [
            {"property": p["id"], "reason": "the check is not built yet"}
            for p in PROPS
            if p not in claimed
        ],
        "notes": "No hook is needed in /repo: the monitors observe the public API, the "
        "files and the compiled libraries the code under test calls.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
