#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
YT, SER, XP, BASE, PLUG = (
    "pyangbind/lib/yangtypes.py", "pyangbind/lib/serialise.py", "pyangbind/lib/xpathhelper.py", "pyangbind/lib/base.py", "pyangbind/plugin/pybind.py",
)
JS, PB = "pyangbind/lib/pybindJSON.py", "pyangbind/lib/serialise.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, na=na))


DYN = ("dynamic class wrapping every node", YT + " YANGDynClass")
RC = ("restriction tests of a derived type", YT + " RestrictedClassType")
TL = ("leaf-list container", YT + " TypedListType")
LST = ("list container", YT + " YANGListType")
BE = ("YANG type to Python type expression", PLUG + " build_elemtype")
GC = ("class emission: getters, setters, unsetters, constructor", PLUG + " get_children")
EX = "explicit-state model checking: exhaustive enumeration of (type, value, context, prior state) on the real generated bindings against an RFC 7950 reference model"
BFS = "explicit-state model checking: breadth-first search over operation histories, each replayed on the real bindings in lockstep with a reference model"

prop("T01", "Integer leaves accept exactly their value space",
     "A leaf, leaf-list entry, list key or union member of an integer type takes exactly the integers of its built-in width that lie inside every range restriction on its derivation chain, holds the integer that was given, and refuses everything else with an error."
     " A refused value leaves the previous value in place.",
     ["inputs", "programs"], "every integer type and derivation chain, every input value, every place a type can appear",
     "the suite tries a few values per width; range ends, multi-part ranges and typedef chains are an unbounded space of types times values",
     [YT, PLUG], [RC, BE], technique=EX,
     note="8 widths x range shapes x typedef chains, all boundary values +-1; the value alphabet is finite, integers between boundaries are represented by the boundary neighbours")
prop("T02", "String leaves apply every length and pattern of their type",
     "A string leaf takes exactly the strings whose length lies in every length restriction and which match, as a whole, every pattern (and no inverted pattern) on its derivation chain, and refuses all others with an error leaving the old value in place.",
     ["inputs", "programs"], "every string type (lengths, patterns, chains) and every string",
     "the suite checks some strings against single restrictions; restrictions combine over typedef chains and anchoring depends on the exact pattern and string",
     [YT, PLUG], [RC, BE], technique=EX, note="25 patterns, 8 lengths, combinations and typedef chains up to 4; every string of a 9-letter alphabet up to length 2 and of a smaller one up to 3 (thorough: 3 and 4)")
prop("T03", "Enumeration, bits, boolean, empty, binary take exactly their vocabulary",
     "Leaves of type enumeration, bits, boolean, empty and binary accept exactly the declared names, bit sets, truth values or octet strings, refuse near misses with an error, and keep the value in canonical form: bits ordered by position, enumeration values numbered as the standard assigns them, binary equal to the decoded octets.",
     ["inputs", "programs", "histories"], "every declared vocabulary, every input, every sequence of in-place bit operations",
     "the suite uses one enumeration, one bits type and one binary; numbering, ordering and near misses depend on the declaration",
     [YT, PLUG], [RC, ("bits set", YT + " YANGBitsType"), ("boolean and bitarray", YT + " YANGBool"), BE], technique=EX, note="9 enumerations, 6 bits types, 5 binary types and typedefs, near-miss alphabet; op sequences of length 3 (4 thorough) on bits")
prop("T04", "decimal64 leaves keep exactly their fraction digits and ranges",
     "A decimal64 leaf accepts exactly the decimals that are representable with its fraction-digits in 64 bits and lie in every range restriction on its chain, stores them without loss, and refuses the rest with an error leaving the old value in place.",
     ["inputs", "programs"], "every fraction-digits 1..18, range chain and decimal value", "the suite tries a handful of decimals with two fraction-digits settings; range ends at the last digit and the 64-bit ends are never tried",
     [YT, PLUG], [("decimal type", YT + " RestrictedPrecisionDecimalType"), RC, BE], technique=EX, note="fraction-digits 1,2,3,6,9,17,18 (1..18 thorough), boundaries +-1 unit in the last place")
prop("T05", "A union takes the first member type that accepts the value",
     "A value given to a union leaf is interpreted by the first member type, in declaration order and with nested unions flattened, that accepts it; it is refused with an error exactly when no member accepts it.",
     ["inputs", "programs"], "every ordered tuple of member types, nesting and lexical value", "the order of members matters only for values that several members accept; the suite has a few unions and values",
     [YT, PLUG], [("union resolution", YT + " YANGDynClass"), TL, BE], technique=EX, note="all ordered pairs of 15 member types, ordered triples, 7 nesting shapes x 24 orders, 32 lexical values")
prop("S01", "A refused operation changes nothing",
     "When an assignment, list or leaf-list operation, or attribute access raises an error, the observable tree is exactly what it was before: values, list contents and order, which choice case is selected, which nodes count as changed or present, and what path lookups return.",
     ["histories", "inputs"], "every reachable tree state, every refused operation", "the suite asserts that an error is raised, hardly ever that nothing else happened, and never from more than one prior state",
     [YT, PLUG], [DYN, LST, TL, GC], technique=BFS, note="depth and schema bounds in the evidence file; states merged on the whole observable tree")
prop("S02", "Binding instances are independent",
     "Two instances of the same bindings, and two entries of the same list, never share state: an operation on one never changes values, defaults, list members, changed flags, choice selection or registered paths of the other.",
     ["histories", "schedules"], "every interleaving of operation histories on two instances", "sharing shows only when operations on two objects are interleaved in a particular order; tests use one object at a time",
     [YT, PLUG], [DYN, LST, GC], technique=BFS, note="all interleavings of two operation sequences up to the bound")
prop("S03", "Changed-tracking reports exactly what was set",
     "A node counts as changed exactly when it or a descendant was set since creation or since it was last unset, and the filtered view of a tree contains exactly the set leaves, non-empty leaf-lists, list entries and present presence containers, each with its value.",
     ["histories"], "every history of sets, unsets, list and leaf-list edits", "the filtered view is a function of the whole history; the suite checks a few one-step histories",
     [BASE, YT, PLUG], [("filtered view", BASE + " PybindBase.get"), DYN, GC], technique=BFS, note="see evidence for depth")
prop("S04", "Defaults are reported until set, and again after unset",
     "A leaf that was never set, or was unset, reads as unset, exposes its declared default (the leaf's own, else the nearest typedef's), appears in the full view with that default and not in the filtered view; setting a leaf to its default value counts as setting it.",
     ["programs", "histories"], "every type with a default on leaf or typedef, every set/unset history", "the suite samples one default per type; precedence between leaf and typedef defaults and union member defaults is a product space",
     [YT, BASE, PLUG], [("default resolution", PLUG + " get_element"), DYN, ("view with defaults", BASE + " PybindBase.get")], technique=EX, note="types x default location x history")
prop("S05", "A list is an ordered map whose keys agree with the key leaves",
     "A keyed list behaves as an insertion-ordered map: adding an existing key, deleting a missing one or assigning a key leaf is refused; lookup, membership, iteration and length agree with the history; and in every entry the key leaves equal the key the entry is stored under.",
     ["histories", "inputs"], "every history of add, delete, re-add, append, lookup over single and multiple keys", "the suite adds and deletes one or two entries; key/leaf agreement and order after deletions depend on the history",
     [YT, PLUG], [LST, GC], technique=BFS, note="see evidence for depth")
prop("S06", "A leaf-list holds exactly the accepted values, in order",
     "A leaf-list behaves as the sequence of values accepted so far, in order; a configuration leaf-list never holds the same value twice; removing, popping, inserting, replacing and deleting entries have list semantics; refused values never appear.",
     ["histories", "inputs"], "every history of leaf-list operations", "the suite appends a few values; uniqueness across value spellings, insertion and replacement are history dependent",
     [YT], [TL, DYN], technique=BFS, note="see evidence for depth")
prop("S07", "At most one case of a choice is populated",
     "Setting a node in one case of a choice unsets every node of the other cases of that choice and of no other; after any history at most one case of each choice holds set nodes, including for nested choices and for containers and lists inside cases.",
     ["histories", "programs"], "every history of sets and unsets over schemas with choices", "the suite has one flat choice with two-step histories",
     [YT, PLUG], [("case switching", YT + " YANGDynClass._set"), ("case tables", PLUG + " get_children")], technique=BFS, note="see evidence for depth and schema set")
prop("S08", "Presence containers are present only when made so",
     "A presence container is absent until it or a descendant is set, present from then until it is removed, and an empty one that is present survives every serialisation round trip while an absent one never appears.",
     ["histories"], "every history over nested presence containers", "presence interacts with descendants, removal and serialisation in histories the suite does not enumerate",
     [YT, BASE, PLUG, SER], [DYN, GC, ("presence in encoders", SER)], technique=BFS, note="see evidence")
prop("S09", "Read-only data cannot be set by the user",
     "A node that is config false, itself or by inheritance, offers no way to assign or delete it through attributes, while the bindings' own load path can populate it; configuration nodes are assignable.",
     ["programs", "inputs"], "every placement of config statements over nested node kinds", "inheritance of config false across containers, lists, choices, augments and groupings is a product of placements",
     [PLUG, YT], [GC, ("config inheritance", PLUG + " get_children")], technique=EX, note="all placements of config over a bounded tree")
prop("S10", "Only schema nodes can be assigned",
     "A container or list entry accepts assignments only to its schema children; assigning or reading any other attribute raises an error and leaves the tree unchanged.",
     ["inputs", "programs"], "every attribute name, including near misses of schema names and their Python-safe spellings", "tests try one bad name",
     [YT, PLUG], [GC, DYN], technique=EX, note="all near-miss names of every node of the schemas")
prop("S11", "Assigning a whole container, list or entry copies its content",
     "Assigning an existing container, presence container, list or list entry to a node of the same schema gives that node exactly the assigned object's set content - the content that was there before is gone - and leaves the assigned object untouched: later changes to one are never visible in the other, and the path registry follows.",
     ["histories"], "every pair of reachable source and target trees", "the suite assigns one container; what is left of the previous content and what stays shared depends on both histories",
     [YT, PLUG], [DYN, LST, GC], technique=BFS, note="all pairs of reachable source and target states up to a depth, each followed by every later operation on either side")
prop("R01", "Default JSON round trip restores the tree",
     "Serialising any tree to the library's own JSON and loading the document into fresh bindings yields a tree with the same values, list entries and order, for both text and dictionary forms.",
     ["histories", "inputs"], "every reachable tree of the type matrix", "the suite round-trips fixed documents", [SER, JS], [("encoder", SER + " pybindJSONEncoder"), ("decoder", SER + " pybindJSONDecoder.load_json"), ("entry points", JS)], technique=BFS, note="see evidence")
prop("R02", "IETF JSON round trip restores the tree",
     "Serialising any tree to RFC 7951 JSON and loading the document into fresh bindings yields a tree with the same values, list entries and order.",
     ["histories", "inputs"], "every reachable tree of the type matrix", "the suite round-trips fixed documents", [SER, JS], [("encoder", SER + " pybindIETFJSONEncoder"), ("decoder", SER + " pybindJSONDecoder.load_ietf_json")], technique=BFS, note="see evidence")
prop("R03", "IETF JSON output is RFC 7951 encoded",
     "RFC 7951 output has exactly the set nodes; names carry their module exactly where the module changes; 64-bit integers and decimals are strings without loss, empty is [null], identities from other modules are qualified, booleans and small integers are JSON scalars, bits and binary are their canonical strings.",
     ["inputs", "programs"], "every type, nesting across modules and value", "the suite compares one document", [SER], [("encoder", SER + " pybindIETFJSONEncoder")], technique=EX, note="see evidence")
prop("R04", "XML round trip restores the tree in the schema's namespaces",
     "Serialising any tree to XML gives one element per set leaf, leaf-list value, container and list entry, each in the namespace of its defining module and in data order, and loading it into fresh bindings yields a tree with the same values, list entries and order.",
     ["histories", "inputs"], "every reachable tree of the type matrix", "the suite round-trips fixed documents", [SER], [("encoder", SER + " IETFYangDataXMLSerialiser"), ("decoder", SER + " pybindIETFXMLDecoder")], technique=BFS, note="see evidence")
prop("R05", "Loading merges; overwrite replaces; loading twice changes nothing",
     "Loading a document over existing data leaves every node the document does not mention as it was (other than those of another case of a choice that the document sets), gives mentioned leaves and JSON leaf-lists the document's value, adds XML leaf-list values, and merges list entries by key; with overwrite, the lists a JSON document mentions (and, in the library's own format, its outermost containers) hold exactly the document's content. Loading the same document again changes nothing, and the document itself is never modified.",
     ["histories", "inputs"], "every pair of initial tree and document", "merge is quadratic in states; the suite tries a couple of pairs", [SER, JS], [("decoders", SER + " pybindJSONDecoder, pybindIETFXMLDecoder")], technique=BFS, note="pairs of the enumerated trees (see evidence), 3 formats, with and without overwrite, with and without a registry; lists without keys are out of scope (their entries cannot be identified)")
prop("R06", "Invalid documents are refused, unknown names are never dropped silently",
     "Loading a document with a value outside its type, a node of the wrong shape (a scalar, object or array where the schema has another kind of node; a list entry without a key), or an unknown name raises an error, for every position in the document; with unknown names explicitly skipped, everything else is loaded exactly as if they were absent.",
     ["inputs"], "every single mutation of every enumerated document", "the suite has a handful of bad documents", [SER, JS], [("decoders", SER + " pybindJSONDecoder, pybindIETFXMLDecoder")], technique=EX, note="every single mutation, at every position, of the documents of every tree with one node set and of full trees; JSON null for a leaf and Python's str() of numbers for string leaves are leniencies the property is not about")
prop("R07", "Reading and serialising never changes the tree",
     "Reading any view, serialising to any format with any options, looking up paths and iterating leave the tree, its changed and presence state, the path registry and its later serialisations exactly as they were, whatever is done to the documents and lists that were returned and also when the read fails; serialising twice gives the same text, and arguments of reads are left as they were.",
     ["histories"], "every reachable tree, every read operation, every history interleaved with reads", "tests never compare the tree before and after a read", [BASE, SER, JS, XP], [("views", BASE), ("encoders", SER), ("lookups", XP)], technique=BFS, note="each state of bounded histories and full trees of 9 schemas is read in every way; histories are repeated with all reads after each step")
prop("R08", "Selective and unfiltered dumps return exactly what is asked for",
     "The dump of a container, list or list entry is the corresponding part of the dump of the whole; a dump that skips subtrees is that dump without the nodes at these paths, in lists too; a dump of a list that selects on leaf values has exactly the entries whose leaves have these values, in order; an unfiltered dump has every leaf, with its value, else its default; asking for explicitly set data gives exactly what was set.",
     ["inputs", "histories"], "every reachable tree, every node, path and selection, every format", "the suite has no selective dump at all", [JS, SER], [("dump with select, skip_subtrees, filter", JS + " dumps"), ("encoders", SER)], technique=BFS, note="selecting on a leaf that not all entries have is out of scope (the library refuses it); IETF JSON and XML may or may not show containers without content")
prop("R09", "File dumps and loads are faithful; failed serialisation leaves files alone",
     "Dumping to a file leaves exactly the text that dumping to a string returns; where serialising fails, at whatever step, the file is as it was and none is created; where the system refuses to open or to write, an error is always reported; loading a file is loading its text, and a file that ends early is refused; after success and failure alike no file is left open, the tree is unchanged and a later dump succeeds.",
     ["fault_sequences", "crash_points"], "every point at which serialisation or file input or output can fail", "no test injects a fault", [JS, SER], [("file output", JS + " dump"), ("file input", JS + " load, load_ietf")], technique="model checking by exhaustive fault injection on the real code: every step of serialising, every byte written, every truncation", note="that a write which the system interrupts (disk full) also leaves the previous content is not claimed: dump writes in place")
prop("R10", "Metadata of RFC 7951 documents end up at the nodes they annotate",
     "Loading a document with metadata - before or after the node, of an object itself, a leaf, a leaf-list or a container, with or without the module's name - stores it as the _metadata of exactly the node it annotates, in new or existing bindings, and loads the same data as the document without it.",
     ["inputs", "configurations"], "every annotation and pair of annotations of all nodes of a schema, and all at once", "no test loads metadata", [SER, YT], [("metadata", SER + " check_metadata_add"), ("storage", YT + " _add_metadata")],
     technique="explicit-state enumeration of annotated documents against the annotated nodes and the tree loaded without annotations", note="11 schemas, lists of 1 and 2 entries; 3 contents, both orders, plain and qualified, 3 ways of loading and the path helper; annotations of the root and of list nodes as such are left out")
prop("X01", "Path lookups mirror the live tree",
     "With a path registry, after any history the absolute path of every live node, list entries with key predicates included, resolves to exactly that object, and no path resolves to an object that is no longer in the tree.",
     ["histories"], "every history of sets, adds, deletes, unsets, choice switches and loads", "the registry and the tree diverge only after particular histories; tests look up once after building", [XP, YT, PLUG], [("registry", XP + " YANGPathHelper"), ("registration", YT + " YANGDynClass"), LST], technique=BFS, note="see evidence")
prop("X02", "Path lookup syntax selects exactly the matching nodes",
     "For every absolute, relative or predicated path expression built from schema names and key values, lookup returns exactly the nodes of the tree that match, in order, however the path is spelled (string or parts, with or without prefixes, quoting style, key order).",
     ["inputs", "histories"], "every path spelling over every reachable tree", "the suite looks up a handful of paths", [XP], [("path parsing", XP + " YANGPathHelper._path_parts, _tagname_attributes, _encode_path")], technique=BFS, note="see evidence")
prop("X03", "A leafref with require-instance only takes existing targets",
     "With a path registry, a leafref that requires an instance to list keys or leaf-lists accepts exactly the values present at its target path at that moment, by themselves or as a member of a union, otherwise refuses them leaving the old value in place; one that does not require an instance accepts any value of the target's type; the reference reads back as the referred value. A reference to a leaf outside lists stands for that leaf: both always read the same.",
     ["histories", "inputs"], "every history of target and reference changes", "acceptance depends on the whole tree state at the time of the assignment", [YT, XP], [("reference type", YT + " ReferencePathType"), ("target lookup", XP)], technique=BFS, note="see evidence")
prop("X04", "Extension methods are bound at exactly the paths they are given for",
     "With bindings that have extension methods, at any time and however it came to be - created, assigned, added, loaded by any loader - an object has the public methods of the instance given for its exact path, without filters, each after an underscore, and no other object has any; a call reaches that instance with the arguments given, the path of the object that was called, and its path helper; the data behave as without them.",
     ["histories", "inputs"], "every history up to a depth; methods for each path, all paths and none; every loader", "the suite calls the methods of one leaf", [YT, SER, PLUG, XP], [("binding of methods", YT + " YANGDynClass"), ("passing on", PLUG + " extmethods"), ("loading", SER + " extmethods")],
     technique=BFS, note="15 schemas, with and without path helper; histories of 2 (thorough: 4) operations with methods everywhere, 1 (2) for each path; each call compared, and its caller looked up; names of methods that internal ones have are left out")
prop("G01", "Every schema node is generated exactly once, where the schema puts it",
     "For every valid module the generated class tree has exactly the data nodes of the effective schema after uses, augment, refine and submodule expansion, each under its safe Python name (that of two siblings differing), of the right kind, with the YANG name, namespace, defining module, keys, ordering, cases, default, type, presence and config status the schema gives it - whatever the names, texts and values in the module look like in Python.",
     ["programs"], "every module of a bounded schema grammar", "the suite has one module per feature; features combine", [PLUG, YT], [GC, ("element description", PLUG + " get_element"), ("safe names", YT + " safe_name")],
     technique="explicit-state enumeration of every program of a bounded schema grammar, each generated with the real plugin and compared node by node with a reference expansion", note="all chains of up to 3 of 18 constructs (containers, lists, choices, five kinds of grouping, refinement, five kinds of augmentation) around up to 31 nodes, in module and submodule")
prop("G02", "Split and single-file bindings are interchangeable",
     "Bindings generated as one file, as a directory tree, or with any set of optional features describe the same tree: same nodes, types, defaults and behaviour under any operation history - whichever names nodes, their parents and modules share, with each other or with the generated code.",
     ["configurations", "programs", "histories"], "every set of flags over every construct; bounded histories on eight kinds of bindings at once", "the suite uses one flag set per test", [PLUG], [("split output", PLUG + " get_children, package_name"), GC],
     technique="explicit-state breadth-first exploration of operation histories, in lockstep on the bindings of every way of generating and a reference model; exhaustive enumeration of flags and constructs", note="chains of up to 2 constructs as packages, single ones under all 32 sets of flags; histories of length 2 of 9 schemas; names that repeat in every arrangement of 3 levels")
prop("G03", "An identityref takes exactly the identities derived from its base",
     "A leaf of type identityref accepts exactly the names of identities derived, directly or not, in any module, from its base - plain, or qualified by the defining module's name, which comes first, or a prefix that any module has for it - and nothing else, in every order of declaration, also when modules reuse names and prefixes; its RFC 7951 value names the module of the identity and loads as the same identity.",
     ["programs", "inputs"], "every identity derivation graph of bounded size across modules, every placement and arrangement of prefixes, every spelling", "the suite has one identity tree, with different names and prefixes throughout", [PLUG, "pyangbind/helpers/identity.py", SER], [("identity closure", PLUG + " build_identities"), ("identity store", "pyangbind/helpers/identity.py IdentityStore"), ("identityref encoding", SER + " yangt_identityref")],
     technique="explicit-state enumeration of derivation graphs, generated with the real plugin, against a reference closure", note="all 543 graphs of 4 identities in one module; all of 3 over 3 modules, also with repeated names, under 6 arrangements of prefixes; of several bases of a type only the first counts, as the suite demands")
prop("G04", "Typedef references resolve to the definition in scope",
     "A type reference denotes the typedef that is lexically in scope or imported under the used prefix, whatever the order of definitions and modules, also when modules, prefixes or scopes reuse a name: the leaf takes the values and has the default of that definition.",
     ["programs", "inputs"], "every bounded arrangement of one typedef name over scopes, modules and prefixes, every place and way of use", "the suite defines each name once", [PLUG], [("typedef resolution", PLUG + " build_typedef, get_type"), BE],
     technique="explicit-state enumeration of typedef arrangements, generated with the real plugin, against reference scoping", note="sets of up to 2 (thorough: 3) of 11 nested scopes, x the scopes of an imported module, 16 places, 7 ways of use, 4 arrangements of prefixes")
prop("G05", "Generation is deterministic and independent of input order",
     "The same modules give bindings that do the same on every run, hash seed and order of the files on the command line, whatever other modules are given, in every order of the declarations and substatements that the language treats as unordered, and when they are generated into a directory that has packages of another version: the same tree, whose leaves take the same values and make the same of them.",
     ["configurations", "schedules", "histories"], "every permutation of input files and unordered statements; every short history of versions in one directory; hash seeds", "tests generate once, from one order, into an empty directory", [PLUG, "pyangbind/helpers/identity.py"], [("generation", PLUG + " build_pybind"), ("order of typedefs and identities", PLUG + " get_type, build_identities"), ("packages", PLUG + " get_children")],
     technique="explicit-state enumeration of input permutations and regeneration histories, generated with the real plugin, compared by behavioural fingerprints", note="3 sets of up to 4 modules; 21 kinds of statements, all orders of up to 4 (thorough: 6) parts; 10 versions of a module, all pairs; 8 (64) hash seeds; values: 26 per leaf")
prop("G07", "Nodes have exactly the extension statements that were asked for",
     "With --interesting-extension, _extensions() of a node - of every kind, also of a list and of its entries, from whichever construct or file it comes, and after its value changed - gives each extension statement on it that a module asked for defines, under that module's name and the extension's, with its argument; nothing of other modules, of other nodes, or of plain statements, whatever prefixes and names are like.",
     ["programs", "configurations"], "every kind of node and place, every small set of statements, sets of modules", "the suite has one module with extensions on few nodes", [PLUG, YT], [("extension statements", PLUG + " get_element"), ("access", YT + " _extensions")],
     technique="explicit-state enumeration of annotated modules, generated with the real plugin, against the statements written", note="16 kinds of nodes, 11 places, 6 statements of 4 modules, 10 sets of modules; quick crosses some of these, thorough all, with sets of 3 statements")
prop("G06", "RPCs and notifications are separate trees",
     "Operation inputs, outputs and notifications are generated as their own roots, exactly as defined, they hold data like any container, and they never appear in the path registry or in the configuration tree.",
     ["programs", "histories"], "bounded set of rpc and notification shapes", "the suite has one rpc and one notification", [PLUG, YT], [("rpc generation", PLUG + " build_pybind")], technique=BFS, note="see evidence")
prop("M01", "Independent instances are safe under any thread interleaving",
     "Threads that each work on their own binding instance obtain the results they would obtain alone, under every interleaving.",
     ["schedules"], "every interleaving, up to a preemption bound, of two threads on separate instances", "tests are single threaded", [YT, BASE, SER, XP], [DYN, RC], technique="stateless model checking of the real code: controlled scheduler over two threads, exhaustive up to a preemption bound", note="see evidence")

def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "mc", "checks")) if f.endswith(".py") and f != "__init__.py"}
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf8") as fh:
        for p in P:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            anchors["observe_at"] = p["observe"] or ["public API of the generated bindings"]
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in built and not p["na"]:
            checks.append({"property": p["id"], "quick_cmd": "./run %s quick" % p["id"], "thorough_cmd": "./run %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf8") as fh:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, fh, indent=1)
        fh.write("\n")
    print(len(checks), "claimed", len(na), "not claimed")


main()
