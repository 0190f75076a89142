"""Regenerates /verif/properties.jsonl (source of truth for statements)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=["normalize/" + f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where="normalize/" + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "A checked attribute only ever holds values of its declared type",
 "Whatever is passed to the constructor or assigned to, or deleted from, a record over its lifetime, every set attribute that has a declared type or check (and is not explicitly declared unchecked) holds a value that satisfies them. A value which is not of the declared type is stored only as the result of the declared conversion, conversion is not applied to values already of the type, and anything else is rejected with a library error. A rejected operation leaves every attribute of the record exactly as it was.",
 ["histories", "inputs", "programs"],
 "all record declarations (type / type tuple / converter / check / trait combinations) x all histories of construct, assign, delete, with conforming, convertible, unconvertible, failing-converter and failing-check values",
 "tests assign a handful of good and bad values to a handful of declarations; they never follow a long history with failures interleaved, nor compare the whole object before and after a rejected operation",
 ["property/__init__.py", "record/__init__.py"],
 [("type_safe_value", "property/__init__.py: Property.type_safe_value"), ("checked setter", "property/__init__.py: SafeProperty.__set__/__delete__"), ("initializer", "property/__init__.py: Property.init_prop")],
 ["attribute reads after every operation", "exceptions raised by construct/assign/delete"])

prop("C02", "Required attributes are always present",
 "No record instance can be constructed with a required attribute missing, or with None for one that declares no type, unless a default supplies an acceptable value; and no assignment or deletion can later make a required attribute absent or None. The attempt raises the documented missing-value error (or a type/check error for a non-conforming value) and changes nothing.",
 ["histories", "inputs", "programs"],
 "all declarations mixing required with type, converter, check, default, read-only and collection options; all subsets of supplied arguments; all later assign/delete histories; all constructor forms including JSON",
 "tests check a single required field on one class; the guarantee spans every construction route, combination of options and later mutation",
 ["property/__init__.py", "record/__init__.py", "record/json.py"],
 [("required handling", "property/__init__.py: Property.init_prop / type_safe_value / SafeProperty.__delete__"), ("eager set", "record/__init__.py: Record.__init__ eager_properties")],
 ["construction outcome", "presence of each required attribute after each operation"])

prop("C03", "Read-only attributes never change after construction",
 "After a record is constructed, a read-only attribute's value (given or defaulted, or computed on first access if it is also lazy) cannot be replaced or removed through attribute assignment or deletion: each attempt raises the read-only error and the value read before and after is the same object. Construction itself may set it, with the same type checks as any other attribute.",
 ["histories", "programs"],
 "all read-only declarations (with type, default, required, lazy, JSON, list/dict-of traits, inherited) and all interleavings of reads, assigns, deletes, copies and pickles",
 "tests try one assignment to one read-only slot; not every trait combination under which read-only must survive composition",
 ["property/__init__.py", "property/meta.py"],
 [("ro setter", "property/__init__.py: ROProperty.__set__/__delete__"), ("trait composition keeps ro", "property/meta.py: has")],
 ["attribute reads", "exceptions of assign/delete"])

prop("C04", "Lazy attributes are computed at most once, on demand, and type-checked",
 "The default function of a lazy attribute is not called by construction and is called at most once per record when the attribute is first read while unset; later reads return the same object. A value supplied at construction or assigned beforehand suppresses the call, and a call which raises, or returns a non-conforming value, stores nothing, so that the read raises and a later read tries again.",
 ["histories", "programs", "fault_sequences"],
 "all lazy declarations (safe, unsafe, read-only, method or function default, JSON) and all histories of reads, assigns, deletes, comparisons, serialisations, copies with default functions failing at arbitrary calls",
 "tests count one evaluation on one instance; failure/retry, interleavings with assignment and per-instance independence are unexplored",
 ["property/__init__.py"],
 [("lazy getter", "property/__init__.py: LazyProperty.__get__ and subclasses"), ("deferred init", "property/__init__.py: LazyProperty.init_prop / eager_init")],
 ["calls of the default function", "identity of values read"])

prop("C05", "Defaults fill exactly the attributes not supplied; unset stays unset",
 "A newly constructed record has each supplied attribute from its argument and each other attribute from its default: a function default is called exactly once per construction (with the record if it takes self), any other default is used as it is, and an attribute with neither is unset, so reading it raises AttributeError. An attribute declared with a false immutable default, or with the legacy null-value option, reads as that null value whenever it holds no value, including after being deleted, or assigned None where its type excludes None.",
 ["histories", "inputs", "programs"],
 "all declarations of defaults (constant, mutable, function, method, falsy) x all subsets of supplied arguments x later assign/delete/None histories x many instances of one class",
 "tests look at one default per class; independence of instances, call counts and return to the null value over histories are not covered",
 ["property/__init__.py", "record/__init__.py", "property/meta.py"],
 [("default evaluation", "property/__init__.py: Property.get_default / init_prop"), ("legacy null", "property/__init__.py: V1Property"), ("upgrade rule", "property/meta.py: has / looks_like_v1_none")],
 ["attribute reads", "calls of default functions"])

prop("C06", "Empty-safe accessors never raise for declared paths and never store",
 "Reading an attribute through its empty-safe accessor (name with 0 appended) gives exactly the stored value when set, and otherwise a false placeholder from which any chain of declared attributes, items and slices can be followed without error, always yielding false values, and which iterates over nothing. Following an attribute no candidate type declares, subscripting or iterating over a non-collection or calling a non-callable raises the corresponding library error, assignment through a placeholder is refused, and nothing is ever stored in the record by such reads.",
 ["inputs", "programs"],
 "all graphs of record and collection types (type unions, untyped attributes) and all access chains over set/unset prefixes",
 "tests follow a few fixed chains on one class pair",
 ["empty.py", "property/__init__.py"],
 [("placeholder", "empty.py: EmptyVal"), ("accessor", "property/__init__.py: EmptyAuxProp")],
 ["result and exceptions of access chains", "record state before/after"])

prop("C07", "An attribute declaration means the same regardless of order or history",
 "The behaviour of a declared attribute (checked, read-only, lazy, JSON-mapped, collection, compare-as, defaulted) depends only on the set of options and traits given, not on keyword order, on whether a trait was requested by name, by a distinguishing argument or by using the dedicated class, nor on what was declared earlier in the process. Unknown, positional or contradictory options are rejected with a library error at declaration time, and what a property type is made from stays as it is.",
 ["programs", "histories", "configurations"],
 "all subsets of traits and options, all declaration orders in one process, all spellings of the same declaration, user-defined property types included",
 "the trait registry is process-global and grows with use; tests see only the single order in which the test modules happen to import and declare",
 ["property/meta.py", "property/__init__.py", "property/coll.py", "property/json.py"],
 [("trait selection", "property/meta.py: has"), ("type composition", "property/meta.py: create_property_type_from_traits"), ("type factory", "property/__init__.py: make_property_type")],
 ["observable behaviour profile of the resulting attribute"],
 [("PROPERTY_TYPES", "registry of composed property types", "normalize/property/meta.py")])

prop("C08", "A record class has exactly its own and inherited attributes",
 "The attributes of a record class are the union of those of its bases and its own, own declarations overriding inherited ones, with inherited attributes keeping every behaviour; declaring a subclass never changes a base or sibling class. Two bases offering different attributes of one name, a reserved name, or a primary key naming an attribute that is not part of the class is rejected when the class is declared.",
 ["programs"],
 "all class hierarchies (chains, multiple bases, mixins, overrides, collections with attributes, primary keys by name or object)",
 "tests declare two or three fixed hierarchies",
 ["record/meta.py"],
 [("class construction", "record/meta.py: RecordMeta.__new__")],
 ["class attribute tables", "behaviour of instances of every class in the hierarchy"])

prop("C09", "Typed lists behave as lists and only ever contain items of their type",
 "A typed list gives the same results, contents, order and IndexError/ValueError outcomes as a plain list under any sequence of list operations (construction from any iterable, indexing, slicing, append, extend, insert, pop, remove, index, count, reverse, sort, concatenation, membership, iteration, length, equality), except that each incoming item is first converted to the item type. Every member is always of the item type, an item which cannot be converted is rejected with a library error, and a failed operation leaves the list unchanged.",
 ["histories", "inputs"],
 "all operation sequences with positive, negative and out-of-range indices and slices, convertible and unconvertible items placed anywhere in an iterable, list-like, generator and mapping sources, item types that are records, plain types and subtypes",
 "tests perform a fixed short sequence on one list of one type",
 ["coll.py", "property/coll.py"],
 [("list implementation", "coll.py: ListCollection"), ("item coercion", "coll.py: Collection.coerce_value / coerce_tuples")],
 ["results and exceptions of each operation", "contents after each operation"])

prop("C10", "Typed dicts behave as dicts and only ever contain values of their type",
 "A typed dict gives the same results, contents and KeyError outcomes as a plain dict under any sequence of its operations (construction from mappings, iterators of pairs and sequences, item get/set/delete, pop, popitem, clear, update, keys/values/items and their iterators, key membership, length, equality), except that each incoming value is first converted to the value type. Every value is always of the value type, and a value which cannot be converted is rejected with a library error without changing the key it was meant for.",
 ["histories", "inputs"],
 "all operation sequences, key types, convertible and unconvertible values, mapping / pair / sequence / other typed-collection sources",
 "the module itself says the dict collection is largely untested",
 ["coll.py", "property/coll.py"],
 [("dict implementation", "coll.py: DictCollection")],
 ["results and exceptions of each operation", "contents after each operation"])

prop("C11", "All ways of constructing a record agree, and arguments are never altered",
 "Keyword arguments and a dictionary of the same items construct equal records; naming an undeclared attribute, or giving both forms at once, is rejected and no argument is silently dropped. Construction, assignment and copying between records never modify the caller's arguments, and an operation on one record never changes another record of the class.",
 ["inputs", "histories", "programs"],
 "all record and collection classes, all argument dictionaries including undeclared names, empty and both forms, and all later operations on sibling instances",
 "tests construct each class one way with known names",
 ["record/__init__.py", "coll.py", "record/json.py"],
 [("constructor", "record/__init__.py: Record.__init__"), ("collection constructor", "coll.py: Collection.__init__")],
 ["constructed state", "deep snapshot of arguments and of sibling instances"])

prop("C12", "Equality, hashing and primary keys are coherent",
 "Record equality is reflexive, symmetric and transitive, holds exactly between records of the same class whose non-extraneous attributes are pairwise equal or pairwise unset, and is the negation of inequality; equal records with hashable contents have equal hashes, so they work as set members and dict keys. With a declared primary key the hash and identity depend only on the key attributes; otherwise on all the non-extraneous ones, and a record with unhashable contents raises rather than giving an unstable identity.",
 ["inputs", "programs"],
 "all record classes (nested, collection-valued, union-typed, primary-keyed, extraneous, inherited) and all triples of instances",
 "tests compare a few pairs; algebraic laws quantify over all pairs and triples",
 ["record/__init__.py", "identity.py", "coll.py"],
 [("equality", "record/__init__.py: Record.__eq__/__ne__/__hash__"), ("identity", "identity.py: record_id"), ("collection equality", "coll.py: Collection.__eq__")],
 ["results of ==, !=, hash, set/dict membership"])

prop("C13", "Pickle, copy, deepcopy and repr reproduce the object",
 "For every record, typed collection, selector and difference object, pickling (all protocols) and unpickling, and copying shallowly or deeply, give an object of the same type that is equal, has the same set and unset attributes (extraneous ones and read-only ones included), and behaves the same from then on; for records, collections and selectors, evaluating the repr with the classes in scope also gives an equal object. A deep copy shares no mutable state with the original, and none of this runs default functions, converters or checks anew for attributes already set, nor changes the original.",
 ["inputs", "histories", "programs"],
 "all declared classes and instance states (partially set, lazy unset or computed, read-only, required, nested records, generic and custom collections, self-describing JSON records with unknown keys)",
 "tests round-trip a few instances with one protocol",
 ["record/__init__.py", "coll.py", "selector.py", "record/json.py"],
 [("pickle hooks", "record/__init__.py: __getnewargs__/__getstate__/__setstate__/OhPickle"), ("generic pickling", "coll.py: _GenericPickler/_Generic"), ("repr", "record/__init__.py, coll.py, record/json.py: __repr__")],
 ["type, state and behaviour of the copy"])

prop("C14", "JSON output read back in gives an equal record",
 "For every record whose attribute types have JSON forms (directly, or by mutually inverse output and input conversion functions), converting to JSON data and constructing from that data, directly or through JSON text, gives an equal record, whatever key names are mapped. The output contains exactly one entry for each set, non-suppressed attribute under its JSON name (extraneous ones only when asked for), and for self-describing JSON records the unknown input keys reappear with their values when extraneous output is requested.",
 ["inputs", "programs"],
 "all record classes (renamed, suppressed, extraneous keys; nested records; JSON lists and dicts; dates; falsy and unset values; input/output converters; unknown keys) and all instances, including integers beyond 2**50, unicode and empty collections",
 "tests round-trip a few fixed documents",
 ["record/json.py", "property/json.py"],
 [("marshal out", "record/json.py: to_json / json_data"), ("marshal in", "record/json.py: from_json / json_to_initkwargs"), ("JSON traits", "property/json.py: JsonProperty")],
 ["JSON data produced", "record re-read from it"])

prop("C15", "JSON input forms are equivalent and JSON operations have no side effects",
 "A JSON document gives equal records whether passed as loaded data, text, bytes or bytearray, and through the class constructor, its from_json method or the from_json function. Reading never modifies the input, later changes to the input's unrecognised parts never show in the record, and writing never modifies the record nor returns containers that alias its state.",
 ["inputs", "histories"],
 "all documents accepted by generated classes (nested lists and dicts, unknown keys, unicode) in all input forms, followed by mutation of either side",
 "tests check a couple of forms on a flat document and never mutate the input afterwards",
 ["record/json.py"],
 [("decoding", "record/json.py: _decode_and_parse_json"), ("unknown keys copied", "record/json.py: json_to_initkwargs"), ("collection forms", "record/json.py: JsonRecordList / JsonRecordDict")],
 ["records built from each form", "deep snapshots of inputs and outputs"])

prop("C16", "JSON input errors name the exact location and cause",
 "When reading a JSON document fails inside a nested attribute, list item or dict entry, the error raised is a conversion error carrying a path of JSON keys and indices that leads to the offending part of the input document, together with the original error. No record is produced from a document with an unacceptable part, and a document with none is accepted.",
 ["inputs"],
 "all nested documents with one part replaced by an unacceptable value at any depth (through JSON record, list and dict attributes and renamed keys)",
 "the tests of this (which no longer run on current Python) inject errors at two or three positions",
 ["record/json.py", "exc.py"],
 [("error boxing", "record/json.py: _box_ingress_error"), ("per-item wrapping", "record/json.py: JsonRecordList/JsonRecordDict.json_to_initkwargs")],
 ["raised error's path and sub-error"])

prop("C17", "Schemaless JSON records give access to everything they were given",
 "A schemaless JSON record constructed from any JSON object exposes every undeclared key as an attribute (camelCase keys under their underscore form, or verbatim in the non-converting variant), nested objects and lists of objects becoming such records in turn, and its JSON output equals the input document for keys that the conversion can reverse. Missing names raise AttributeError, and attribute assignment and deletion are reflected in later reads and output.",
 ["inputs", "histories"],
 "all JSON objects with identifier keys (nested objects, lists of scalars, objects, empties), both variants, and read/assign/delete histories",
 "tests read a few attributes of one document",
 ["record/json.py"],
 [("auto records", "record/json.py: AutoJsonRecord / NCAutoJsonRecord")],
 ["attribute reads", "JSON output"])

prop("C18", "A field selector reads, writes and deletes exactly the place it names",
 "Getting through a selector returns what following its attribute names, indices and keys by hand returns (a list over all items for the wildcard, with None for items lacking the field unless all lack it), and a missing step raises a selector error, or gives None with the forgiving getter. After putting, a get returns the stored value, after deleting the place is absent, and in both cases every other part of the structure is unchanged; auto-creating put additionally creates only the missing intermediate objects and reports how many places were set.",
 ["inputs", "histories"],
 "all structures of nested records, typed lists and dicts, plain lists and dicts, all selectors into and off them, and all sequences of get/put/post/delete through them",
 "tests use about a dozen fixed selectors on one fixture, and most of them do not run on current Python",
 ["selector.py"],
 [("selector operations", "selector.py: FieldSelector.get/put/post/delete")],
 ["results/exceptions of each operation", "whole-structure comparison with a plain-data model"])

prop("C19", "Selectors form a sequence algebra with faithful text forms",
 "A selector behaves as the immutable-by-concatenation sequence of its steps: concatenation, slicing, indexing, length, prefix test, equality and copying agree with the same operation on the list of steps, and none of them alters its operands. Its path text parsed back, its repr evaluated, and its pickle all give an equal selector for every sequence of indices, wildcards and arbitrary strings, and different selectors have different paths; the ordering is a strict total order wherever the selectors are comparable.",
 ["inputs"],
 "all step sequences including strings with quotes, brackets, backslashes, dots, newlines, unicode and the empty string, and all pairs and triples",
 "tests round-trip a few tame paths",
 ["selector.py"],
 [("path text", "selector.py: _fmt_selector_path / _scan_selector_path"), ("algebra", "selector.py: FieldSelector operators")],
 ["results of operators", "parsed paths"])

prop("C20", "A multi-field selector denotes exactly the union of its fields",
 "A multi-field selector built from any collection of selectors and multi-field selectors, in any order and with duplicates, denotes the union of the places they name: membership, subscripting, iteration, truth and completeness all agree with that union, a field that includes another absorbing it. Its path text parsed back, its repr evaluated, and reconstruction from its own iteration all give a selector denoting the same union.",
 ["inputs"],
 "all sets of step sequences without a wildcard mixed with names or indices at one level, all probes, all path texts including nested alternatives and quoted keys",
 "tests use a handful of fixed selector sets",
 ["selector.py"],
 [("tree construction", "selector.py: MultiFieldSelector.__init__"), ("lookup", "selector.py: __getitem__/__contains__/__iter__"), ("path text", "selector.py: _scan_mfs_path / path")],
 ["probes against a set-of-prefixes model"])

prop("C21", "Multi-field get, delete and patch affect exactly the selected fields",
 "Getting through a multi-field selector returns a deep copy containing exactly the selected parts that exist, of the same type, leaving the source unchanged. Deleting removes exactly the selected places, and if any is missing (unless forced) raises without changing anything; patching makes exactly the selected places of the target equal to the source's, deleting attributes absent there, and changes neither the source nor any other place.",
 ["inputs", "histories"],
 "all structures of records, typed and plain lists and dicts, all sets of selectors (several indices of one list, wildcards, missing places), and get/delete/patch sequences",
 "tests apply a few fixed selectors to one fixture",
 ["selector.py"],
 [("filtering", "selector.py: MultiFieldSelector.get / delete / patch")],
 ["result and frame compared with a plain-data model"])

prop("C22", "A diff is empty exactly when there is no difference, and every entry is true",
 "Comparing records of one class yields nothing if and only if they are equal up to the default text clean-ups and to the position of items within collections; with moves reported, position changes are listed too. Each reported entry is true of the two objects at its two paths: an addition is present only in the other object, a removal only in the base, a modification differs, an unchanged entry matches and a move has matching items at different places; no entry is reported twice.",
 ["inputs", "programs"],
 "all pairs of records over all class shapes (nested records, keyed and unkeyed record lists and dicts, simple lists and dicts, unset values, extraneous and compare-as attributes) and single and multiple edits at all positions",
 "tests compare hand-made pairs and list expected entries",
 ["diff.py", "identity.py"],
 [("slot comparison", "diff.py: compare_record_iter"), ("collection comparison", "diff.py: compare_collection_iter / compare_list_iter / compare_dict_iter"), ("matching", "diff.py: _fuzzy_match")],
 ["reported entries resolved against both objects"])

prop("C23", "Diffs are consistent under swapping, options and repetition",
 "Comparing in the opposite direction yields the mirror image: additions and removals exchanged and each entry's two paths exchanged; comparing again yields the same entries. Text options (whitespace, case, Unicode form), empty-slot and empty-item options only remove the differences they describe, the unchanged option only adds unchanged entries, the moved option only adds moves, and the type check is bypassed only when duck typing is requested.",
 ["inputs", "configurations"],
 "all pairs of records and all combinations of comparison options, in both directions",
 "tests switch one option at a time on one pair",
 ["diff.py"],
 [("options", "diff.py: DiffOptions")],
 ["entry sets under related calls"])

prop("C24", "A comparison filter restricts a diff to exactly the selected fields",
 "Comparing with a filter yields the same as comparing what is selected of the two objects: every reported entry lies within (or holds) a selected field, no selected difference is missed, values elsewhere never influence the result, and records that agree on all selected fields yield nothing. Where the pairing of collection items does not depend on the selection, these are exactly the entries of the unfiltered comparison within the selected fields. Extraneous attributes take part only when asked for, and then alongside the ordinary ones.",
 ["inputs", "configurations"],
 "all pairs of records, all filters over attributes, nested attributes and members of collections, with and without the extraneous option",
 "tests filter one fixture with a few selectors",
 ["diff.py", "selector.py", "identity.py"],
 [("filtering", "diff.py: DiffOptions.is_filtered / id_args"), ("partial identity", "identity.py: record_id selector argument")],
 ["filtered entries against projected objects"])

prop("C25", "Visiting reaches every selected slot once and casting inverts it",
 "A visit calls its conversion exactly once for every set, non-extraneous (unless asked), non-filtered slot and simple collection item reachable through the declared types, with the right attribute and the right path, and assembles the results under the attribute names and positions; casting the result back to the class gives an equal record. Results that are None or empty strings are dropped exactly as the options say, unset slots are offered only when asked, and neither visiting nor casting changes its input.",
 ["inputs", "programs", "configurations"],
 "all record graphs (nested records, record and simple lists and dicts, collections with attributes, type unions) and instances, all visitor options and filters, overriding conversions included",
 "tests visit two or three fixtures",
 ["visitor.py"],
 [("traversal", "visitor.py: VisitorPattern.map*"), ("visit/cast/reflect hooks", "visitor.py: unpack/apply/aggregate/reduce, grok/reverse/collect/produce, scantypes/propinfo/itemtypes/typeinfo"), ("context", "visitor.py: Visitor")],
 ["log of conversion calls (path, attribute, value)", "result structure"])

prop("C26", "Subtypes and ready-made typed attributes accept and convert as documented",
 "A value is an instance of a subtype exactly when it is an instance of the base type and satisfies the predicate, a predicate that raises counting as unsatisfied; constructing through the subtype returns conforming values unchanged, converts others by the given function, and rejects results that do not conform. Ready-made integer, number, float, text, date and datetime attributes always hold values of their type, convert the documented inputs to the value they denote, truncate datetimes assigned to dates, and read back equal after JSON output.",
 ["inputs"],
 "all subtypes of built-in and user types, nested subtypes, raising predicates and converters; all ready-made attribute types x all values of built-in types",
 "tests try a few values per type",
 ["subtype.py", "property/types.py"],
 [("subtype", "subtype.py: subtype"), ("typed attributes", "property/types.py")],
 ["isinstance results", "constructed values", "stored values"])

prop("C27", "Library errors are structured, catchable and printable",
 "Each kind of library error derives from the common error base and its category, as well as from the built-in exception it stands for (attribute, key, type or value error), is raised for the misuse it describes, exposes the facts it was raised with as attributes and in its repr, and formats to a message mentioning them. Constructing one without an argument which its message needs, named or positional, is rejected with an error naming the class and what is missing.",
 ["inputs", "programs"],
 "all public error classes and all the routes by which generated misuse raises them, with arbitrary values (unicode, format characters, tuples, None) as their facts",
 "tests format a couple of errors with simple values",
 ["exc.py"],
 [("error base", "exc.py: StringFormatException / NormalizeError")],
 ["raised errors' classes, attributes, text and pickles"])

prop("C28", "Overridden comparison hooks act as documented",
 "Overriding a clean-up hook of the comparison options (text, whitespace, case, Unicode form, value, attribute, item, emptiness, equality, filter, identity), or declaring a comparison function for an attribute or a collection's items, changes the result of a comparison exactly as if the objects held the cleaned-up values. The hooks are called for every compared place, with the value found there and its property or its collection and index. One options object can be used for any number of comparisons, and neither object is altered.",
 ["inputs", "programs", "configurations"],
 "all pairs of records and collections over generated classes x all combinations of overridden hooks with generated clean-up functions x all comparison options",
 "tests override one hook with one clean-up and look at one fixture",
 ["diff.py", "identity.py"],
 [("clean-up hooks", "diff.py: DiffOptions.normalize_*"), ("comparison functions", "diff.py: normalize_object_slot / normalize_item (compare_as, compare_item_as)"), ("equality, filters, identity", "diff.py: items_equal / is_filtered / record_id / id_args")],
 ["entries against cleaned-up values", "arguments of the hooks"])

prop("C29", "Comparison results describe themselves",
 "The text of an entry of a comparison names its kind and the place or places it is about. The text of a whole result names the compared types and the number of entries and gives, for each kind present (+NEW, -OLD, <>X, <->OLD and <+>NEW, ==X; moves are only counted), a path text which denotes exactly the places of the entries of that kind. The kind of an entry may be given as a member of the enumeration, its number or its canonical name, with the same result, and anything else is refused.",
 ["inputs", "configurations"],
 "all results of comparing generated pairs of objects under all options, and all results assembled from entries with arbitrary paths (any text as names, any indices, both ends absent or present)",
 "tests compare the text of two or three results of fixtures",
 ["diff.py", "selector.py"],
 [("entries", "diff.py: DiffInfo.__str__ / DiffTypes"), ("results", "diff.py: Diff.__str__ / base_type_name / other_type_name")],
 ["text forms, parsed by the monitor"])

prop("C30", "Custom visitors see every node once, and types describe themselves",
 "Overridden visitor hooks are called exactly once for each visited record or collection (to unpack it, then to combine its mapped items and attributes) and each plain value, with the declared type and with a visitor, of the configured class and options, whose path leads there; what they return is what is passed on and returned (None or an empty string left out where the options say so), descent stops or a value is taken as opaque where unpacking says so, and the next type of a union is tried where a hook refuses one by a TypeError. Casting with hooks that mirror those of the visit gives an equal record. Reflecting a record type or instance describes every selected attribute, by its declared types or the description of its record type, and the item type of collections.",
 ["inputs", "programs", "configurations"],
 "all trees of record classes (nested, typed lists and dicts, unions, untyped and extraneous attributes, collections with attributes, subclass instances) and instances, all overridden hook sets, visitor classes, options and filters",
 "tests override one or two hooks on one fixture and never check what each hook is passed",
 ["visitor.py"],
 [("common traversal", "visitor.py: VisitorPattern.map / map_record / map_collection / map_prop / map_type_union"), ("cast hooks", "visitor.py: grok / reverse / collect / produce"), ("reflection", "visitor.py: reflect / scantypes / propinfo / itemtypes / typeinfo"), ("context", "visitor.py: Visitor.copy / field_selector")],
 ["log of hook calls (value, type, path, visitor)", "structures returned", "descriptions of types"])

prop("C31", "Records, declarations and types print as documented, without side effects",
 "str() of a record or typed dict names its class and its key - the values of its primary key if its class declares one, else of its non-extraneous attributes by order of name, or its items (None where unset, keys of records and collections in place of these where typed so, one value alone shown by itself) - cut to the first 30 characters and '...' if longer than 32; str() of a typed list gives its class and number of items. A declared attribute prints its kind, the class which declares it (also through subclasses) and its name, or that it's unbound, keeps its documentation, and doesn't keep its class alive; a subtype prints its name and base type, an empty-safe placeholder the names of the types it stands for. None of these fails if the values print, even for unhashable values, and none changes or sets anything but lazy attributes it shows, so that equal copies print alike.",
 ["inputs", "programs"],
 "all record classes with primary keys, extraneous, lazy and unset attributes, nested records and collections, unhashable values of any type and instances of these; all kinds of declarations, inherited and overridden; all sets of types of placeholders",
 "tests print two records of fixtures",
 ["record/__init__.py", "coll.py", "property/__init__.py", "subtype.py", "empty.py", "identity.py"],
 [("records", "record/__init__.py: Record.__str__ / __pk__"), ("collections", "coll.py: ListCollection.__str__"), ("declarations", "property/__init__.py: Property.__str__ / fullname / bind"), ("types", "subtype.py: subtype.__str__; empty.py: EmptyVal.__str__ / __repr__")],
 ["texts against a key computed from the description", "state before and after"])

prop("C32", "Threads which use the library at once don't affect each other",
 "What a thread observes when it uses the library - declares record classes, attributes, property types and collection types, constructs, assigns, outputs and reads JSON, compares, visits, selects, copies, pickles, uses placeholders - is what it would have observed had other threads not been using the library at the same time, even for the same classes, selectors, options and structures, so long as no structure is changed (and no lazy attribute is first computed) while another thread uses it. What is afterwards registered or shared is as if they had taken turns: the same property types, one collection type per item type and kind, one placeholder per set of types, unchanged shared structures. No schedule makes the library fail or stop.",
 ["schedules", "programs"],
 "all schedules of two or more threads at any granularity, and all programs of declarations and uses, on cold or warm registries and caches",
 "the tests run one thread; a race needs two threads within a few instructions of each other the first time that something is used",
 ["property/meta.py", "property/__init__.py", "record/json.py", "coll.py", "empty.py", "diff.py", "visitor.py", "selector.py"],
 [("registries", "property/meta.py: has / MetaProperty / create_property_type_from_traits; property/__init__.py: make_property_type"), ("generic collections", "coll.py: _make_generic"), ("caches", "record/json.py: _json_data; empty.py: placeholder / EmptyVal"), ("uses", "diff.py, visitor.py, selector.py, record/: no state outside of the arguments")],
 ["what each thread observes, with and without the others", "switch points taken", "identity and state of what is shared"])

prop("C33", "Changed items of collections are compared with those most like them",
 "When two collections of records are compared, items of equal identity (the primary key, or else all attributes which aren't extraneous, after the text and emptiness options) are taken as each other. With approximate matching, no item is reported as gone while another is reported as new with which it has a non-empty identifying value in common, only items with such a value in common are compared with each other, and of two candidates one which agrees on all the other agrees on, and disagrees on nothing else, goes first. Without approximate matching only items of equal identity are compared.",
 ["inputs", "programs"],
 "all record types of items (with and without primary keys, text, numbers, nested records, extraneous attributes), all pairs of collections of these (lists and dicts, with duplicates, at any depth), and all comparison options",
 "the tests compare one or two collections in which one item changed; which item a changed one is compared with depends on all the others, duplicates and options included",
 ["diff.py", "identity.py"],
 [("approximate matching", "diff.py: _fuzzy_match"), ("identity", "identity.py: record_id; diff.py: compare_collection_iter")],
 ["entries of comparisons: which items of the two collections they pair, and which they report as gone or new"])

prop("C34", "The library keeps nothing of what it is given or returns",
 "Once the user lets go of a record, collection, selector, option object, visitor, result or error, nothing of the library's refers to it any more, whatever was done with it and whether or not that failed. What the library keeps between operations is bounded by what was declared: it does not grow with the number of operations or of values, names and texts in the data.",
 ["histories", "inputs", "programs"],
 "all operations (construction, assignment, collections, JSON, comparisons, visits, selectors, copies, placeholders, declarations of the same kind), successful, refused or abandoned midway, in any number, on any records",
 "the tests never look at what remains; a cache by value, a last value kept on a class or property, or an error kept with its frames passes every functional test and exhausts the memory of a server",
 ["property/__init__.py", "property/meta.py", "record/__init__.py", "record/json.py", "coll.py", "diff.py", "empty.py", "identity.py", "selector.py", "visitor.py"],
 [("type-keyed caches", "record/json.py: _json_data; coll.py: _make_generic; property/meta.py: PROPERTY_TYPES"), ("placeholders", "empty.py: EMPTY_VALS / EmptyVal.__getattr__"), ("shared selector", "selector.py: MultiFieldSelector.complete_mfs")],
 ["everything reachable from the globals, functions and classes of the library and from declared classes"])

prop("C35", "An operation which is interrupted leaves everything usable",
 "When an operation is interrupted anywhere (Ctrl-C, no memory, too deep a recursion), a KeyboardInterrupt reaches the caller as it is, and what was only read or given is as before. What was being changed still conforms to its declaration - each attribute or item is the old or the new one, required ones are set - and the operation can be done again. Nothing of the library's (locks, registries, caches, shared objects) is left in a state in which later operations, in any thread, behave differently.",
 ["crash_points", "fault_sequences", "programs"],
 "all points of the library at which an operation is interrupted, once or several times, for all operations (declarations, construction, assignment, collections, JSON, comparisons, visits, selectors, copies, placeholders, property types, generic collection types) on any records",
 "no test interrupts anything; code which marks something as done before it is, takes a lock without releasing it on every way out, or catches too much, passes all functional tests",
 ["property/__init__.py", "property/meta.py", "record/__init__.py", "record/meta.py", "record/json.py", "coll.py", "diff.py", "empty.py", "selector.py", "subtype.py", "visitor.py"],
 [("assignment and default functions", "property/__init__.py: init_prop / __get__ / __set__; coll.py: ListCollection.__setitem__"), ("registries", "property/meta.py: create_property_type_from_traits / MetaProperty.__new__; coll.py: _make_generic"), ("caches", "record/json.py: _json_data; empty.py: placeholder"), ("handlers", "subtype.py: __instancecheck__; coll.py: coerce_value; record/json.py: json_to_initkwargs")],
 ["the exception which reaches the caller", "the object and the arguments after an interruption", "results of all operations afterwards"])


if __name__ == "__main__":
    with open(OUT, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P))
