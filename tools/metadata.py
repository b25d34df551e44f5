"Texts of the manifest and the evidence, by property."

TRUSTED = [
    "pyvc: symbolic interpreter for Python source, loop summaries, models of built-in functions (this repository)",
    "z3 5.3.2, cvc5 1.1.2",
    "CPython's ast module: the verified text is the source file that the interpreter imports, parsed on each run",
]
GENERAL_ASSUMPTIONS = [
    "arguments respect the documented types (e.g. JSON data is a tree of None, bool, int, float, str, list, dict with string keys)",
    "values have the standard meaning of ==, hash and truth; no operator overloading in user-defined classes",
    "recursion over the type is by induction: readers and writers of component types are used through their contract",
    "resource exhaustion (recursion depth, memory) does not occur",
]
# a property whose obligations do not cover its statement is not claimed as proved
LEVEL: dict = {}
ASSUME = {
    "C02": ["the interpreter converts texts of up to 4300 digits to integers (its default)"],
    "C01": [
        "standard library round trips: date/time/datetime isoformat and fromisoformat, base64 encode and decode, UUID and IP addresses to and from text",
        "the text of a date-time of UTC, and of no other, ends in +00:00",
    ],
    "C03": [
        "induction hypothesis: what the writer of a component type makes of a value of the type is read back as this value, and is null only for None",
        "reading what is not null as an optional type is reading it as the type without None",
        "an optional value is written by the writer of its class (writer without type information)",
        "members of a class have distinct property names (proved under C10 for members without alias)",
    ],
    "C10": ["members of one class whose aliases clash are outside the contract"],
    "C11": [
        "induction hypothesis: the schema of a component type accepts what its writer makes of values of the type; items of a set that differ are written differently (C03)",
        "the documentation texts of a class and its members are arbitrary strings (contract on docstring_to_schema and get_class_property_docstrings)",
        "an anchored alternation of escaped texts matches exactly these texts",
    ],
    "C12": [
        "a name denotes one type within a document (known finding F19); references to classes that are not registered are exempt (F20); an enumeration that is the key of a dictionary has a member",
        "schemas that users register make no references; descriptions and default values are not references",
        "the catalog is changed by registering only (no obligation finds another write to it)",
        "jsonschema's check_schema decides conformance to the standard",
    ],
    "C14": ["nodes are compared by an equivalence, and every adjacent node is a node of the graph", "the caller's dependency function returns the same types whenever it is asked about a type, in something that may be gone over once only; it does not return the collector's private root class"],
    "C15": ["the module in which a class is defined has been imported", "the types of members of a class do not mention the collector's private root class"],
    "C08": [
        "what an entry of a table of readers or writers is found under is its own key: a look-up depends on the entry of this key alone",
        "the shared state is that of module-level dictionaries and of the readers and writers themselves: any other assignment to shared state is outside the interpreter's reach and leaves the obligation undischarged",
        "the factory of a reader depends on the type and the options only; what is raised while a reader is built is one of TypeError, NameError and RecursionError",
    ],
    "C21": ["property names are distinct and have no dots; nodes are of type object or not; flattening of nested objects is by induction over the schema"],
    "C18": [
        "evaluation of type expressions (subscription, |, names) is Python's; the repr of a plain constant denotes it",
        "induction hypothesis: the text of a component denotes it, in the context of brackets, commas and |",
    ],
    "C19": [
        "contracts of the two regular expressions (where a line begins with a colon), of inspect.cleandoc on a text whose lines are not indented, and of StringIO",
        "names of parameters and exceptions have no whitespace or colon, descriptions are normalised (single spaces, no tabs); a description does not begin a line with a colon, and a long one is trimmed",
    ],
    "C17": ["isinstance of a plain class and the caller's predicate are uninterpreted"],
    "C20": [
        "json_to_object reads the default of a property as its type (C04, C05), and the schema as nodes (C05, C06)",
        "make_dataclass, enum.Enum and ForwardRef create what they are given; Python's enumerations leave out names that are empty, mro, sunder, dunder or private to the class",
        "re.sub of a non-word character by an underscore yields word characters only; re.match yields the name of a reference",
        "the values of an enumeration are distinct",
    ],
    "C04": ["the standard library parsers (fromisoformat, b64decode, UUID, ip addresses) return values of their class or raise ValueError"],
    "C05": ["default factories return a fresh object per call by their own contract; calls are counted per read object"],
    "C07": [
        "equality of tag values is an arbitrary equivalence, and literal values are hashable",
        "the set of tag properties is iterated in an arbitrary but fixed order",
        "readers of the member classes are used through their contract (C05)",
    ],
    "C09": ["to_json of user classes returns plain JSON data", "dir, inspect.ismethod and getattr of user classes are uninterpreted", "json.dumps and json.dump write a text that is parsed to the tree that is written, given separators and white space of JSON"],
}
BOUNDED = {
    "C04": ["classes (the member rules are proved under C05; membership of the constructed object is evaluated)"],
    "C03": ["recursive types are covered by induction over the value; that the readers of recursive types are built completely is exercised in rac"],
    "C11": ["unions of three or more members whose schemas overlap are not accepted (known finding F13)", "registered types, forward references (rac)", "Decimal and Precision (no reader; constraints under C13)"],
    "C12": ["documents with the types predefined in the module (JsonType and the like), and type graphs of real classes (rac)"],
    "C17": ["classes nested in classes: by induction over the type"],
    "C18": ["forward references and type variables are outside the statement; annotations of user classes (rac)"],
    "C19": ["default documentation strings of data classes and enumerations are told apart by a regular expression (rac)", "ill-formed directives (a line that begins with a colon and has no other)"],
    "C20": ["decimal precision (up to 28 digits before and after the point)"],
    "C08": ["the module that names are looked up in when the caller gives none (caller's frame; rac)", "histories that involve tagged unions, durations and classes without annotations (rac)"],
}
NOTE = {}
APPROACH = {
    "C01": "Per scalar class, for an arbitrary value v: the real writer is created and run on v, the real reader on its output; the postcondition is equality of value and kind and the documented JSON primitive. Covers every value, where tests sample; the text form of dates is covered by the stated assumption on the standard library.",
    "C02": "A duration is an integer number of microseconds with the bounds of timedelta. Writer: for an arbitrary duration the text is taken apart by the grammar of durations in the contract, and denotes exactly the duration. Reader: for every selection of components (sign, weeks, days, time, hours, minutes, seconds, fraction of 1 to 9 or more digits), each an arbitrary run of digits of arbitrary length, the result is the sum of the components, or a value error exactly if it is finer than a microsecond, out of range, or has more digits than the interpreter converts; every other text is refused (inclusion of the language of the pattern in that of the grammar, decided by z3 on the pattern as Python parses it). The two composed: every duration is read back.",
    "C03": "For every constructor (list, set, tuple, dictionary with text or enumeration keys, literal, annotated, optional, the four kinds of classes with any number of members) the real writer runs on an arbitrary value and the real reader on its output; the postcondition is equality with the value, from the hypothesis that component types have the property.",
    "C04": "For every form of type expression with arbitrary component types and an arbitrary JSON value: outcome of the real reader equals the specification (spec_read.py: kind check, length, order, components through their contract), from which membership follows by induction over the type; the error kinds are part of it.",
    "C05": "The readers of data classes, frozen data classes, named tuples and plain classes with an arbitrary number of members, arbitrary names, types, defaults, aliases, against an arbitrary JSON object with both options; postcondition: the constructed object has exactly the members of the rules, or the stated exception.",
    "C06": "UnionDeserializer with any number of arbitrary member types: first-match, exceptions filtered as documented.",
    "C07": "The reader of a discriminated union of arbitrarily many classes (arbitrary fields, literal members with arbitrary values): building it is refused exactly if two members share a tag value; an object is read by the member whose tag values contain the tag, whatever else it has, and refused if there is none; the tag properties are those that are literal in every member (loop accumulating an intersection, by invariant).",
    "C08": "For any two calls for a reader (or writer), of classes, names and other forms of type, the second one returns what it would have returned without the first, also if the second is made while the reader of the first is being built; a failed call removes every entry that may refer to an incomplete reader; readers, writers, their input and the caller's options are not modified when they are used; the options and the context that are used are those of the call. rac: histories of calls in one process against each call in a fresh state.",
    "C09": "Writers of every form with arbitrary components: the output is a new container whose items are the outputs of the components' writers (detached by construction: a frame condition on the new container), members None left out.",
    "C10": "The function that names properties is proved against its specification, with distinct names for distinct members; the real writer, the real reader and the real schema generator are proved to use this function's result for every member of an arbitrary class of each kind, including the list of required properties.",
    "C11": "The real schema generator and the real writer run on arbitrary values of each form of type; the postcondition is that an executable specification of JSON schema accepts the output. For classes the schema is first proved equal to the specified one (exactly the members' properties, exactly the non-optional ones required). rac validates random values with the jsonschema library.",
    "C12": "The loop that collects definitions is verified by invariant on an arbitrary type graph (any number of names; names come into use while definitions are made): the definitions are the least set that contains what the document refers to and what definitions refer to. Form by form (lists, sets, tuples, dictionaries, unions, literals, classes with any number of members, annotated, registered and forward-referenced types), a schema brings into use exactly the names in its references. A definition is the schema of the type of its name; generating leaves the catalog unchanged; registering is done once, in both tables, or refused without effect; the document names the standard against which it has been checked. rac: documents checked for closure, against the metaschema, for repetition in different orders, for refusal of double registration.",
    "C13": "Each annotation with arbitrary parameters gives exactly its constraints; any number of annotations together give all of them; the table of fixed-width types is finite and compared exhaustively. rac: random combinations.",
    "C14": "The recursive search is verified by contract on an arbitrary graph (any number of nodes and edges): loop invariant and contract of the recursive function over the marks and the list of finished nodes, including the decrease of unvisited nodes; what is raised comes with a cycle. Sorting types is proved to sort the graph of C15. rac: random graphs (equal but not identical nodes, frozen sets, self-references) and class hierarchies with dependency functions, under several hash seeds.",
    "C15": "The collector is verified by contract on an arbitrary dependency graph, form by form, with loop invariants over arbitrarily many components and members; the set of references is proved to be the least set that includes the classes mentioned and is closed. rac: random class graphs with an independent reachability oracle.",
    "C16": "The real predicates and unwrapping functions on every form of type expression with arbitrary components, arbitrary number of union members, literal values or annotations; postcondition from the form.",
    "C17": "is_generic_instance and the recursive checker on every form of type with arbitrary components, against a membership specification; the recursive checker calls the predicate with the declared type of every member. rac: random types and objects against an independent oracle.",
    "C18": "The real printer runs on every form of type with arbitrary components (any number of members of tuples, unions, literals, callables and annotations), in both union notations; its text is parsed by Python's own parser, with identifiers for the texts of components, and the postcondition is that the expression denotes the type. Fixed-width types keep their name with any number of further annotations, and arbitrary annotations are printed as one only if they are its own. The text of each annotation class, with arbitrary contents, is an expression that creates it. rac: random type expressions printed and evaluated in the namespace of their classes.",
    "C19": "The real printer and the real parser, one after the other, on a documentation string with arbitrarily many parameters, exceptions and references with arbitrary names and texts (loops summarised by an arbitrary iteration): each component of the result equals the original, in order. The real parser on arbitrarily many directives of any kind in any order, each with a text of any number of lines: the result has exactly the directives of its kind. The real checks on arbitrary signatures, classes and base classes: accepted only if each documented parameter exists, refused only for a reason; types of parameters and exceptions are those of the declaration. rac: random structured documentation strings, printed and parsed.",
    "C20": "The real conversion on nodes of every kind with arbitrary contents, child nodes being arbitrary nodes that become an arbitrary type (induction over the schema): integer ranges, integer enumerations with any number of values, constants, formats, defaults, lists, unions of any number of alternatives, references, objects with any number of properties (members in the order that data classes need, optional exactly if not required, with their defaults), definitions. String enumerations of any number of arbitrary values: the loop that looks for a free name is verified by invariant against an arbitrary set of names given before; every value becomes a member, under a name of its own which is not reserved by Python. rac: random schemas with clashing, empty and reserved names.",
    "C21": "The real flattener on object nodes with any number of properties and required names, nested objects through the contract of the recursive call: the result is the specified one, property by property and in order; required exactly if required where it came from; with qualified names no two members meet (string lemma); the input is not modified. rac: random object schemas, all option combinations, against an independent flattener.",
}
RULES = {f"C{k:02}": "" for k in range(1, 22)}
RULES.update(
    C01="random scalar values of each kind (extremes included), written and read back; distinct by type and value",
    C02="random durations and duration texts (valid, near-valid, extreme); distinct by text",
    C03="random type expressions and classes up to depth 4 with random values, written and read back; distinct by type and JSON text",
    C04="random types against random and mutated JSON values, compared with an independent membership oracle; distinct by type and JSON text",
    C05="random classes, JSON objects with subsets of members absent, null, or unknown, both options; distinct by class and JSON text",
    C06="random unions against random JSON values, compared with first-match over the members; distinct by union and JSON text",
    C07="random tagged unions and JSON objects; distinct by union and JSON text",
    C08="random histories of read and write calls, compared with fresh interpreter state; distinct by history",
    C09="random values, checked for JSON kinds, aliasing, mutation and text round trip; distinct by type and JSON text",
    C10="random member identifiers and aliases, compared across writer, reader and schema; distinct by class",
    C11="random types and values, JSON validated with jsonschema against the generated schema; distinct by schema and JSON text",
    C12="random sets of registered and unregistered classes, sequences of generations; distinct by document",
    C13="random annotations and parameters, fixed-width types; distinct by schema",
    C14="random graphs and class hierarchies under several hash seeds; distinct by graph",
    C15="random class graphs, compared with an independent reachability oracle; distinct by type expression",
    C16="random type expressions, compared with an independent classifier; distinct by type expression",
    C17="random type expressions and objects, compared with an independent membership oracle; distinct by type and object",
    C18="random type expressions, printed and evaluated; distinct by text",
    C19="random structured documentation strings and signatures; distinct by text",
    C20="random schemas in the supported subset; distinct by schema",
    C21="random object schemas and option combinations; distinct by schema",
)
