import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=None
    P.append(d)
S="strong_typing/"
p("C01","Scalar values survive the JSON round trip",
"For every scalar type the library maps to a JSON primitive (None, bool, int, finite float, str, bytes, date-time with a UTC offset that ISO 8601 text of the standard library can express (zero or at least a second), date, time, UUID, IPv4 and IPv6 address, and enumerations with string or integer values), writing a value to JSON and reading the result back as the same type yields an equal value of the same type. The JSON written is the documented primitive: null, boolean, number or string respectively, with UTC date-times ending in Z.",
["inputs"],"every value of each scalar type",
"tests sample one or two literals per scalar type; offsets, extreme dates, empty byte strings, negative or huge numbers are never tried",
[S+"serializer.py",S+"deserializer.py",S+"serialization.py"],
[("scalar writers","serializer.py *Serializer.generate"),("scalar readers","deserializer.py *Deserializer.parse"),("type dispatch","_create_serializer/_create_deserializer")],observe=["object_to_json","json_to_object"])
p("C02","Durations are written and read exactly",
"Every duration value is written as ISO 8601 duration text that denotes exactly that duration to the microsecond, and reading the text back yields an equal duration. Reading any duration text yields exactly the sum of its week, day, hour, minute, second and fraction components; text that is not of that form, that is finer than a microsecond, that exceeds the representable range, or whose components have more digits than the interpreter converts is rejected with a value error instead of being rounded or truncated.",
["inputs"],"every timedelta value (positive, zero, negative) and every input string",
"tests try about twenty durations; the arithmetic split into h/m/s, zero padding of the fraction, and carry between components must hold for all 10^20 values",
[S+"serializer.py",S+"deserializer.py"],
[("duration writer","TimeDeltaSerializer.generate, iso8601_time_duration"),("duration reader","TimeDeltaDeserializer.parse")],observe=["object_to_json(timedelta)","json_to_object(timedelta, text)"])
p("C03","Containers and objects survive the JSON round trip",
"For lists, sets, fixed-length tuples, dictionaries with string or string-valued-enumeration keys, named tuples, data classes (frozen or not), plain classes with annotated members, optionals, literals and annotated types, nested to any depth: if the members survive the JSON round trip then writing the composite value and reading it back as the same type yields an equal value of the same type (a member that is None is left out, hence None must be the default of that member or its type optional). Types with to_json/from_json are written and read through exactly those functions. Types that refer to themselves are supported.",
["inputs","programs"],"every composite type built from supported parts, every value of it, any size and nesting depth",
"tests use a handful of fixed sample classes with at most three elements; element order, length, key mapping and per-field pairing must hold for every length and every class definition",
[S+"serializer.py",S+"deserializer.py",S+"mapping.py",S+"inspection.py"],
[("container writers","Typed*Serializer, TypedClassSerializer, FieldSerializer"),("container readers","List/Dict/Set/Tuple/Class deserializers"),("object construction","ClassDeserializer.create, create_object")],observe=["object_to_json","json_to_object"])
p("C04","Reading JSON yields only values of the requested type",
"Whenever reading JSON data as a type succeeds, the result is a value of that type, recursively in all its items, keys and members, with containers of exactly the length and order of the data. JSON data of the wrong kind for the type (for example a string where a number is expected, null where a value is required, an object where an array is expected, a fixed-length array of another length, a value equal to no member of a literal or enumeration) is rejected with an error and never coerced; the only widenings are that JSON booleans count as the integers 0 and 1, and integers count as floating-point numbers.",
["inputs","programs"],"every supported type and every JSON value, valid or not",
"tests contain about fifteen rejection cases; soundness quantifies over all pairs of type and JSON value",
[S+"deserializer.py",S+"inspection.py"],
[("kind checks","*Deserializer.parse"),("type dispatch","_create_deserializer")],observe=["json_to_object","json_to_generic"])
p("C05","Object members are read by the documented field rules",
"When a JSON object is read as a class type, a member that is not optional and has no default must be present and non-null, an optional member that is absent or null becomes None, and an absent or null data-class member with a default becomes that default, a default factory being called anew for each object read. Each member takes its value from its own JSON property and from no other, and every member is assigned. A property that corresponds to no member is rejected unless the caller asks for unknown properties to be ignored, in which case it has no effect on the result.",
["inputs","programs","configurations"],"every class definition (data class, frozen data class, named tuple, plain class), every JSON object, both option settings",
"tests cover one optional wrapper class and one unknown property; the rule is over all subsets of present/absent/null members and all class shapes",
[S+"deserializer.py"],
[("field readers","Required/Optional/Default/DefaultFactoryFieldDeserializer.parse_field"),("class reader","ClassDeserializer.parse"),("field selection","DataclassDeserializer.build, TypedClassDeserializer.build, NamedTupleDeserializer.build")],observe=["json_to_object"])
p("C06","A union is read as its first matching member type",
"Reading JSON data as an undiscriminated union type yields exactly what reading it as the first member type, in declared order, that accepts the data yields. A member type that rejects the data with a library error or a ValueError never prevents a later member type from matching, and if no member type accepts the data the library's key error is raised.",
["inputs","programs"],"every union of supported types (including optionals and the X | Y form) and every JSON value",
"tests try unions of two or three types with one value each; precedence and fall-through must hold for each member count, order and failure kind",
[S+"deserializer.py"],
[("union reader","UnionDeserializer.build, UnionDeserializer.parse"),("dispatch","_create_deserializer")],observe=["json_to_generic"])
p("C07","Discriminated unions are resolved by their tag alone",
"For a union of classes that share a property of literal type with disjoint values, JSON data is read as exactly the member class whose literal values contain the value of that JSON property, whatever the order of the members in the union or of properties in the data; it is never read as another member class. Data that is not an object, lacks every tag property, or has a tag value belonging to no member is rejected with the library's type error, and a union whose members share a tag value is rejected when the reader is created.",
["inputs","programs"],"every discriminated union (any number of members, tag properties and literal values, aliased tags included) and every JSON value",
"tests use one union of three classes and four data values",
[S+"deserializer.py"],
[("tag table","TaggedUnionDeserializer.build"),("tag lookup","TaggedUnionDeserializer.parse"),("tag discovery","get_discriminating_properties, get_literal_properties")],state=[("member_parsers","map from (tag property, tag value) to the reader of the member class","TaggedUnionDeserializer")],observe=["json_to_generic"])
p("C08","Reading and writing do not depend on earlier calls",
"The outcome of reading JSON data as a type depends only on the type, the data, the resolution context and the options of that call, and the outcome of writing a value depends only on the value: neither depends on which types were read or written before, with which options, or whether earlier calls failed. In particular, distinct types are never confused even if they have the same name, and an option given in one call does not leak into another.",
["histories","configurations","programs"],"every sequence of read/write calls over any set of types and options",
"tests run one call per type in a fixed order and never mix options or same-named types; the caches are process-global state",
[S+"deserializer.py",S+"serializer.py"],
[("reader cache","_get_deserializer, _CACHE"),("writer cache","_fetch_serializer")],state=[("_CACHE","process-wide map from cache key to reader","deserializer.py")],observe=["json_to_object","create_deserializer","object_to_json"])
p("C09","Written output is a plain JSON tree detached from the input",
"Writing a value of a supported type yields a tree made only of None, bool, int, float, str, list and dict with string keys, so that encoding it as JSON text with the library's dump functions and parsing the text yields the same tree. Annotated members of data classes, named tuples and plain classes whose value is None are left out; every other member is written under its own property name. Neither writing nor reading changes the input, and the output shares no mutable object with it.",
["inputs","programs"],"every value of every supported type, through its declared or its run-time type",
"tests compare a few fixed outputs; no test looks at key types, aliasing or mutation",
[S+"serializer.py",S+"serialization.py"],
[("writers","*Serializer.generate"),("text output","json_dump_string, json_dump")],observe=["object_to_json","json_dump_string"])
p("C10","Property names agree between writing, reading and schema",
"Each class member has one JSON property name: the alias if its type is annotated with one, otherwise the member name with a single trailing underscore removed exactly when what remains is a Python keyword, otherwise the member name. The same property name is used for writing the member, for reading it, and in the generated JSON schema (including the list of required properties), for data classes, named tuples and annotated classes alike. Distinct members without aliases never get the same property name.",
["programs","inputs"],"every class definition and every member identifier",
"tests check one alias and one plain name; no test has a keyword-suffixed member in a class",
[S+"mapping.py",S+"serializer.py",S+"deserializer.py",S+"schema.py",S+"inspection.py"],
[("name mapping","python_field_to_json_property"),("alias lookup","get_annotation"),("users","TypedClassSerializer, ClassDeserializer subclasses, JsonSchemaGenerator.type_to_schema")],observe=["python_field_to_json_property","object_to_json","json_to_object","classdef_to_schema"])
p("C11","Written JSON conforms to the generated schema",
"For every type for which a schema can be generated and every value of that type that satisfies the type's annotations, the JSON written for the value validates against the JSON schema generated for the type. Conversely the schema of a class with members admits no property that the class does not have and requires exactly the properties of its non-optional members.",
["inputs","programs"],"every type supported by both the writer and the schema generator, and every value of it",
"tests validate default instances of four sample classes",
[S+"schema.py",S+"serializer.py"],
[("schema generator","JsonSchemaGenerator.type_to_schema, _simple_type_to_schema"),("validation","validate_object")],observe=["classdef_to_schema","validate_object"])
p("C12","Schema documents are closed, well-formed and repeatable",
"A generated schema document conforms to the selected JSON schema standard, names that standard, and contains for every reference it makes to a type (also if mentioned as a forward reference) a definition under the referenced name that describes that type, and no definition that is not referenced. Generating a schema is repeatable: it gives the same document however often and in whatever order schemas are generated, leaves the catalog of registered types unchanged, and registering a type twice is refused without effect.",
["histories","programs","configurations"],"every type graph over registered and unregistered types, every sequence of schema generations and registrations",
"tests generate a few documents once each; reference closure is over arbitrary type graphs and repeatability over histories",
[S+"schema.py"],
[("definition closure","JsonSchemaGenerator.classdef_to_schema"),("catalog","TypeCatalog.add/get/__contains__"),("registered types","_type_to_schema_with_lookup")],state=[("type_catalog","registered types by type and by name","JsonSchemaGenerator"),("types_used","types referenced during one generation","JsonSchemaGenerator")],observe=["classdef_to_schema","register_schema"])
p("C13","Annotations become exactly the constraints they state",
"Integer ranges, decimal precision and minimum/maximum string length given as type annotations appear in the schema as bounds that admit exactly the values the annotation admits. A fixed-width type is published under its own name as format, and its declared range is exactly the range of a two's-complement (or unsigned) integer of its storage width; combining annotations yields all of their constraints.",
["inputs","programs"],"every combination and parameter of the constraint annotations, every fixed-width type",
"tests check one instance of each annotation",
[S+"schema.py",S+"auxiliary.py"],
[("constraint mapping","JsonSchemaGenerator._metadata_to_schema, _with_metadata"),("fixed-width table","auxiliary int8..uint64, _auxiliary_types, get_auxiliary_format")],observe=["classdef_to_schema"])
p("C14","Topological sort orders every acyclic graph and refuses cycles",
"Sorting a graph returns each node exactly once and nothing else, with every node after all nodes it points to, self-references being ignored; the graph is not modified. If and only if the graph has a cycle of two or more nodes, sorting raises RuntimeError. Sorting types gives an order in which each given or referenced type comes after every type its members mention, and after those that the caller's dependency function returns for it.",
["inputs"],"every finite graph whose edges lead to its nodes; every list of classes and every dependency function",
"tests sort one six-node graph and two class hierarchies; correctness is over all graphs and all iteration orders of the adjacency sets",
[S+"topological.py"],
[("depth-first visit","topological_sort, _visit"),("type graph","type_topological_sort, TypeCollector")],state=[("seen","temporary/permanent mark per node","topological_sort")],observe=["topological_sort","type_topological_sort"])
p("C15","Type dependency collection is complete and exact",
"Collecting the types a type refers to returns exactly the classes reachable from it through containers, optionals, unions, annotations, forward references and members of classes, each once, and terminates for mutually recursive classes. The dependency graph links each class precisely to the classes its members mention directly, and collecting is independent of order and repetition.",
["inputs","programs"],"every type expression and class graph, cyclic ones included",
"tests exercise it only through two sorted class hierarchies; reachability is over arbitrary class graphs",
[S+"inspection.py"],
[("collector","TypeCollector.run, traverse, references"),("entry point","get_referenced_types")],state=[("graph","class to set of classes it depends on","TypeCollector")],observe=["get_referenced_types","TypeCollector"])
p("C16","Type predicates and unwrapping functions agree",
"The type predicates classify every type expression by its outermost form only and see through annotations: a type is optional exactly if it is a union with None among its members, a union exactly if it is a union other than T-or-None, a list/set/dict/literal/enumeration/annotated type exactly if it is one. Unwrapping returns exactly the component types in declared order and keeps annotations where it re-wraps; removing None from an optional keeps all other members. Annotation lookup returns the first annotation of the requested class, or None.",
["inputs","programs"],"every type expression",
"tests evaluate each predicate on a few expressions; the laws relate predicates and unwrappers over all type expressions",
[S+"inspection.py"],
[("predicates","is_type_optional, is_type_union, is_type_literal, is_generic_*, is_type_enum, is_type_annotated"),("unwrappers","unwrap_*, rewrap_annotated_type, get_annotation")],observe=["strong_typing.inspection"])
p("C17","Run-time instance checks decide membership recursively",
"Checking an object against a type is true exactly if the object is a list, dictionary, set or fixed-length tuple all of whose items match the corresponding item types in number and position, matches some member of a union, or is an instance of a plain class. A recursive predicate check returns true exactly if the predicate holds for every nested member property of the object, and applies the predicate to each of them with its declared type.",
["inputs","programs"],"every type expression built from list, dict, set, tuple, union and classes, and every object; every predicate",
"tests check flat containers of length at most three",
[S+"inspection.py"],
[("instance check","is_generic_instance"),("recursive check","RecursiveChecker.check, check_recursive")],observe=["is_generic_instance","check_recursive"])
p("C18","Type names denote the type they are printed for",
"The string printed for a type made of classes, None, Any, Ellipsis, containers, optionals, unions, literals of plain constants, callables and types with hashable annotations is a type expression that, evaluated where the named classes are visible, denotes that same type, in both union notations (the position of None in a union is not significant). Fixed-width types print as their own name, also when they carry further annotations; a type transformation given by the caller is applied to every class mentioned.",
["inputs","programs"],"every type expression, both union styles",
"tests compare about forty printed strings",
[S+"name.py",S+"auxiliary.py"],
[("printer","TypeFormatter.python_type_to_str, plain_type_to_str, union_to_str"),("annotation repr","auxiliary _compact_dataclass_repr")],observe=["python_type_to_str","TypeFormatter"])
p("C19","Documentation strings survive printing and parsing",
"Printing a structured documentation string and parsing the text yields the same short and long description, parameters, returns, raises and see-also entries in the same order, for descriptions without embedded directives (a long description requires a short one). Parsing attributes every block of a recognised directive to the right kind and name and loses none, and a class or function whose documentation names a parameter it does not have is refused.",
["inputs"],"every structured documentation string with whitespace-normalised texts; every class or function signature",
"tests parse six fixed documentation strings",
[S+"docstring.py"],
[("printer","Docstring.__str__"),("parser","parse_text"),("checks","check_docstring, check_dataclass_docstring, check_function_docstring")],observe=["parse_text","parse_type","str(Docstring)"])
p("C20","Types created from a schema accept what the schema accepts",
"A type created from a JSON schema represents the schema: an integer range or integer enumeration becomes an integer type whose range contains it, formats become the corresponding Python types, constants become literals, properties become members that are optional exactly if they are not listed as required, with their defaults, an object without properties becomes an unrestricted JSON value, and references become the types of the named definitions. Enumerations have exactly the listed values, under valid and distinct names.",
["inputs"],"every schema in the supported subset",
"tests import about a dozen fixed schemas",
[S+"classdef.py"],
[("range choice","integer_range_to_type"),("member naming","enum_safe_name, enum_values_to_type"),("node conversion","node_to_typedef, schema_to_type")],observe=["schema_to_type","integer_range_to_type"])
p("C21","Flattening a schema keeps every member",
"Flattening an object schema (with property names without dots) replaces each object-valued property by the properties of that object, keeps all other properties unchanged and in order, and with qualified names every member is reachable under the dotted path of its original position so that none is lost or overwritten. A flattened property is required exactly if it was required in the object it came from; recursive flattening leaves no object-valued property that has members, and the input schema is not modified.",
["inputs","configurations"],"every object schema in the supported subset, all option combinations",
"tests flatten two fixed schemas",
[S+"classdef.py"],
[("flattener","SchemaFlattener.flatten, flatten_schema")],observe=["flatten_schema"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,sch)
print(len(P))
