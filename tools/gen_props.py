#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles/statements/anchors)."""
import json, os
P = []
X = "src/autosar/xml/"
M = "src/autosar/model/implementation.py"
G = "src/autosar/generator/type_generator.py"


def prop(pid, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "ARXML round trip preserves every element",
     "Any element the library supports in both directions, built through the public API with any combination of its "
     "attributes and any nesting of supported sub-elements, and then written as ARXML and read back, yields an element of "
     "the same kind whose public attributes all have equal values (same order in lists, same typed references, same enumeration "
     "members, same numbers and texts). Nothing set is lost, nothing unset appears, nothing moves to another attribute or "
     "another element.",
     ["inputs"], "every supported element kind x every combination of set/unset attributes x list lengths x nesting",
     "Each unit test sets one or two attributes of one element; combinations of attributes, several list items, and nesting of one element in "
     "another (the 2^n attribute subsets over about 200 element kinds) are not reached.",
     [X + "writer.py", X + "reader.py", X + "element.py"],
     [("one writer method and one reader method per schema group", X + "writer.py:Writer, " + X + "reader.py:Reader"),
      ("reader collects constructor arguments by name", X + "reader.py:_read_*")],
     observe=["Writer.write_str_elem", "Reader.read_str_elem", "public attributes of the elements"])
prop("C02", "Written ARXML is well-formed for any text content",
     "Whatever texts a user stores in names, descriptions, values, references or attributes (markup characters, quotes, "
     "non-ASCII letters, blanks), the written string or file is well-formed XML, and reading it back returns exactly the same texts.",
     ["inputs"], "every text-valued attribute position x texts over the characters XML treats specially and non-ASCII characters",
     "Tests only use plain alphanumeric texts; none puts '&', '<', '>' or quotes anywhere.",
     [X + "writer.py", X + "reader.py"],
     [("content and attribute emission", X + "writer.py:_XMLWriter._add_content,_add_inline_text,_attr_to_str")],
     observe=["Writer.write_str", "Writer.write_str_elem", "Reader.read_str_elem"])
prop("C03", "Written XML has the tags, nesting and order AUTOSAR prescribes",
     "For every element and every combination of set attributes, the written XML contains exactly the tags the AUTOSAR schema assigns to "
     "those attributes, in schema order and nesting, with destination, interval and identity attributes on the right tags, "
     "regardless of the order in which the attributes were set; unset attributes produce no output.",
     ["inputs"], "every element kind x every subset of its attributes x list lengths",
     "Importing tools validate ARXML against an XSD sequence, so one misplaced tag rejects the file; tests compare single-attribute outputs and cannot see "
     "the relative order of two attributes they never set together.",
     [X + "writer.py", X + "element.py"],
     [("group writers called in schema order", X + "writer.py:Writer._write_*_group")],
     observe=["Writer.write_str_elem"])
prop("C04", "Enumeration values and ARXML texts correspond one-to-one",
     "For every enumeration and schema version 48 to 51, each member has exactly one ARXML text, that text reads back as the same member, different members have "
     "different texts, and a text or member that is not defined (or not defined for that version) is rejected with an error rather than mapped to another member, also when an element using it is written or read.",
     ["inputs", "configurations"], "every enumeration x member x supported schema version, plus undefined texts",
     "Tests read or write a few members per enumeration; the two hand-written tables (text to member, member to text) are never compared over all members and versions.",
     [X + "enumeration.py"],
     [("xml_to_enum table", X + "enumeration.py:xml_to_enum"), ("enum_to_xml table", X + "enumeration.py:enum_to_xml")],
     observe=["xml_to_enum", "enum_to_xml"])
prop("C05", "Numbers survive serialization exactly",
     "Every integer, float or formatted numerical value a user stores (decimal, hexadecimal, binary, scientific; negative, zero, very large, very small, infinite, not-a-number) is "
     "written as a valid AUTOSAR number text and reads back as the same number (real-valued attributes and scientific notation: to the precision of a float), an integral value never turning into a different value. "
     "A requested notation is used wherever AUTOSAR can express the number in it (hexadecimal and binary only for whole numbers that are not negative), and hexadecimal and binary notation is kept on reading.",
     ["inputs"], "integers and floats of any magnitude in any notation, in every attribute that takes a number",
     "Tests use a handful of small decimal numbers; sign, magnitude, exponent and notation are a combination space.",
     [X + "writer.py", X + "reader.py", X + "element.py"],
     [("number formatting", X + "writer.py:_format_float,_format_number,_format_numerical_value"),
      ("number parsing", X + "reader.py:_read_number,_read_integer"), ("NumericalValue", X + "element.py:NumericalValue")],
     observe=["Writer.write_str_elem", "Reader.read_str_elem", "NumericalValue.value"])
prop("C06", "Reading isolates faulty, duplicate and unknown content",
     "Reading a document returns every well-formed supported element at its place, in document order, no matter which unsupported, malformed or duplicate elements stand "
     "before, between or after them; by default each such element is reported and skipped without affecting its neighbours, with stop-on-error the first malformed or duplicate one raises. "
     "An unsupported tag is reported once per document, on stderr, and only when warnings are enabled.",
     ["inputs", "fault_sequences"], "sequences of good, malformed, duplicate and unsupported elements over nested packages x reader settings",
     "Tests read only well-formed single elements; mixtures of faults and their position are not tested.",
     [X + "reader.py", X + "element.py"],
     [("per-element try/except", X + "reader.py:_read_package_elements"), ("unsupported-element bookkeeping", X + "reader.py:_report_unprocessed_element")],
     state=[("observed_unsupported_elements", "tags already reported for this document", X + "reader.py:Reader")],
     observe=["Reader.read_str", "Reader.read_file", "stdout/stderr", "Document.packages"])
prop("C07", "Document files carry their packages and schema version faithfully",
     "Writing a document to a file or string and reading it gives a document with the same packages, sub-packages and elements in the same order and the same "
     "schema version (48 to 51) and schema file name; writing that document again gives byte-identical output.",
     ["inputs", "configurations"], "any package forest x any supported schema version x file or string output",
     "Tests write one package or an empty document in the default version.",
     [X + "writer.py", X + "reader.py", X + "document.py"],
     [("document header", X + "writer.py:_write_document"), ("schema version detection", X + "reader.py:_read_schema_version")],
     observe=["Writer.write_file", "Writer.write_str", "Reader.read_file", "Document.schema_version"])
prop("C08", "Readers and writers keep no state between uses",
     "What a writer emits for an element or document, and what a reader returns and reports for an input, depends only on that input and the settings the object was created with: "
     "after any sequence of earlier reads and writes, successful or failed, the same reader or writer object behaves like a new one, and reading or writing never alters previously returned documents.",
     ["histories"], "histories of write/read calls (string, file, element; failing or not) on one writer or reader object",
     "Each test uses a new reader and writer for one call.",
     [X + "writer.py", X + "reader.py"],
     [("per-call reset", X + "writer.py:_XMLWriter._open,_str_open"), ("per-call reset", X + "reader.py:Reader.read_file,read_str,read_str_elem")],
     state=[("tag_stack, indentation", "open tags of the writer", X + "writer.py:_XMLWriter"), ("document, schema_version, stop_on_error", "per-read state", X + "reader.py:Reader")],
     observe=["Writer.write_*", "Reader.read_*"])
prop("C09", "Reference paths and lookups agree in the package tree",
     "After any sequence of package and element insertions, an attached package or element's reference is the slash-separated path of names from the root and looking that reference up returns that same object; a path that names nothing returns "
     "nothing; an object with no path to a root has no reference. Names in one package are unique: inserting a duplicate is refused with an error and leaves the tree unchanged.",
     ["histories", "inputs"], "histories of create/append/find/ref operations on packages, sub-packages, elements and their sub-elements",
     "Tests insert one or two packages; interplay of several levels, late attachment of a subtree, name clashes between packages and elements and failed insertions are not covered.",
     [X + "element.py", X + "workspace.py", X + "document.py"],
     [("name map per container", X + "element.py:Package.append,create_package; PackageCollection.append"), ("parent chain", X + "element.py:Identifiable._calc_ref_string")],
     state=[("_collection_map/_package_dict", "names in a container", X + "element.py"), ("parent", "owner of an element", X + "element.py:Referrable")],
     observe=["ref()", "find()", "packages", "elements", "root_collection()"])
prop("C10", "Creating package paths is idempotent and key access stays consistent",
     "Requesting a package path creates exactly the missing packages on it, in one package per name, and returns the last one; requesting it again returns the same object and changes nothing; a path through a non-package is refused. "
     "Packages registered under keys stay the packages at their paths, adding and finding elements by key acts on exactly that package, and using keys before any are registered or an unknown key is an error.",
     ["histories"], "histories of make_packages/create_package_map/add_element/find_element/get_package calls with overlapping paths",
     "Tests create one or two paths once; overlapping prefixes, repeats, re-mapping and elements standing in the way are not exercised together.",
     [X + "element.py", X + "workspace.py"],
     [("path creation", X + "element.py:Package.make_packages, PackageCollection.make_packages"), ("key map", X + "workspace.py:create_package_map,add_element,find_element,get_package")],
     observe=["Workspace.make_packages", "Workspace.get_package", "Workspace.find"])
prop("C11", "Writing documents emits exactly the configured packages, repeatably",
     "Writing a workspace's documents creates, for each configured document, exactly one file under the document root holding exactly the configured packages in the given order, in the requested schema version; "
     "a reference to something that is not a package is refused. Writing does not alter the workspace: references, lookups and owners stay the same, and writing again (after further edits or in another version) gives the files the current contents call for.",
     ["histories", "configurations"], "histories of edits, document registrations and write calls over workspaces with several documents",
     "Tests and examples write once, at the end of the program, and never look at the workspace afterwards.",
     [X + "workspace.py", X + "document.py"],
     [("document assembly", X + "workspace.py:_write_document_from_config")],
     observe=["files written", "Workspace.find", "ref()", "root_collection()"])
prop("C12", "Document mappings split a package into one file per matching element",
     "For each document mapping, writing creates exactly one file per element of a selected type in the mapped package, named after the element, holding that element and exactly the elements whose names are the element's name plus one of the suffixes, "
     "sorted by name, inside the same package path; all other elements stay out and the workspace is left unaltered.",
     ["inputs", "configurations", "histories"], "package contents x element types x suffix filters x repeated writes",
     "One example uses one mapping; no test covers mappings.",
     [X + "workspace.py"],
     [("split algorithm", X + "workspace.py:_gen_package_to_document_mapping"), ("mapping settings", X + "workspace.py:PackageToDocumentMapping")],
     observe=["files written", "ref()", "root_collection()"])
prop("C13", "Namespaces and configuration files resolve roles to package paths",
     "A package role (built-in or user-defined) of a namespace resolves to the normalised path of the namespace's base plus the role's relative path, or the absolute path given; unknown namespaces and roles are errors. "
     "Loading a configuration file leaves the workspace in the same state as the equivalent API calls: the same namespaces, documents, document mappings and behaviour settings, and invalid entries are refused.",
     ["inputs", "configurations"], "namespace tables (base, relative, absolute, dotted paths) x configuration files combining all sections",
     "Tests cover two roles in one namespace and no configuration file.",
     [X + "workspace.py", X + "enumeration.py"],
     [("role map", X + "workspace.py:Namespace, get_package_ref_by_role"), ("config loader", X + "workspace.py:load_config")],
     observe=["Workspace.get_package_ref_by_role", "Workspace.load_config", "BehaviorSettings"])
prop("C14", "Templates create each element once, after its dependencies",
     "Applying a template returns the element of its name in the package its role selects, creating it only when it does not exist, after all templates it depends on have been applied (transitively), and handing it exactly those dependencies; "
     "applying templates in any order and any number of times yields one element per template with the reference the template announced. A create step that returns nothing or something that is not an element is refused and adds nothing.",
     ["histories", "inputs"], "dependency graphs of templates x orders and repetitions of apply, including shared dependencies and failing templates",
     "Tests apply one template with one dependency.",
     [X + "workspace.py", X + "template.py"],
     [("apply", X + "workspace.py:_apply_element_template,_create_dependencies")],
     observe=["Workspace.apply", "ElementTemplate.ref", "Workspace.find"])
prop("C15", "Typed references accept only destinations their type allows",
     "A typed reference can only hold a destination kind its type allows, defaulting to the only allowed one; storing a reference or path into an attribute either keeps path and destination exactly or raises, "
     "and an attached element's own reference has the destination kind of that element and is accepted by every attribute meant for it.",
     ["inputs"], "every reference type x every destination kind x every reference-valued attribute",
     "Tests construct each reference type with one valid destination.",
     [X + "reference.py", X + "base.py", X + "element.py"],
     [("accepted_sub_types", X + "reference.py"), ("reference check", X + "base.py:_check_and_set_reference")],
     observe=["reference constructors", "element constructors", "ref()"])
prop("C16", "Ports get communication specs that match their interface",
     "Creating a port from a port interface yields one port of the requested kind referencing that interface, and one communication spec per requested data element, operation or mode group: of queued or non-queued, sender or receiver, server or client kind as interface and port side demand, "
     "referencing that very element, with the given settings and converted initial value. Requests for names the interface does not have are refused and no port is added. Looking a port up by name (as provider, as requester, or any), and the data element, operation or mode group behind it, finds exactly what was created.",
     ["inputs", "histories"], "interface kinds x number and kind of elements x port side x form and order of the request",
     "Tests cover one- and two-element interfaces in a few combinations.",
     [X + "element.py"],
     [("com-spec factories", X + "element.py:ProvidePortComSpec.make_from_port_interface,RequirePortComSpec.make_from_port_interface"), ("port factories", X + "element.py:SwComponentType.create_p_port,create_r_port,create_pr_port")],
     observe=["SwComponentType.ports", "com_spec attributes"])
prop("C17", "Connectors join compatible ports and get unique names",
     "Connecting two ports of a composition yields an assembly connector (provider to requester, whichever is named first), a delegation connector (inner port and outer port) or a pass-through connector, as the two paths demand, referencing exactly those components and ports and findable at its own reference; "
     "unknown or malformed paths, inner ports that do not fit each other, outer ports that do not fit the direction of the inner one, and repeated connections are refused and leave the composition unchanged; a port of both directions fits either side.",
     ["inputs", "histories"], "pairs of port paths x port directions x sequences of connections in one composition",
     "Tests create one connector of each kind with provide/require ports only.",
     [X + "element.py"],
     [("connector factory", X + "element.py:CompositionSwComponentType.create_connector")],
     observe=["CompositionSwComponentType.connectors", "find()", "ref()"])
prop("C18", "Events get unique names and reference what they were created for",
     "In an internal behaviour, every created event starts the named runnable, refers to the port, element, operation or mode it was requested for, and all event names stay pairwise distinct whatever the order and number of creations; "
     "generated names follow the configured prefix. A refused request (unknown runnable, port, element, operation, mode, missing prefix) raises and leaves the behaviour, including the names of existing events, unchanged.",
     ["histories", "inputs"], "histories of create_*_event calls with repeated, explicit and generated names, valid and invalid targets",
     "Tests create one event per behaviour (one name clash in one test).",
     [X + "element.py"],
     [("unique naming", X + "element.py:make_unique_name_in_list"), ("event factories", X + "element.py:SwcInternalBehavior.create_*_event")],
     state=[("events", "events of a behaviour", X + "element.py:SwcInternalBehavior")],
     observe=["SwcInternalBehavior.events", "ref()"])
prop("C19", "Runnable port access lands in the access list the request names",
     "Each port access requested for a runnable adds exactly one access point, in the list determined by port side, interface kind and prefix, referencing that port and element, named by the configured prefix or the given name, with the extra settings applied; "
     "requests that name no existing port or element, or an access that port does not offer, are refused. The request objects passed in are not modified, no access point is lost or duplicated, and the names within one access list stay distinct.",
     ["inputs", "histories"], "interface kinds x port sides x prefixes x explicit/implicit element x named/unnamed x extra settings, in sequences",
     "Tests cover one successful request per cell of a part of this table.",
     [X + "element.py"],
     [("access parser and dispatcher", X + "element.py:RunnableEntity.create_port_access")],
     observe=["RunnableEntity access lists"])
prop("C20", "Runnables, exclusive areas and port API options stay consistent",
     "Creating a runnable adds exactly one runnable with the requested settings whose exclusive-area entries reference areas of the same behaviour (unknown names are refused, nothing is added); port API options hold at most one entry per port, "
     "cover exactly the requested ports (all of them for the wildcard) with the requested settings, later requests replacing earlier ones, and requests naming unknown ports are refused without adding anything.",
     ["histories", "inputs"], "histories of create_exclusive_area/create_runnable/create_port_api_options calls over behaviours with several ports",
     "Tests make one such call per behaviour.",
     [X + "element.py"],
     [("runnable factory", X + "element.py:SwcInternalBehavior.create_runnable"), ("port API options", X + "element.py:SwcInternalBehavior.create_port_api_options")],
     observe=["SwcInternalBehavior.runnables", "port_api_options", "exclusive_areas"])
prop("C21", "Value specifications mirror the Python data they are built from",
     "Building a constant or initial value from Python data gives the value specification tree of the same shape: numbers, texts, arrays and records in order, labels on the labelled values, not-available values with their pattern, constants wrapped as constant references, "
     "ready-made specifications kept as they are; data outside the documented formats is refused with an error.",
     ["inputs"], "nested Python data (numbers, texts, lists, labelled tuples, None, references) of any depth, including malformed data",
     "Tests build a few fixed trees of depth two.",
     [X + "element.py"],
     [("value builder", X + "element.py:ValueSpecification.make_value,make_value_with_check")],
     observe=["ValueSpecification.make_value", "ConstantSpecification.make_constant"])
prop("C22", "Limits, scales and computation tables mean what was asked for",
     "A constraint accepts a value exactly when it lies between its limits, each limit counting as inside when closed and outside when open; value tables assign each given text its own consecutive or explicit range and label, "
     "and rational computations and convenience constraints carry exactly the factor, offset, limits, interval kinds, unit and defaults they were given.",
     ["inputs"], "limits (open/closed/absent) x values; value-table element forms; scaling arguments",
     "check_value and the table builders are exercised on a few values, open limits hardly at all.",
     [X + "element.py"],
     [("check_value", X + "element.py:LimitObject.check_value"), ("table builders", X + "element.py:Computation.make_value_table,make_rational; DataConstraint.make_physical,make_internal")],
     observe=["check_value", "Computation.compu_scales", "DataConstraint.rules"])
prop("C23", "The implementation model resolves every data type exactly once",
     "Creating a data type in the implementation model from an element or reference resolves all types it depends on, represents each referenced data type by one shared object with the properties of its ARXML element, returns the same object when asked again, "
     "and refuses unresolvable references and unsupported categories without leaving the model unusable.",
     ["histories", "inputs"], "graphs of base, scalar, reference, array, record and pointer types x orders of requests",
     "Tests request one type per model.",
     [M, "src/autosar/model/element.py"],
     [("creation and cache", M + ":ImplementationModel.create_from_element")],
     state=[("data_types", "created types by reference", M), ("source_type_refs", "explicitly requested types", M)],
     observe=["ImplementationModel.create_from_ref", "ImplementationModel.data_types"])
prop("C24", "Generated type headers define every type once, before its use",
     "For any set of requested data types, the generated type section defines every requested type and every RTE-emitted type it depends on exactly once, each after all types its definition names, "
     "and omits exactly the types that are not to be emitted; the order and text are the same for every order in which the types were requested.",
     ["inputs", "histories"], "type graphs with shared and nested dependencies x orders of requests x type emitters",
     "Tests generate one to three types at a time.",
     [M, G],
     [("dependency trees", M + ":gen_type_dependency_trees,get_type_creation_order"), ("ordering and filtering", G + ":gen_data_type_creation_order")],
     observe=["TypeGenerator.write_type_defs_str", "TypeGenerator.gen_data_type_creation_order"])
prop("C25", "Generated C declarations match the ARXML data types",
     "Every generated typedef has the name, target type, array dimensions and member list (names, types and order) its ARXML data type describes, base types with a native declaration appear as that declaration in arrays and records, and the complete header is one C translation unit "
     "with matching guards that a C and a C++ compiler accept.",
     ["inputs"], "data types of all supported categories, array dimensions, record member lists, base types with and without native declaration",
     "Tests compare the text of single small types and never compile a header.",
     [G, M],
     [("declaration emission", G + ":_gen_type_defs,_gen_array_type_def,_gen_record_type_def,_create_code_sequence")],
     observe=["TypeGenerator.write_type_defs_str", "TypeGenerator.write_type_header"])
prop("C26", "Sub-elements are attached to exactly the object they were added to",
     "Adding a sub-element (data element, operation, argument, error, mode, port, runnable, event, access point, record or array element and the like), through a constructor, an append or a create call, puts exactly that object at the end of its list, makes the receiving object its owner so that its reference extends the owner's, "
     "and lookup by name on the owner finds it; adding an object of a wrong kind raises and leaves the owner unchanged.",
     ["inputs", "histories"], "every container kind x sub-element kind x way of adding, valid and invalid",
     "Tests append valid objects to a part of the containers and never check ownership after the fact.",
     [X + "element.py"],
     [("append_* methods", X + "element.py")],
     observe=["list attributes", "parent", "ref()", "find()"])
prop("C27", "Behaviour settings change only as told",
     "Behaviour settings hold exactly the last text value set for each known name, whether set singly, in bulk or from a configuration file; unknown names and non-text values are refused with an error, and asking for a setting that has no value is an error.",
     ["histories", "inputs"], "sequences of set_value/update/get_value/load_config over all names, with valid and invalid entries",
     "Tests set one or two names to valid values.",
     [X + "element.py", X + "workspace.py"],
     [("settings access", X + "element.py:BehaviorSettings")],
     observe=["BehaviorSettings.get_value", "BehaviorSettings.set_value", "BehaviorSettings.update"])
prop("C28", "Constructor arguments count in every form or are refused",
     "Constructors that accept short forms (one item instead of a list, a reference given as text, a number, text or (language, text) pair instead of the sub-element holding it, names or tuples for modes) build exactly the element the full form describes, falsy values included; "
     "an argument in any other form (tuple, foreign object, reference object of another class) is either stored or refused with an error, a reference whose destination does not fit is refused, and no argument is ever silently ignored.",
     ["inputs"], "every constructor x argument x form x value, alone and among all other arguments",
     "Tests use one form of each argument with ordinary values.",
     [X + "element.py", X + "base.py"],
     [("constructors", X + "element.py"), ("assignment helpers", X + "base.py:ARObject._assign")],
     observe=["attributes of constructed elements", "raised exceptions"])

prop("C29", "The way a document is written does not change what is read",
     "Two ARXML documents that say the same in XML terms are read as equal elements without reports: layout and line ends, comments and processing instructions anywhere "
     "(between tags and in the midst of a text), CDATA sections and character references, single or double quotes, empty-element tags, truth values as words or digits, "
     "namespace prefixes, additional checksum and time attributes, byte order marks, and any encoding and declaration of it, from a file or a string.",
     ["inputs"], "every element class x attribute x way of writing the same document",
     "Tests read documents laid out in one way.",
     [X + "reader.py"], [("Reader", X + "reader.py:Reader")],
     observe=["attributes of elements read", "reports of the reader"])

prop("C30", "Create methods and factories give exactly the element described",
     "Creating an element through its owner (create_data_element, create_in_argument, create_runnable, create_timing_event, create_p_port, create_package and the like) or through a factory "
     "(the make methods of events, constraints, paragraphs, accesses) gives exactly the element its arguments describe, whether given by position or by keyword, with the name, texts and every other "
     "attribute that can be given by keyword; it is handed back, and the owner holds that very element at the end of its list, leaving what it held before as it was.",
     ["inputs"], "every create method and factory x elements of the created class x positional and keyword arguments",
     "Tests call each method with one or two of its arguments.",
     [X + "element.py"], [("create methods", X + "element.py"), ("factories", X + "element.py")],
     observe=["returned element", "lists of the owner"])

prop("C31", "An element on its own is written and read as in a document",
     "write_str_elem writes an element of any supported class, or a reference, as exactly the XML it has at its place in a document of the writer's schema version, under the tag given where "
     "its class has several, and read_str_elem reads that text back (by tag, or by the name of its type) as an equal element, for any number of elements in turn with one writer and reader.",
     ["inputs", "histories"], "every class x the schema enumeration of its elements x tags x schema versions",
     "Tests write single elements with one or two attributes.",
     [X + "writer.py", X + "reader.py"], [("Writer.write_str_elem", X + "writer.py:Writer"), ("Reader.read_str_elem", X + "reader.py:Reader")],
     observe=["text of Writer.write_str_elem", "attributes of elements read by Reader.read_str_elem"])

prop("C32", "What an element tells about itself follows from what it holds",
     "At any time of an element's life - built, changed attribute by attribute, or read back from its text - the answers it derives are those of what it holds then: is_empty is true exactly when no "
     "attribute is set, short_name is the name, is_queued and is_composite, the content_type of a scale, the direction and string of a reference, the string of a unit name, the length and items of "
     "data definition properties, the tag of a connector's inner port.",
     ["inputs", "histories"], "every class x starting elements x assignments and removals of each attribute",
     "Tests ask a handful of newly built elements.",
     [X + "element.py", X + "base.py", X + "reference.py"], [("ARObject.is_empty", X + "base.py:ARObject"), ("VariableDataPrototype.is_queued", X + "element.py:VariableDataPrototype")],
     observe=["is_empty, short_name, is_queued, is_composite, content_type, is_provide_port_ref, is_require_port_ref, xml_tag, str(), len() of elements"])

prop("C33", "Numbers in documents mean what their text says, in any notation",
     "A number in a document is read as the number its text denotes, in every notation AUTOSAR allows at its place: whole numbers in decimal, hexadecimal, binary or octal (a leading zero), "
     "real numbers and numerical values with or without sign, fraction and exponent, infinities and not-a-number, letters of either case (reals to the precision of a float), hexadecimal and binary "
     "notation being kept where numbers have one. A text that is no number is malformed: its element is reported and left out, never read as some number, and its neighbours are read.",
     ["inputs"], "every number-valued place of every class x every way to write a number",
     "Tests read decimal numbers at a few places.",
     [X + "reader.py", X + "element.py"], [("Reader._read_number, _read_integer", X + "reader.py:Reader"), ("NumericalValue", X + "element.py:NumericalValue")],
     observe=["number-valued attributes of elements read", "elements left out"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
