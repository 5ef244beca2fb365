"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json
from pathlib import Path

F = "fastkml/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": [F + f for f in files], "mechanism": [{"name": n, "where": F + w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None}})


ALLF = ["base.py", "helpers.py", "registry.py", "kml.py", "containers.py", "features.py", "geometry.py", "gx.py", "styles.py",
        "overlays.py", "views.py", "times.py", "links.py", "model.py", "data.py", "atom.py", "network_link_control.py"]

p("C01", "Writing KML says exactly what the objects hold",
  "Serializing any object built through the public constructors yields well-formed XML in which every value that was set appears "
  "once, under the KML name, namespace, nesting and data type the KML 2.2 / gx / atom vocabulary prescribes for it, with list "
  "valued content in list order, and in which nothing appears that was not set. Numbers are written so that they read back "
  "exactly, text and attribute values of characters XML allows are written verbatim (escaped as needed), and only parts that lack the content KML "
  "makes mandatory for them (a link without an address, a geometry without positions) are left out.",
  ["inputs"], "all KML element classes, all combinations of set and unset attributes, all attribute values, all nestings and list lengths",
  "The tests compare a few hundred hand-written snippets; the space of attribute combinations, values (zero, false, huge, non-ASCII, "
  "markup characters) and nestings is unbounded and most class/attribute/value pairs are never written by any test.",
  ALLF, [("set_element functions of the registry", "helpers.py"), ("etree_element", "base.py"), ("etree_element of the root", "kml.py"),
         ("coordinates_subelement", "geometry.py"), ("__bool__ of every class", "styles.py")],
  ["to_string(), str() and etree_element() of every class"])

p("C02", "Reading KML recovers every value, however the XML is spelled",
  "Reading a well-formed KML document or snippet yields objects whose attributes equal the values in the text, with nothing lost, "
  "invented, moved to another object or changed in type. The result does not depend on how the XML spells them: namespace prefixes, "
  "quoting, CDATA sections, character references, comments and processing instructions, white space around values, the order of "
  "differently named elements, any legal spelling of a number, boolean, date or coordinate list, nor on the encoding the declaration of a text string names. Repeated elements of one kind keep their document order.",
  ["inputs"], "all KML documents over the supported vocabulary and all their equivalent XML spellings",
  "Tests read documents in one spelling each; the cross product of element kinds, values and lexical variants is never sampled.",
  ALLF, [("get_kwarg functions of the registry", "helpers.py"), ("from_string / class_from_element", "base.py"), ("KML.parse", "kml.py"),
         ("subelement_coordinates_kwarg", "geometry.py"), ("KmlDateTime.parse", "times.py")],
  ["from_string() of every class", "KML.parse()"])

p("C03", "Write then read is the identity, and re-writing is a fixpoint",
  "Reading back what was written from any object tree gives a tree equal to it, value for value and class for class, and writing "
  "that tree again gives the same document. (Children of different kinds under one parent may come back grouped by kind, each kind in its order.)",
  ["inputs", "configurations"], "all object trees, both XML libraries, pretty printed or not, every element class as root",
  "The project's headline promise is stated for all documents, but the tests replay it for single hand-written objects; interactions of "
  "attributes, siblings and nesting are not covered.",
  ALLF, [("etree_element and class_from_element driven by one registry", "base.py"), ("Registry.get", "registry.py")],
  ["obj == type(obj).from_string(obj.to_string())"])

p("C04", "Verbosity levels differ only in the defaults they spell out",
  "At terse verbosity exactly those simple values that equal the default the KML schema gives them are left out; at verbose exactly "
  "the unset values for which KML has a default are added with that default; at normal neither happens. All three describe the same "
  "document: everything else in the output is identical, and writing at any level leaves the objects as they were.",
  ["inputs", "configurations"], "all object trees, all three verbosity levels, all nesting depths",
  "Tests check verbosity on a handful of elements; whether each of the defaults is right and is passed to every depth is not tested.",
  ["helpers.py", "base.py", "registry.py", "styles.py", "views.py", "overlays.py", "links.py", "geometry.py", "features.py"],
  [("get_value", "helpers.py"), ("RegistryItem.default", "registry.py")], ["to_string(verbosity=...) of every class"])

p("C05", "Coordinate precision rounds correctly and touches nothing else",
  "With a precision of p every number in the coordinates of a geometry, and in the positions and angles of a track, is written with exactly "
  "p decimals and is the stored value rounded to the nearest representable one, wherever in the document it is nested; all other content "
  "is the same as without a precision. Without a precision every coordinate reads back as exactly the number that was stored, and "
  "writing never changes the stored numbers.",
  ["inputs", "configurations"], "all geometries and numbers of any magnitude, p from 0 upwards, every kind of container",
  "Tests use a few small numbers with one precision; half-way cases, large and tiny magnitudes and the passing of the setting through every container are not covered.",
  ["geometry.py", "gx.py", "helpers.py", "base.py", "kml.py"],
  [("coordinates_subelement", "geometry.py"), ("coords_subelement_list", "helpers.py"), ("xml_subelement passes precision on", "helpers.py")],
  ["to_string(precision=p)", "KML.write(precision=p)"])

p("C06", "Bad values: strict reading reports them, lenient reading only drops them",
  "In strict mode a non-empty value that cannot be understood as what its element or attribute requires (number, integer, boolean, enumeration, date, coordinates) makes "
  "reading raise the library's KML parse error and no other exception. In lenient mode reading never raises because of such values, however "
  "many there are: the result equals reading the same document with the bad values left out, so all other content survives unchanged; enumerations and booleans "
  "that differ only in letter case are errors in strict mode and understood in lenient mode. An empty attribute, and an element that is empty or holds only white space, counts as not given in both modes.",
  ["inputs", "fault_sequences"], "every element and attribute with a typed value, every kind of illegal value, any number and placement of faults",
  "Tests inject one or two bad values at some elements; single and multiple faults at every typed field, checked against all surviving content, are out of their reach.",
  ["helpers.py", "geometry.py", "gx.py", "enums.py", "times.py", "base.py"],
  [("handle_error", "helpers.py"), ("handle_invalid_geometry_error", "geometry.py"), ("_get_enum_value, _get_boolean_value", "helpers.py")],
  ["from_string(strict=True/False)", "KML.parse(strict=...)"])

p("C07", "Both XML libraries give the same results",
  "Reading a document gives equal objects, and writing objects gives the same XML content, whether the library is configured to use lxml or "
  "the standard library's ElementTree, and bad values are reported alike. Only pretty printing, schema validation and the errors for text that is not well-formed XML may differ.",
  ["inputs", "configurations"], "all documents and object trees, both XML libraries, either one writing and the other reading, switching in between",
  "The suite runs mirrored test classes for some objects only, each with its own expected text; the outputs of the two are never compared on arbitrary documents.",
  ["config.py", "base.py", "kml.py", "helpers.py", "validator.py"],
  [("set_etree_implementation", "config.py"), ("to_string falls back without pretty print", "base.py"), ("KML.parse falls back to the standard parser", "kml.py")],
  ["to_string, from_string, KML.parse, KML.write under both configurations"])

p("C08", "Geometries convert to KML and back without change",
  "A geometry given as a pygeoif object, a shapely object or any object or dictionary with the geo interface becomes the KML geometry of the same type "
  "with the same positions, dimensions, rings, parts and order, and the geometry read back from the KML object, before and after "
  "writing and reading it, equals the original (a collection of parts of one kind may come back as the multi geometry of that kind, and reading may group the parts by kind). "
  "Altitude mode, extrude and tessellate given for a multi geometry apply to each part. Contradictory or unsupported input raises an error instead of being altered.",
  ["inputs"], "all point, line, ring, polygon (with holes), multi and (nested) collection geometries in 2D and 3D, from every supported source",
  "Tests convert a few small literal geometries; sizes, hole counts, nesting, dimensions and sources multiply beyond what they sample.",
  ["geometry.py", "features.py", "gx.py", "types.py"],
  [("create_kml_geometry", "geometry.py"), ("geometry properties", "geometry.py"), ("create_multigeometry", "geometry.py"), ("Placemark(geometry=)", "features.py")],
  ["create_kml_geometry()", "Placemark.geometry", ".geometry of every geometry class"])

p("C09", "Track items keep time, position and angles together",
  "In a track the n-th time, n-th position and n-th angles belong together: constructing a track, writing it and reading it back preserves the number, "
  "order and pairing of its items and of the tracks in a multi track, and its line geometry has exactly the items' positions in order (a position that directly repeats counts once). "
  "A track whose parts do not match up or are illegal is reported in strict mode; in lenient mode only the affected items are dropped and "
  "no remaining item receives another one's time, position or angles.",
  ["inputs", "fault_sequences"], "all tracks and multi tracks of any length, with and without angles, and all documents with missing or illegal parts",
  "Tests use tracks of three items; mispairing appears only with particular combinations of missing or bad parts.",
  ["gx.py", "helpers.py"],
  [("Track.__init__ zips times, positions and angles", "gx.py"), ("Track._get_kwargs", "gx.py"), ("get_coord_args", "helpers.py"), ("datetime_subelement_list_kwarg", "helpers.py")],
  ["Track.track_items, whens, coords, angles, geometry", "MultiTrack.tracks"])

p("C10", "Dates keep their instant, time zone offset and resolution",
  "A date or time is written in the KML form of its resolution (year, year and month, date, date and time with offset) and reads back as the same value with the same "
  "resolution, whatever the year, fraction of a second or offset; reading accepts every such form and rejects text that is no date or time. The time accessors of "
  "a feature return exactly the time stamp or the begin and end of the span it was given.",
  ["inputs"], "all dates from year 1 to 9999, all offsets, all fractions, all resolutions, wherever KML has a time",
  "Tests use a dozen dates; leap days, early years, fractions, odd offsets and half open spans are infinite in number.",
  ["times.py", "mixins.py", "helpers.py", "network_link_control.py"],
  [("KmlDateTime.parse and __str__", "times.py"), ("adjust_date_to_resolution", "times.py"), ("time_stamp, begin, end", "mixins.py")],
  ["KmlDateTime, TimeStamp, TimeSpan, feature.times, track times, expiry of a network link control"])

p("C11", "Files hold the same document as the string and fail safely",
  "Writing to a .kml or .kmz file and parsing it (by path, string, open file or bytes stream; for .kmz the doc.kml inside the archive) gives back the "
  "document that was written, with all Unicode text, and the file holds the same XML content as the string form at the same precision and verbosity; "
  "an existing file is replaced as a whole. Files in any encoding their XML declaration names are read; text streams are text already, so the declaration changes nothing for them. If the objects cannot be serialized the error is reported, an existing file keeps its content and no partial file is left.",
  ["inputs", "fault_sequences"], "all documents, both file kinds, any previous file content, any locale, serialization failing at any point",
  "Tests write a few ASCII documents to fresh files; previous content, non-ASCII text under other locales, large documents and failures are not covered.",
  ["kml.py", "base.py"], [("KML.write", "kml.py"), ("KML.parse", "kml.py")], ["KML.write / KML.parse and the bytes on disk"])

p("C12", "Searching finds every matching object exactly once",
  "Searching a tree by type and attribute values yields exactly the objects reachable from the start object that match all criteria, each as often as it "
  "occurs in the tree, an object before what it contains and the items of a list in their order; the single-result search yields the first of them or nothing. Looking a style up by URL returns "
  "a style or style map of that document whose id is the URL's fragment, the document's own shared styles before those of its features and these in order, and nothing if there is none.",
  ["inputs"], "all object trees, all combinations of types and attribute values, all URLs",
  "Tests search one or two small documents; completeness over every attribute that can hold a child at any depth is not sampled.",
  ["utils.py", "containers.py"], [("find_all, find, get_all_attrs", "utils.py"), ("get_style_by_url", "containers.py")],
  ["find(), find_all(), get_style_by_url()"])

p("C13", "Reading, writing and comparing have no side effects",
  "Writing, comparing, searching, validating or printing an object leaves it and everything it contains unchanged; reading and constructing leave the caller's "
  "arguments (strings, dictionaries, lists, elements, objects) unchanged, and no operation changes library wide settings. Separate objects share no mutable state: "
  "changing one never shows in another that was built or read independently, nor in the lists and dictionaries it was built from.",
  ["inputs", "histories"], "all object trees and all sequences of operations on them",
  "Side effects show only when an object is used again after an operation, in a later parse, or in a sibling; tests look at one operation on fresh objects.",
  ["base.py", "kml.py", "containers.py", "styles.py", "data.py", "registry.py", "config.py", "geometry.py"],
  [("constructors copy lists and dictionaries", "base.py"), ("name_spaces are merged into a new dict", "base.py"), ("module level registry and name spaces", "registry.py")],
  ["attributes before and after each call, identity of contained lists and dicts"])

p("C14", "Equality holds exactly when the content is the same",
  "Two objects built independently from the same values are equal, and changing any single documented value anywhere in one of them, at any depth, adding, removing or "
  "reordering content makes them unequal; comparison is reflexive and symmetric and never raises, also against objects of other types. (Geometries are compared by their distinct consecutive positions.)",
  ["inputs"], "all pairs of object trees that are equal or differ in one place, for every attribute of every class",
  "Tests compare a few objects; a value that is left out of a comparison is noticed only if a test differs in just that value.",
  ["base.py", "geometry.py", "times.py", "kml_base.py"], [("_XMLObject.__eq__", "base.py"), ("__eq__ of geometries", "geometry.py"), ("KmlDateTime.__eq__", "times.py")],
  ["== and != on every class"])

p("C15", "The repr of an object rebuilds an equal object",
  "Evaluating the printed representation of any object, with the library's and the geometry library's names in scope, gives an object equal to it, "
  "holding all its values; representations of objects with different content differ.",
  ["inputs"], "all object trees of all classes",
  "One large literal document is tested; each class prints its attributes by hand, so omissions depend on which attributes are set.",
  ["atom.py", "styles.py", "features.py", "containers.py", "overlays.py", "views.py", "geometry.py", "gx.py", "data.py", "model.py", "times.py", "links.py"],
  [("__repr__ of every class", "features.py"), ("**kwargs of extensions", "base.py")], ["repr() of every class"])

p("C16", "Schema-conforming content is written schema-valid and validated truly",
  "A document built from values and list contents the KML schema allows is written so that it validates against the OGC KML 2.2 schema with the Google extensions, at normal and terse verbosity. "
  "Validation reports success for documents and elements that conform to the schema and an error for those that do not, on every call in any order, and "
  "parsing with validation rejects exactly the documents the schema rejects.",
  ["inputs", "histories"], "all object trees with schema-conforming values, all single schema violations, any order of validations",
  "Tests validate a few sample files; element order and data types of the written XML depend on which attributes are combined.",
  ["validator.py", "kml.py", "base.py", "registry.py", "overlays.py", "styles.py", "features.py"],
  [("validate", "validator.py"), ("order of registration decides the order of elements", "features.py"), ("lxml_parse_and_validate", "kml.py")],
  ["validate()", "obj.validate()", "KML.parse(validate=True)"])

p("C17", "Edits show in the next output, and only the edits",
  "After any sequence of appending, inserting, removing and assigning attributes on a tree, built or parsed, with reads, writes, comparisons and searches in between, the output, the equality and the "
  "search results reflect exactly the current state, as if the tree had been built in that state from scratch. Clearing a value removes it from the output, "
  "a rejected operation such as appending a container to itself changes nothing.",
  ["histories"], "all sequences of edits, reads and writes over all attributes of all classes",
  "Tests build once and write once; stale or cached state shows only in particular sequences.",
  ["containers.py", "kml.py", "data.py", "base.py", "geometry.py", "gx.py", "features.py"],
  [("append", "containers.py"), ("output is computed from current attributes", "base.py"), ("geometry properties are computed on access", "geometry.py")],
  ["attribute assignment, append(), list operations, followed by to_string()"])

p("C18", "Independent work in several threads does not interfere",
  "Reading, writing, comparing, searching and validating different documents in several threads at the same time, or only reading and writing a shared tree that none of them changes, "
  "gives each thread exactly the result and the kind of error it gets when it runs alone (the XML library being chosen before the threads start).",
  ["schedules", "inputs"], "all interleavings of threads working on different documents or reading a shared one",
  "No test uses threads; shared state such as the registry, caches or parser objects fails only under particular interleavings.",
  ["registry.py", "base.py", "validator.py", "config.py", "kml.py", "helpers.py"],
  [("no shared mutable state besides registry, name spaces and the schema cache", "registry.py"), ("get_schema_parser cache", "validator.py")],
  ["results recorded per thread and compared with a sequential run"])

p("C19", "Registered extensions work for their class and nothing else",
  "Registering an attribute for a class makes it accepted by the constructor, written, read back, compared and printed for that class and its subclasses, in addition to everything they had, "
  "for element, attribute and child kinds alike; a further element name registered for an attribute the class already has is read into it. All other classes, and objects that do not use it, behave exactly as before, whatever the order of registrations.",
  ["configurations", "inputs"], "all classes, all kinds of registered attributes, all orders of registration, subclasses defined by the user",
  "One test registers one attribute on one class; leaks to siblings, parents or later registrations are not looked for.",
  ["registry.py", "base.py", "kml.py", "helpers.py"], [("Registry.register, Registry.get along the class hierarchy", "registry.py"), ("**kwargs kept on the object", "base.py")],
  ["registry.register() followed by reads and writes of all classes"])

p("C20", "Namespaces are honoured on reading and writing",
  "An element is read by its namespace and local name, never by its prefix: the same local name in another namespace is not taken for it, while documents in any KML namespace given by the root element, "
  "by the caller, or with none at all in a snippet, are read completely (without one only the KML elements; times, altitude modes and geometries are accepted in the Google extension namespace as well). What was read in a namespace is written back in it, and objects built for given namespaces (ns and name_spaces) write them throughout.",
  ["inputs", "configurations"], "all documents in the known and other KML namespaces or without one, all prefix bindings, for every element class",
  "Tests use the default namespace almost everywhere; most classes are never read or written in another one.",
  ["base.py", "kml.py", "helpers.py", "config.py", "registry.py", "geometry.py", "gx.py"],
  [("ns and name_spaces are handed down", "base.py"), ("KML.parse takes the namespace of the root", "kml.py"), ("get_ns", "helpers.py"), ("RegistryItem.ns_ids", "registry.py")],
  ["from_string(ns=, name_spaces=)", "KML.parse()", "to_string()"])

p("C21", "Foreign content is skipped without harm",
  "Elements, attributes, comments and processing instructions the library does not know, anywhere in a document, do not change what is read from the rest of it and do not cause errors in "
  "lenient mode or, without validation, in strict mode (text that follows a foreign element inside a simple value is not part of that value). Reading never opens files or network connections named in the document, so external entities do not bring outside content in.",
  ["inputs"], "all documents with any foreign content added at any place",
  "Tests contain one or two unknown elements; placement next to or inside each known element is not sampled.",
  ["base.py", "kml.py", "helpers.py"], [("only registered names are looked up", "base.py"), ("parser options", "kml.py")],
  ["from_string(), KML.parse(), audit events of the process"])

p("C22", "Large and deep documents are handled completely",
  "Documents with very many features, styles, data values or track items, geometries with very many positions or holes, very long texts and deeply nested folders and multi geometries are "
  "written, read, compared and searched without loss, reordering or error, and the work grows in proportion to the number of items (and stays polynomial in the depth).",
  ["inputs"], "all sizes up to hundreds of thousands of positions, tens of thousands of features, megabytes of text and nesting to 100 levels and more",
  "All tests use tiny documents; truncation at a size, quadratic behaviour or recursion trouble does not show there.",
  ["base.py", "helpers.py", "kml.py", "geometry.py", "gx.py", "utils.py"], [("recursive descent over the registry", "base.py"), ("huge_tree parser", "kml.py"), ("find_all", "utils.py")],
  ["to_string(), from_string(), KML.parse(), KML.write(), find_all()"])

p("C23", "Shortcut arguments and accessors agree with the content",
  "The shortcut accessors always tell what the content says, for objects built, read or edited: icon_href the address of the style's icon, normal and highlight the style of the first pair with that key, "
  "the geometry of a placemark, model, location, line, ring, polygon or collection its positions, whens, coords and angles of a track those of its items in order, time_stamp, begin and end the times of a feature, and the truth value "
  "whether the object has the content it needs to be written. An object made with shortcut arguments (icon_href, geometry, whens with coords and angles) equals the one made from the full objects, and list arguments may be any iterable.",
  ["inputs", "histories"], "all objects in all states, all shortcut arguments, all kinds of iterables",
  "Tests look at each accessor once or twice on a complete, freshly made object; incomplete, repeated, edited or parsed content is not sampled.",
  ["styles.py", "model.py", "features.py", "geometry.py", "gx.py", "mixins.py"],
  [("icon_href, StyleMap.normal and highlight", "styles.py"), ("Location.geometry, Model.geometry", "model.py"), ("Track.whens, coords, angles", "gx.py"), ("TimeMixin", "mixins.py"), ("__bool__ of every class", "geometry.py")],
  ["the public properties of every class", "bool()"])

p("C24", "The configured XML library and prefixes are used everywhere, at once",
  "Choosing the XML library (any module with the ElementTree interface) takes effect for every later reading and writing of every object, also of objects made while another one was chosen, without changing their content or equality, "
  "and no other library's elements appear in what is produced. Prefixes registered with register_namespaces or set_default_namespaces are the ones the output uses for their namespaces, the last one where there are several, and registering them changes nothing else. "
  "Where lxml is not installed the package works with the standard library from the start, with the same results as when that is chosen.",
  ["configurations", "histories"], "all sequences of choosing a library, registering prefixes, building, reading and writing",
  "Tests choose one library for a whole test class; objects that outlive the choice, and prefixes of other namespaces, are not looked at.",
  ["config.py", "base.py", "kml.py", "helpers.py", "validator.py"],
  [("config.etree is looked up at every use", "config.py"), ("etree_element", "base.py"), ("etree_element of the root", "kml.py")],
  ["config.set_etree_implementation(), config.register_namespaces(), then to_string(), etree_element(), from_string(), parse(), write()"])

p("C25", "Bad content is reported by name, good content silently",
  "When reading meets a value it cannot understand, the user learns which one: in strict mode the message of the KML parse error contains the name and the text of the offending element or attribute, and in lenient mode the library logs, "
  "at level warning or above, a record with the name and text of every value it leaves out (a bad time, position or angles of a track included). A failed schema validation logs every violation the schema reports. "
  "Building, editing, reading, writing, comparing, searching, printing and validating sound content logs no warning or error, and the library never writes to standard output or standard error itself.",
  ["inputs", "fault_sequences"], "every element and attribute with a typed value, any number of bad values, all documents",
  "Tests look at a few error messages; that no value anywhere is left out without a word, and that nothing is said about sound content, is not tested.",
  ["helpers.py", "geometry.py", "gx.py", "enums.py", "validator.py"],
  [("handle_error", "helpers.py"), ("handle_invalid_geometry_error", "geometry.py"), ("handle_validation_error", "validator.py"), ("RelaxedEnum._missing_", "enums.py")],
  ["KMLParseError raised by from_string() and KML.parse()", "records of the loggers below 'fastkml'"])

p("C26", "Damaged documents are reported or read up to the damage, never misread",
  "Text that is not well-formed XML, or no XML at all, never yields an object from from_string, nor from parse with ElementTree: the XML library's syntax error is raised. KML.parse with lxml, which recovers what it can, returns a document in which "
  "every feature that was complete before the damage is there and unchanged, also when an undeclared namespace prefix is the only fault. No exception other than syntax errors and the library's own errors appears, whatever the damage.",
  ["inputs", "fault_sequences"], "all documents, any cut, missing or extra tag, changed or inserted character, invalid bytes, several at once",
  "No test reads a damaged document.",
  ["kml.py", "base.py", "helpers.py"],
  [("lxml_parse_and_validate", "kml.py"), ("KML.parse", "kml.py"), ("_parse_string", "base.py")],
  ["KML.parse(), from_string() of damaged text"])

p("C27", "Work leaves nothing behind",
  "Objects, documents and files no longer used are released: once the caller lets go of what was built, read, found or raised, none of the objects stays alive, and after every operation, whether it succeeded or failed, no file the library opened is still open, "
  "no temporary or partial file is left in any directory and no thread runs on. Files and streams the caller opened stay open. Doing the same work again and again on new documents, with errors or without, does not use more and more memory.",
  ["histories", "fault_sequences"], "all sequences of operations with success and failure, any number of repetitions",
  "Tests are single short calls in one process that then ends; what stays behind is never looked at.",
  ["kml.py", "base.py", "helpers.py", "validator.py", "registry.py", "geometry.py", "times.py", "utils.py"],
  [("KML.write, KML.parse", "kml.py"), ("get_schema_parser: a bounded cache", "validator.py"), ("Registry", "registry.py")],
  ["lifetime of the objects returned", "open file descriptors", "directory contents", "memory of a long-running process"])

p("C28", "Results do not depend on the environment of the process",
  "Reading, building, writing, parsing and writing files, validating, searching, comparing and printing give the same results and report the same errors in every process, whatever the hash seed, optimisation level (-O, -OO), locale, encoding and time zone settings, "
  "working directory, warning filters (also as errors), development mode, garbage collector settings, the order in which submodules are imported, the thread, and environment variables that are set or missing.",
  ["configurations", "inputs"], "all combinations of settings of the interpreter and the process, all documents",
  "Tests run in one environment only, the developer's or the build server's.",
  ["base.py", "kml.py", "times.py", "validator.py", "helpers.py", "registry.py", "geometry.py", "enums.py"],
  [("KML.write opens files with an explicit encoding", "kml.py"), ("KmlDateTime", "times.py"), ("schema found relative to the module", "validator.py"), ("Registry keeps the order of registration", "registry.py")],
  ["the public interface, in processes with other settings"])

out = Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
