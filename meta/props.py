#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 meta/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/kml/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[S + f for f in files],
                  mech=[dict(name=n, where=S + w) for n, w in mech], observe=observe or [], na=na, note=note))


p("P01", "A parsed document keeps every recognised field of every element",
  "For every KML, gx, atom and xAL element type and every recognised simple field of it, parsing text that sets the field yields an object whose getter returns exactly that value and whose presence query is true, with every field that was not set reported absent and at its documented default. Serialising that object emits the field once, under the same element name, with the same value, and child elements in the schema's order.",
  ["inputs"], "all element types, all their fields (alone and all together), all field values within the bound",
  "Tests set each field to one or two literal values; a wrong default, a swapped field, a dropped or reordered field shows only for some element/field/value combination.",
  ["dom/abstractlatlonbox.cc", "dom/abstractview.cc", "dom/atom.cc", "dom/balloonstyle.cc", "dom/extendeddata.cc", "dom/feature.cc", "dom/geometry.cc", "dom/gx_tour.cc", "dom/iconstyle.cc", "dom/kml22.cc", "dom/link.cc", "dom/liststyle.cc", "dom/model.cc", "dom/networklinkcontrol.cc", "dom/overlay.cc", "dom/region.cc", "dom/schema.cc", "dom/snippet.cc", "dom/stylemap.cc", "dom/timeprimitive.cc", "dom/vec2.cc", "dom/xal.cc"],
  [("per-element AddElement / Serialize pairs", "dom/feature.cc"), ("name/type table", "dom/kml22.cc"), ("element creation", "dom/kml_factory.cc")],
  ["Parse + get_x/has_x", "SerializeRaw"])
p("P02", "Setting, querying and clearing a field affects exactly that field",
  "On an object of any element type, after any sequence of set, clear and read operations on its simple fields, each field reads back the value last set, its presence query is true exactly when it was set and not cleared since, a cleared field reads its default, and no operation on one field changes another.",
  ["histories", "inputs"], "all element types and fields; all operation sequences within the bound; all values",
  "Tests exercise set/get/clear of a field in one fixed order on a fresh object.",
  ["dom/feature.h", "dom/abstractview.h", "dom/link.h", "dom/overlay.h", "dom/geometry.h", "dom/region.h", "dom/networklinkcontrol.h", "dom/gx_tour.h", "dom/liststyle.h", "dom/balloonstyle.h", "dom/snippet.h", "dom/atom.h", "dom/xal.h", "dom/schema.h", "dom/stylemap.h"],
  [("value + has_ flag pairs", "dom/feature.h")], ["get_x / has_x / set_x / clear_x"])
p("P03", "Any text value survives being written to a file and read back",
  "A text field (name, description, href, snippet, data value and every other string field) or attribute holding any text of XML-legal characters other than carriage returns is serialised as well-formed XML, and parsing that XML returns exactly the same text, whether the text contains markup characters, quotes, entity look-alikes, CDATA openers or CDATA terminators, in any position and number. Two exceptions are by design: an empty text element may gain white space in the pretty form, and a link's href that begins with '<![CDATA[' is unwrapped on reading.",
  ["inputs"], "all strings of XML-legal characters within the length bound, plus such bytes around embedded CDATA/entity fragments",
  "Tests use a table of a dozen strings, each with a single special character.",
  ["dom/serializer.cc", "dom/xml_serializer.h", "base/attributes.cc", "base/string_util.cc"],
  [("quoting decision", "dom/serializer.cc"), ("attribute serialisation", "base/attributes.cc")], ["SerializeRaw/SerializePretty then Parse"])
p("P04", "Parsing is total, memory-safe and the same through every entry point",
  "For every byte string, parsing terminates without crash or out-of-bounds access and yields either an element tree or no tree together, for KML text, with a non-empty error message; text that is not well-formed, whose root is not a known element, that declares entities, or that is nested deeper than 100 elements yields no tree. The plain, namespace-aware, file-level and chunked stream parses of the same un-namespaced document agree on acceptance and on the resulting tree, however the chunks are cut.",
  ["inputs"], "all short byte strings; all single-edit corruptions of templates; all chunk boundaries; nesting depths around the limit",
  "Tests parse a fixed set of files and a few bad strings.",
  ["dom/parser.cc", "dom/kml_handler.cc", "dom/kml_handler_ns.cc", "base/expat_parser.cc", "engine/kml_stream.cc", "engine/kml_file.cc"],
  [("expat callbacks", "base/expat_parser.cc"), ("element stack and skip logic", "dom/kml_handler.cc")], ["Parse, ParseNS, KmlFile::CreateFromParse, KmlStream::ParseFromString/istream"])
p("P05", "Unknown and misplaced content is preserved, not dropped",
  "Elements and attributes the library does not know, and known elements in places the schema does not allow, never make a parse fail; on serialisation each appears inside the same parent, with its name, attributes, text and nested content unchanged and still well-formed, each exactly once and in the order read within its kind. Known siblings are read as if the foreign content were not there. This is about structured elements: markup inside a text-only field becomes part of its text or is dropped, and character data directly inside structured elements, comments and processing instructions are dropped by design.",
  ["inputs"], "all foreign element/attribute names and contents within the bound, any position among known siblings, nesting",
  "Tests use a handful of fixed foreign snippets with plain-text contents.",
  ["dom/kml_handler.cc", "dom/element.cc", "base/attributes.cc"],
  [("skip_depth_/char_data_ gathering", "dom/kml_handler.cc"), ("SerializeUnknown / unknown attributes", "dom/element.cc")], ["Parse then SerializeRaw"])
p("P06", "Serialisation is a fixed point and raw and pretty forms agree",
  "For any document the library accepts, serialising the parsed tree gives text the library accepts again, and serialising that second tree gives byte-identical text. The pretty and raw forms parse to the same tree, so neither loses, duplicates nor reorders anything, and serialising does not modify the tree.",
  ["inputs"], "all documents from symbolic templates covering every element family",
  "Tests compare a few hand-written documents with expected output.",
  ["dom/xml_serializer.h", "dom/xml_serializer.cc", "dom/serializer.cc", "dom/kml_funcs.h"],
  [("tag stack / pending start tag", "dom/xml_serializer.h")], ["Parse, SerializeRaw, SerializePretty, SerializeToOstream"])
p("P07", "Coordinates text is read and written tuple for tuple",
  "A coordinates list in which tuples of two or three decimal numbers are separated by white space, with optional white space around the commas inside a tuple, yields exactly one tuple per tuple in the text, in order, with longitude, latitude and altitude exactly the decimal values (altitude 0 when omitted, reported as absent); no text causes out-of-bounds access, loss of later tuples or invented tuples. Writing a list and reading it back gives the same list, and the same holds for gx:coord and gx:angles.",
  ["inputs"], "all byte strings within the bound; all digit/separator placements in 1-4 tuple templates; long tokens",
  "Tests list about twenty strings.",
  ["dom/geometry.cc", "dom/geometry.h", "base/vec3.h", "dom/xml_serializer.h"],
  [("ParseVec3 / Parse", "dom/geometry.cc")], ["Coordinates::Parse, Parse() of LineString, SerializeRaw"])
p("P08", "Numbers, booleans and enumerations convert to and from text exactly",
  "Reading a decimal text gives the nearest double (or the exact int), surrounding white space is ignored, writing a number with at most 15 significant digits and reading it back gives the same number, and the result never depends on earlier conversions or the process locale. Booleans are true exactly when the text after optional leading white space begins with '1' or 'true', and an enumerated field accepts exactly its schema's values and reports every other text as not set.",
  ["inputs"], "all strings within the length bound; all ints; all decimal doubles of bounded digits; every enumerated field",
  "Tests convert under ten literals.",
  ["base/string_util.cc", "dom/element.cc", "dom/xsd.cc", "dom/kml22.cc"],
  [("FromString/ToString", "base/string_util.cc"), ("EnumId/EnumValue", "dom/xsd.cc")], ["FromString, ToString, StringToDouble, parsed fields"])
p("P09", "Colours convert losslessly between text, number and components",
  "Every 32-bit AABBGGRR colour written as text is eight lower-case hexadecimal digits that read back as the same colour, component and ARGB accessors are consistent views of it, and a component setter changes only that component. Colour text of any length and content reads as its first eight characters after leading white space and one optional '#', non-hexadecimal characters counting as 0 and short text filled with leading zeros, without reading outside the text.",
  ["inputs"], "all 2^32 colours; all colour texts within the length bound",
  "Tests try a few named colours and nine texts.",
  ["base/color32.h", "base/string_util.cc", "dom/colorstyle.cc"], [("set_color_abgr(string)", "base/color32.h"), ("b2a_hex", "base/string_util.cc")], ["Color32 API; <color> fields"])
p("P10", "Every element has at most one parent and child links stay consistent",
  "Giving an element to a parent succeeds exactly when it was never given to one before (then it is the parent's child and reports that parent while the parent lives); giving an element that has or had a parent to a second one, or replacing or clearing a child, leaves every other parent-child relation unchanged, and a cleared, replaced or removed child stays valid for whoever holds it. Array operations keep the order and number of the remaining children, deletion returns the element removed, out-of-range deletions do nothing, and no sequence of operations uses freed memory or keeps an element alive without an owner.",
  ["histories"], "all operation sequences within the bound over objects with single and array children",
  "Tests perform single steps.",
  ["dom/element.h", "base/xml_element.h", "base/referent.h", "dom/container.h", "dom/kml22.cc"],
  [("SetComplexChild/AddComplexChild/DeleteFromArrayAt", "dom/element.h"), ("SetParent", "base/xml_element.h")], ["GetParent, get_*_array_at, SerializeRaw"])
p("P11", "Cloning makes an equal, independent deep copy",
  "A clone serialises identically to the original, including ids, namespaces, unknown content, every simple field and every child at every depth; it shares no mutable element with the original, so changing either never affects the other; and cloning leaves the original unchanged.",
  ["inputs", "histories"], "clone of every element type with symbolic field values; mutation of either side",
  "Tests clone a few placemarks.",
  ["engine/clone.cc"], [("ElementReplicator serializer", "engine/clone.cc")], ["Clone, SerializeRaw"])
p("P12", "Merging fields changes exactly the fields the source sets",
  "Merging a source element into a target of the same type sets every simple field present in the source to the source's value and leaves every other simple field of the target as it was, merges single child elements of the same type recursively, adds copies of those the target lacks, appends copies of the members of child arrays, replaces a child of a group (geometry, view, time, style selector) that has another type, and leaves the source unchanged; merging an element into itself or an empty source changes nothing.",
  ["inputs"], "all presence combinations and values of fields on both sides for features, styles and sub-elements",
  "Tests merge a few pairs.",
  ["engine/merge.cc"], [("MergeFields/MergeElements serializer", "engine/merge.cc")], ["MergeFields, MergeElements, SerializeRaw"])
p("P13", "Object and shared-style lookup by id is exact",
  "After parsing a document, looking up an id returns the object that carries it and nothing for ids not in the document; with strict parsing a duplicate id makes the parse fail with an error, otherwise the last object with that id wins. Looking up a shared style returns exactly the style selectors that are direct children of a Document with that id, never styles local to a feature.",
  ["inputs"], "all assignments of ids from a small alphabet to several objects and styles at different depths",
  "Tests use fixed ids.",
  ["engine/kml_file.cc", "engine/id_mapper.cc", "engine/object_id_parser_observer.h", "engine/shared_style_parser_observer.h"],
  [("observers during parse", "engine/object_id_parser_observer.h")], ["KmlFile::CreateFromString/CreateFromParse, GetObjectById, GetSharedStyleById, MapIds"])
p("P14", "Style resolution picks and merges styles by precedence and terminates",
  "Resolving a feature's style for normal or highlight state starts from the style its style URL names in the same file (following style-map pairs of the requested state, through a chain of at most five style URLs in all) and overlays the feature's inline style, sub-style by sub-style and field by field, with the inline value winning. Unresolvable references contribute nothing, reference cycles terminate, and the result is a new style that shares nothing with the document, which is unchanged.",
  ["inputs", "configurations"], "all reference graphs between a few shared styles, style maps and a feature, both states, symbolic field presence",
  "Tests use a few fixed files.",
  ["engine/style_resolver.cc", "engine/style_merger.cc", "engine/kml_file.cc"], [("MergeStyle*/nesting depth", "engine/style_merger.cc")], ["CreateResolvedStyle, CreateResolvedStyleForKmlFile"])
p("P15", "Inlining or splitting styles preserves what every feature looks like",
  "For a document whose shared styles precede their use and whose style maps refer only to its own styles, splitting moves the inline style of every feature without a style URL into the Document as a shared style with a fresh id and a style URL that refers to it (an inline style whose generated id is already taken may stay), and inlining does the reverse. In both results every feature resolves to the same style as in the input, and all other content is unchanged.",
  ["inputs"], "documents with several features, with and without inline/shared styles and style maps, symbolic references",
  "Tests compare two fixed files.",
  ["engine/style_splitter.cc", "engine/style_inliner.cc"], [("parser observers", "engine/style_splitter.cc")], ["SplitStyles, InlineStyles, CreateResolvedStyle"])
p("P16", "An Update changes exactly the targeted objects",
  "Applying an update to a parsed file executes its Change, Create and Delete operations in order: Change sets only the given fields of the object (of the same element type) whose id is targeted, Create appends the given features to the targeted container, and Delete removes the targeted feature from its container. Objects not targeted, Create and Delete targets which do not exist or have the wrong type, and the ids of the targeted objects are left untouched, and an id map supplied by the caller is honoured. No operation leaves dangling references.",
  ["inputs", "histories"], "all sequences of up to three operations with symbolic target ids over a small document",
  "Tests apply one operation at a time.",
  ["engine/update.cc", "engine/update_processor.cc", "engine/kml_file.cc"], [("UpdateProcessor", "engine/update_processor.cc")], ["ProcessUpdate, SerializeRaw"])
p("P17", "References are split and resolved as URI syntax prescribes",
  "Splitting a reference into scheme, host, port, path (without its leading slash), query and fragment returns exactly the corresponding substrings, its fetchable part is the reference without query and fragment, resolving a relative reference against a base follows RFC 3986, and a reference into a KMZ archive is split into the archive's URL, which ends with the first path segment ending in .kmz, and the path inside it. Malformed references are rejected, never crash, and never yield a component that is not in the text.",
  ["inputs"], "all strings within the length bound, and templates with symbolic bytes",
  "Tests list a few dozen URIs.",
  ["base/uri_parser.cc", "engine/kml_uri.cc", "engine/href.cc", "engine/kml_uri_internal.h"],
  [("uriparser wrappers", "base/uri_parser.cc"), ("KmzSplit / ResolveUri", "engine/kml_uri.cc"), ("Href::Parse", "engine/href.cc")], ["kmlengine::SplitUri, ResolveUri, KmzSplit, Href"])
p("P18", "The fetch cache is bounded, first-in first-out, and returns what was fetched",
  "After any sequence of fetches, saves and deletes, the cache holds at most its maximum number of entries, a hit returns the object saved for that exact URL, a miss asks the fetcher exactly once and caches a successful result, a failed fetch caches nothing and returns nothing, and when an entry is needed beyond the limit the oldest entry is the one removed.",
  ["histories", "fault_sequences"], "all operation sequences within the bound over a few URLs, with each fetch allowed to fail, for several cache sizes",
  "Tests run two or three fixed sequences.",
  ["base/net_cache.h", "engine/kml_cache.cc", "engine/kmz_cache.cc"], [("cache map + sequence numbers", "base/net_cache.h")], ["MemoryFileCache / NetCache"])
p("P19", "KMZ archives are read exactly, written safely and checked",
  "For every byte string offered as an archive, opening, listing and reading it is memory-safe and each read returns a failure or content within the size limit. For a well-formed archive every non-empty entry named by at most 255 bytes is listed in order and returned byte for byte under its name, other names are reported missing, and the default KML is the first entry whose name ends in .kml. Archives written hold exactly the files added, a name leading out of the archive (absolute or through parent references) is never accepted, and an archive made from a KML file holds it and the local files it refers to, or is refused if the file is not KML; checking a KMZ's links reports exactly the references to files missing from it.",
  ["inputs"], "all single-byte corruptions and boundary values of a small archive's structure, all short byte strings, symbolic entry names and contents for stored entries",
  "Tests open a few fixed archives.",
  ["base/zip_file.cc", "engine/kmz_file.cc", "base/contrib/minizip/unzip.c", "base/contrib/minizip/iomem_simple.c", "convenience/kmz_check_links.cc"],
  [("ZipFile / minizip unzip", "base/zip_file.cc"), ("KmzFile", "engine/kmz_file.cc"), ("KmzCheckLinks", "convenience/kmz_check_links.cc")], ["KmzFile::OpenFromString, ReadKml, ReadFile, List, AddFile, AddFileList, CreateFromKmlFilepath; ZipFile; KmzCheckLinks"])
p("P20", "Bounding boxes contain exactly what they should",
  "The bounding box computed for a feature or geometry is the smallest latitude/longitude box containing every coordinate (within -180 to 180) of the Points, LineStrings, LinearRings, outer boundaries and Model locations anywhere beneath it, whether in Placemarks, PhotoOverlays, MultiGeometries or containers, is reported absent when there is none, and its centre is its midpoint. Expanding a box by a point or box yields the smallest box containing both, in any order of expansion, and containment tests agree with the edges. Aligning a box in the quadtree yields the deepest quadrant, down to the given depth, which contains it.",
  ["inputs"], "all small integer coordinates and feature shapes within the bound",
  "Tests check a few fixed features.",
  ["engine/bbox.h", "engine/location_util.cc", "engine/feature_view.cc"], [("ExpandLatLon", "engine/bbox.h"), ("GetFeatureBounds", "engine/location_util.cc")], ["Bbox, GetFeatureBounds, GetFeatureLatLon, ComputeBboxLookAt"])
p("P21", "The region quadtree is a partition and regionation conserves features",
  "Each quadrant of a region is exactly one quarter of its parent box (for coordinates of up to 15 significant digits), the four quadrants tile it, and a quadrant identifier names the same box as descending from the root; the line string of a region's box is closed. Regionation visits exactly the children of regions with data, and links every child document from its parent under a distinct file name. Regionating a feature list places every feature located in the root region in exactly one output document, whose region contains it, with at most the requested number per document.",
  ["inputs", "histories"], "all quadrant paths within the depth bound; all small feature lists with symbolic positions",
  "Tests regionate fixed files.",
  ["regionator/regionator.cc", "regionator/regionator_util.cc", "regionator/regionator_qid.h", "regionator/feature_list_regionator.h", "regionator/feature_list_region_handler.cc"],
  [("CreateChildRegion / _Regionate", "regionator/regionator.cc")], ["CreateQuadrantRegion, Regionator, CloneRegion"])
p("P22", "Splitting, sorting and saving a feature list conserves its features",
  "Splitting a feature list by a box moves exactly the first features, up to the given maximum, whose location lies in the box to the other list and keeps the rest in order, sorting puts features in non-increasing score order and keeps the order of equal ones, and saving a list appends every feature once, in order, to the container; no feature is lost, duplicated or changed. Parsing a file into a feature list collects every feature which is not a container and not part of an Update, in document order, with the style URLs local to the file rebased onto the given base, and its shared styles by id.",
  ["inputs", "histories"], "all lists of up to a few features with symbolic locations and scores, all split boxes and pop counts",
  "Tests use a fixed list of placemarks.",
  ["convenience/feature_list.cc", "convenience/feature_list.h", "convenience/kml_feature_list_saver.h", "convenience/element_counter.h"], [("FeatureList", "convenience/feature_list.cc")], ["FeatureList, FeatureListSaver"])
p("P23", "CSV text is split and mapped to features field by field",
  "Splitting a CSV line returns its fields in order, with surrounding white space of unquoted fields removed and quoted fields unquoted (doubled quotes becoming one), an empty last field kept, and lines separated by any run of line-break characters; no line makes the splitter read outside it. A CSV table whose header names latitude and longitude yields one placemark per row with numeric coordinates, carrying its name, description, id, style and every other column as data, and reports rows lacking coordinates as errors without stopping.",
  ["inputs"], "all lines within the length bound over all bytes; all column orders and row shapes within the bound",
  "Tests use a few fixed lines and files.",
  ["base/csv_splitter.cc", "base/string_util.cc", "convenience/csv_parser.cc", "convenience/csv_file.cc"], [("SplitQuotedUsing", "base/string_util.cc"), ("CsvParser", "convenience/csv_parser.cc")], ["CsvSplitter, SplitQuotedUsing, CsvParser, CsvFile"])
p("P24", "Balloon templates expand every reference to the right value",
  "In balloon text every occurrence of a reference to a known entity (field, data name, data display name, schema field) is replaced by that entity's value, in any number and position, and all other text, including references to unknown entities, is kept as it is. The expansion always terminates, a value that holds a reference to itself is inserted as it is, and whether a value that spells a reference to another entity is expanded again is left open.",
  ["inputs"], "all templates within the bound over the marker alphabet, symbolic entity values including values that look like references",
  "Tests expand a few fixed templates.",
  ["base/string_util.cc", "engine/entity_mapper.cc", "engine/feature_balloon.cc"], [("CreateExpandedStrings", "base/string_util.cc"), ("EntityMapper", "engine/entity_mapper.cc")], ["CreateExpandedStrings, EntityMapper, CreateBalloonText"])
p("P25", "Date-time text is accepted and converted exactly",
  "An XML schema date-time of the form YYYY-MM-DDThh:mm:ssZ with in-range fields, before as well as after 1970, is accepted and converted to the exact number of seconds since the epoch and to the same date-time, date and time texts. Text in which a field is out of range or not a number, a separator is missing or altered, or other text follows is rejected, and no text crashes the conversion.",
  ["inputs"], "all digit values in the template; all single-byte corruptions of it",
  "Tests convert a few dates.",
  ["base/date_time.cc", "base/time_util.cc"], [("DateTime", "base/date_time.cc")], ["DateTime::Create, ToTimeT, GetXsdDateTime"])
p("P26", "XSD files are read totally and type queries are correct",
  "Parsing any text as an XML schema terminates safely with a schema or an error, also with anonymous or nested types; in a parsed schema exactly the declared global elements and named types are found by name, each with exactly its declared children (references resolved to global elements or left empty), values and base. Type-hierarchy queries terminate for any declared base types, cyclic or missing, and say that a type derives from exactly itself and its ancestors. Elements are grouped as abstract, complex or simple by their declaration, and all built-in primitive types are known by their names.",
  ["inputs"], "schemas from templates with symbolic names and references; short byte strings",
  "Tests load the two or three bundled schemas.",
  ["xsd/xsd_file.cc", "xsd/xsd_handler.cc", "xsd/xsd_util.cc", "xsd/xsd_complex_type.h"], [("XsdHandler", "xsd/xsd_handler.cc"), ("XsdFile", "xsd/xsd_file.cc")], ["XsdFile::CreateFromParse and queries"])
p("P27", "String helpers do exactly what their contracts say",
  "Splitting on a separator returns exactly the substrings between consecutive occurrences of the separator, so joining them with it restores the input; suffix, case-insensitive equality, white-space skipping, decimal recognition and hexadecimal helpers agree with their definitions for all inputs; path joining and splitting are inverse to each other.",
  ["inputs"], "all strings and separators within the length bound",
  "Tests use a few literals with one-character separators.",
  ["base/string_util.cc", "base/file.cc", "base/mimetypes.cc"], [("string helpers", "base/string_util.cc"), ("File::SplitFilePath/JoinPaths", "base/file.cc")], ["kmlbase functions"])
p("P28", "Every outgoing link of a document is found, and only those",
  "Collecting links from any document returns the content of every href element, every styleUrl, every targetHref of a model's Alias and every schemaUrl with its exact text, each occurrence once, in document order, and nothing else; the relative links are exactly those which have a path and neither scheme nor host. Collecting link parents returns exactly the NetworkLinks, Models, overlays, IconStyles and ItemIcons in document order, and fetching the link or icon of a feature fetches its href resolved against the URL of the file.",
  ["inputs"], "documents from templates with link-bearing and other elements in symbolic selection and order",
  "Tests check a fixed list for one file.",
  ["engine/get_links.cc", "engine/get_link_parents.cc", "engine/link_util.cc", "convenience/kmz_check_links.cc"], [("SAX observers for links", "engine/get_links.cc")], ["GetLinks, GetLinkParents, GetLinkHref"])
p("P29", "Traversal reaches every element exactly once, in order",
  "Visiting a tree calls the visitor for every complex element in it exactly once, parents before (or, where so documented, after) children and siblings of one kind in document order, with the most specific handler for its type; finding elements by type returns exactly the elements of that type (including derived types where so documented), and feature and namespace searches likewise.",
  ["inputs"], "trees from templates with symbolic selection of children for every element family",
  "Tests traverse a few fixed trees.",
  ["dom/visitor.cc", "dom/visitor_driver.cc", "engine/find.cc", "engine/feature_visitor.cc", "engine/find_xml_namespaces.cc", "dom/kml_cast.cc"], [("AcceptChildren overrides", "dom/element.h"), ("GetElementsById", "engine/find.cc")], ["SimplePreorderDriver, GetElementsById, VisitFeatureHierarchy, FindXmlNamespaces"])
p("P30", "Type queries, casts and factory creation agree with the schema",
  "Every element the factory creates reports the type asked for and is an instance of exactly its schema ancestors; a checked cast to a type succeeds exactly when the element is an instance of it and never yields an object of another type. Element names and type identifiers correspond one to one, as do enumeration values and their numbers, and lookups outside the tables find nothing.",
  ["inputs", "configurations"], "every pair of types; every identifier value including out-of-range; all names within the bound",
  "Tests check casts of a few types.",
  ["dom/kml_cast.cc", "dom/kml_factory.cc", "dom/kml22.cc", "dom/xsd.cc", "dom/kml22.h"], [("IsA overrides", "dom/element.h"), ("Xsd tables", "dom/xsd.cc")], ["AsX, IsA, CreateElementById, Xsd"])
p("P31", "Attributes and namespace declarations are kept apart and kept whole",
  "An element's attributes are a map from names to values: construction from name/value pairs, cloning, merging (the source winning on conflicts), cutting and prefix splitting have exactly map semantics and conserve every pair; known attributes reach their fields, unknown ones and namespace declarations are kept and written back once. Namespace lookups by prefix and by URI are mutually inverse.",
  ["inputs", "histories"], "all small attribute maps with symbolic names and values; all operation sequences within the bound",
  "Tests use two or three fixed attributes.",
  ["base/attributes.cc", "base/attributes.h", "base/xmlns.h", "base/xml_namespaces.cc", "dom/element.cc"], [("Attributes map", "base/attributes.cc"), ("AddUnknownAttributes", "dom/element.cc")], ["Attributes, Xmlns, parsed elements"])
p("P32", "Old-style schema features are converted without losing data",
  "A document that declares an old-style schema with a parent is read with each element of that name turned into a placemark whose extended data carries, in order, one entry per declared simple field present, with its text; other features are unaffected and data never leaks from one such feature to another. Where several such schemas are declared the last one before the element applies.",
  ["inputs"], "all presence/order combinations of a few fields over several features, symbolic text",
  "Tests convert two fixed files.",
  ["dom/kml_handler.cc", "engine/parse_old_schema.cc", "engine/old_schema_parser_observer.h", "engine/schema_parser_observer.h"], [("old_schema_name_ logic", "dom/kml_handler.cc"), ("ParseOldSchema", "engine/parse_old_schema.cc")], ["Parse, ParseOldSchema, ConvertOldSchema"])
p("P33", "Parse observers see every element and can stop or filter the parse",
  "During a parse each observer is told of every known element when it starts and of every known child once its content is complete, in document order, parents starting before and finishing after their children; an observer that refuses a child keeps it, and only it, out of the tree (observers registered later are not told of its end), and one that stops the parse makes it fail.",
  ["inputs", "configurations"], "trees from templates with symbolic choice of the element at which each of two observers refuses or stops",
  "Tests use two fixed observers.",
  ["dom/kml_handler.cc", "dom/parser_observer.h", "dom/parser.cc"], [("Call*Observers", "dom/kml_handler.cc")], ["Parser::AddObserver"])
p("P34", "Convenience constructors and accessors build and read the stated elements",
  "Helper functions that create points, placemarks, cameras, look-ats, regions, waits, fly-tos, animated updates, data and times put each argument in the stated field and nothing else, helpers that read them return the same values, adding a data value keeps all earlier ones and setting one replaces them. Helpers for Atom return the links, categories, content sources and features of entries and feeds (as clones), and the GPX reader reports exactly the track points which have a latitude and a longitude, each with its own elevation and time. Simplifying a coordinate list leaves out exactly the tuples within the tolerance of their predecessor, and none when the tolerance is 0.",
  ["inputs"], "all argument values within the bound",
  "Tests call each helper once.",
  ["convenience/convenience.cc", "convenience/atom_util.cc", "convenience/gpx_trk_pt_handler.h"], [("helpers", "convenience/convenience.cc")], ["kmlconvenience functions, SerializeRaw"])
p("P35", "Great-circle distance, heading and destination formulas are accurate",
  "Distances, azimuths and destination points computed on the sphere agree with the haversine formulas to within rounding for every pair of points.",
  ["inputs"], "all pairs of coordinates", "Tests check a few pairs.",
  ["base/math_util.cc"], [("haversine", "base/math_util.cc")], ["kmlbase math functions"],
  na="The functions are compositions of libm transcendental functions (sin, cos, asin, atan2) on doubles; no SMT theory available here decides them, and replacing them with uninterpreted functions leaves no checkable content.")
p("P36", "Service clients send exactly the stated requests and survive any reply",
  "Each operation of the Google service clients sends the request its interface states and no other: method, address, type and title headers, and a body that carries the given map, feature, media or spreadsheet; an operation on several objects or pages sends one request for each. Replies are passed through or decoded completely and in order, a failed transport or a reply of another kind is reported as failure, and a login attaches the token of the reply to later requests only when there is one. Headers are kept in order and the first of a name is found.",
  ["inputs", "fault_sequences"], "all texts within the bound; every kind of reply and a transport failure at every request", "Tests use canned replies.",
  ["convenience/google_doc_list.cc", "convenience/google_maps_data.cc", "convenience/google_picasa_web.cc", "convenience/google_spreadsheets.cc", "convenience/http_client.cc"],
  [("HTTP request composition", "convenience/http_client.cc")], ["HttpClient::SendRequest"])

p("P37", "Files are written and read byte for byte, and failures are reported",
  "Writing a string to a file and reading the file gives exactly the same bytes, whatever they are, however many, and whatever the file held before; a path that is not a readable regular file is reported as a failure which leaves the output unmodified, and data that could not be written is reported. A file exists exactly if it is a regular file and deleting reports whether there was something to delete. Temporary files are new, distinct, private to the owner, and deleted with their last holder only.",
  ["inputs", "fault_sequences"], "all contents within the bound; every kind of path; a device that refuses data", "Tests write one short text.",
  ["base/file.cc", "base/file.h", "base/file_posix.cc", "base/tempfile.h"],
  [("file contents", "base/file.cc"), ("deletion and temporary files", "base/file_posix.cc")], ["File, TempFile"])

if __name__ == "__main__":
    have = lambda i: os.path.exists(f"{V}/harness/{i}.cc")
    with open(f"{V}/properties.jsonl", "w") as f:
        for q in P:
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["qtext"]}, "why_tests_cant": q["why"],
                                "anchors": {"files": q["files"], "mechanism": q["mech"], "observe_at": q["observe"], "hook_needed": None}}) + "\n")
            assert len(q["title"]) <= 80, q["id"]
            assert len([x for x in q["statement"].replace("i.e.", "").split(". ") if x]) <= 3, (q["id"], q["statement"])
            for x in q["files"]:
                assert os.path.exists("/repo/" + x), x
    m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unmodified"},
         "checks": [], "not_applicable": [],
         "notes": "Every check: python3 check.py <property> [quick|thorough]. Engine, models, bounds and trusted base are described in DESIGN.md."}
    for q in P:
        if q["na"]:
            m["not_applicable"].append({"property": q["id"], "reason": q["na"]})
        elif have(q["id"]):
            m["checks"].append({"property": q["id"], "quick_cmd": f"python3 check.py {q['id']} quick", "thorough_cmd": f"python3 check.py {q['id']} thorough",
                                "technique": "concolic symbolic execution of libkml's LLVM bitcode, z3 deciding every path and assertion within stated bounds",
                                "level": "other",
                                "level_note": q["note"] or "Bounded: for every harness the evidence reports as exhausted, the solver refuted the assertion's negation on every feasible path for all inputs in the stated bound; counterexamples are replayed natively before being reported. Trusts clang -O1 bitcode, the interpreter runtime, z3, and the expat/iostream/libc models (compared with the real libraries on every path)."})
        else:
            m["not_applicable"].append({"property": q["id"], "reason": "check not built yet"})
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    print(len(m["checks"]), "checks")
