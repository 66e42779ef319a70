#!/usr/bin/env python3
"""Writes DESIGN.md: meta/design_head.md, a section per property (oracle below, bounds from the harness annotations),
the defects repaired (known_findings.json) and meta/design_tail.md.  Run: python3 meta/design.py"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/meta")
sys.path.insert(0, V)
import check
O = {
"P01": "harness/schema.h is an independent table of the KML 2.2/gx/atom/xAL schema (element types, their fields with type and default, child slots in schema order), written from the OGC schema and not derived from libkml. The document text is generated from the table, the getters and the serialised children are compared with it; harness/xt.h is an independent minimal XML reader used to look at the output.",
"P02": "A model object (field -> value, set?) runs beside the real one; after every operation all fields of the element type are compared through the same table of accessors.",
"P03": "The text is put in through the API, serialised and parsed again; the assertion is equality of the text, and that the output is accepted.",
"P04": "Totality and memory safety are the ASan/shadow checks on every path; acceptance is compared between the entry points, and with what the construction of the text implies (cut, too deep, entity, unknown root).",
"P05": "The expected children (name, attributes, decoded text, order within their kind) are known from the construction; the serialised output is read with the independent reader and compared.",
"P06": "serialise(parse(x)) is compared with serialise(parse(serialise(parse(x)))) byte by byte, raw and pretty trees with the independent reader.",
"P07": "The tuples are built from digits, so their exact decimal values are known (mantissa/scale arithmetic); arbitrary texts are compared with an independent tokenizer of the tuple grammar.",
"P08": "Decimal texts are built from symbolic digits; the read number must be the correctly rounded mantissa / 10^k and the written text must be the shortest form of it.",
"P09": "Bit arithmetic on the 32-bit value, and a reference reader of colour text.",
"P10": "A model of owners and parents runs beside the real tree over every operation sequence; ASan and reference counts decide lifetime.",
"P11": "Serialisations of original and clone compared byte by byte; every element of the clone compared by address with every one of the original; mutation after cloning.",
"P12": "Expected target computed field by field and slot by slot from the schema table.",
"P13": "The expected map is computed from the construction of the document (which object carries which symbolic id, last one wins).",
"P14": "A reference resolver over the constructed style graph (precedence, at most five style URLs, states).",
"P15": "Style resolution (itself decided by P14) of every feature before and after; all other content compared through serialisations without styles.",
"P16": "A reference interpreter of Change/Create/Delete over the constructed document, compared as serialised text.",
"P17": "harness/uri.h is an independent RFC 3986 parser and resolver, run on the same symbolic text.",
"P18": "A FIFO model of the cache and a counting fetcher run beside the real cache.",
"P19": "harness/zip.h builds archives byte by byte (so names and contents are known); corrupted archives only need to be safe; archives written by libkml are read back by libkml and by an independent walk of the central directory.",
"P20": "Minimum/maximum/midpoint computed over exact dyadic or integer coordinates; quadtree alignment by the definition (deepest quadrant that contains the box).",
"P21": "The expected region tree, file names and feature placement are computed from the definition over the symbolic choice of data; conservation is counted over all documents saved.",
"P22": "Reference implementation over plain vectors of indices.",
"P23": "A reference CSV splitter (RFC 4180 style as documented) and the expected placemark per row.",
"P24": "A reference expander (leftmost reference, known entities only), and the entity table known from the construction.",
"P25": "Days-from-civil arithmetic over the symbolic fields; text forms assembled from the same fields.",
"P26": "Expected elements, types, children, bases and hierarchies are known from the construction of the schema text.",
"P27": "Definitions written directly in the harness (join of the pieces, suffix, tolower comparison, ...).",
"P28": "The expected list of links is known from the construction of the document.",
"P29": "The tree is built from the schema table, so its elements and their order are known; a recording visitor is compared with it. Base classes come from harness/anc.h, an independent table of ancestors.",
"P30": "harness/anc.h (ancestors) and harness/schema.h (names, enumerations).",
"P31": "A std::map model runs beside the real attributes.",
"P32": "The expected placemarks and their data are known from the construction.",
"P33": "Expected event sequences are computed from the constructed document.",
"P34": "Each helper's documented fields, everything else asserted absent.",
"P36": "A recording client (subclass of HttpClient) plays the network: the requests it was given are compared with those the interfaces state, its replies and failures are symbolic choices.",
"P37": "The files are real ones in a scratch directory the harness creates and removes; what is read back, whether it exists and which bytes are there is compared with what was written, including a directory in the place of a file and a device that is full.",
}
import runpy
P = runpy.run_path(V + "/meta/props.py", run_name="x")["P"]
o = open(V + "/meta/design_head.md").read()
o += "\n## The properties\n\nBounds are those of the quick tier; where a thorough bound differs it says so. Budgets (`q`, `t` in the sources) only cap the time: a harness that runs out of its budget is reported as not exhausted, never as a violation.\n"
for p in P:
    o += f"\n### {p['id']} {p['title']}\n"
    if p["na"]:
        o += f"Not applicable: {p['na']}\n"
        continue
    hs, notes = check.meta(p["id"])
    o += f"Oracle: {O[p['id']]}\n\nWhy the tests cannot settle it: {p['why']}\n\n"
    for h in hs:
        o += f"- `{h['name']}`: {h['bound']}\n"
    for x in notes["assume"]:
        o += f"- assumes: {x}\n"
    for x in notes["outside"]:
        o += f"- outside the bound or the claim: {x}\n"
k = json.load(open(V + "/known_findings.json"))
o += "\n## Defects found in libkml\n\nEach was shown against the real code by a check (input in the harness, replayed natively), repaired with a `fix:` commit in /repo, and is reported again if it returns.\n\n"
for x in k["fixed"]:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", x)
    o += f"- {m[1]} `{m[2]}` {m[3]}\n"
o += "\nKnown findings not repaired:\n\n" + ("".join(f"- {x['property']}: {x['what']}\n" for x in k["known"]) or "- none\n")
o += "\n## Planted bugs\n\n| id | property | what it needs | caught by |\n|---|---|---|---|\n"
caught = json.load(open(V + "/meta/caught.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    o += f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |\n"
o += "\n" + open(V + "/meta/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(o)
