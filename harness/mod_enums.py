"""C04 enumeration texts, C15 typed references: the tables of the specification against the library"""
import enum
import inspect
from common import tlc, silenced, deadline, Hang as common_hang
import mod_arxml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_reference
from autosar.xml.reader import Reader
from xml.sax.saxutils import escape, quoteattr

CFG = "SPECIFICATION Spec\nINVARIANT EmitCase\n{inv}CHECK_DEADLOCK FALSE\n"


def arxml(case, ver):
    """The XML of a case as the specification has it"""
    out = ['<?xml version="1.0" encoding="utf-8"?>',
           f'<AUTOSAR xsi:schemaLocation="http://autosar.org/schema/r4.0 AUTOSAR_000{ver}.xsd" '
           'xmlns="http://autosar.org/schema/r4.0" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"><AR-PACKAGES>']
    toks = case["t"]
    if toks[0] != "<AR-PACKAGE":
        out.append("<AR-PACKAGE><SHORT-NAME>Elements</SHORT-NAME><ELEMENTS>")
    stack, ix = [], 0
    while ix < len(toks):
        tok = toks[ix]
        if tok.startswith("<"):
            attrs = []
            while toks[ix + 1].startswith("@"):
                key, val = toks[ix + 1][1:].split("=", 1)
                attrs.append(f" {key}={quoteattr(val)}")
                ix += 1
            stack.append(tok[1:])
            out.append(tok + "".join(attrs) + ">")
        elif tok == "/":
            out.append(f"</{stack.pop()}>")
        else:
            out.append(escape(tok[1:]))
        ix += 1
    if toks[0] != "<AR-PACKAGE":
        out.append("</ELEMENTS></AR-PACKAGE>")
    out.append("</AR-PACKAGES></AUTOSAR>")
    return "".join(out)


def attempt(func, *args):
    """Result of a call, or None when it raised"""
    try:
        with silenced():
            return func(*args)
    except Exception:  # pylint: disable=W0703
        return None


def wrong_texts(texts):
    """Texts next to defined ones"""
    out = set()
    for text in texts:
        out |= {text.lower(), text + " ", " " + text, text + "S", text[:-1], text.replace("-", "_"), text.replace("-", ""),
                text.title(), "AR:" + text}
    return out | {"", "0", "1", "NONE", "None", "DEFAULT"}


def c04(check):
    res = tlc("EnumMC", CFG.format(inv="INVARIANT OneToOne\n"), workers=4)
    check.add_tlc(res, "enums")
    universe = sorted({t for r in res.records for t, _ in r["read"]})
    universe += sorted(wrong_texts(universe) - set(universe))
    for rec in res.records:
        name, ver = rec["e"], rec["v"]
        cls = getattr(ar_enum, name, None)
        if cls is None or not issubclass(cls, enum.Enum):
            check.violation(f"enum:{name}:missing", {"enumeration": name})
            continue
        if sorted(m.name for m in cls) != sorted(rec["members"]):
            check.violation(f"enum:{name}:members", {"enumeration": name, "want": rec["members"], "got": [m.name for m in cls]})
        write = dict(map(tuple, rec["write"]))
        for member in cls:
            got = attempt(ar_enum.enum_to_xml, member, ver)
            check.validated += 1
            if got != write.get(member.name):
                check.violation(f"enum_to_xml:{name}.{member.name}", {"schema": ver, "want": write.get(member.name, "an error"),
                                                                       "got": got})
            if ver == 51 and attempt(ar_enum.enum_to_xml, member) != write.get(member.name):
                check.violation(f"enum_to_xml:{name}.{member.name}:default", {"want": write.get(member.name)})
        read = dict(map(tuple, rec["read"]))
        for text in universe:
            got = attempt(ar_enum.xml_to_enum, name, text, ver)
            check.validated += 1
            if (got.name if got is not None else None) != read.get(text) or (got is not None and not isinstance(got, cls)):
                check.violation(f"xml_to_enum:{name}:{text}", {"schema": ver, "want": read.get(text, "an error"), "got": str(got)})
    known = {r["e"] for r in res.records}
    check.cov["enumerations"], check.cov["texts"] = len(known), len(universe)
    check.sample({"enumeration": res.records[0]["e"], "texts": res.records[0]["read"]})
    # the same through elements: every enumeration-valued attribute, every member, every version
    mod_arxml.load(check, "fields", pairs="FALSE")
    with_enum = sorted({c for c, fields in mod_arxml.FIELDS.items() if any(f["k"] in ("enum", "ltype") for f in fields)})
    only = ", ".join(f'"{c}"' for c in with_enum)
    for ver in (48, 49, 50, 51):
        cases = mod_arxml.load(check, f"elements_{ver}", undefined=True, pairs="FALSE", ver=ver, only=only)
        cases = [c for c in cases if has_enum(c["n"])]
        good = [c for c in cases if c["u"] == "1"]
        mod_arxml.run(check, good, "ctor", ver, {"write", "parse", "read", "xml"})
        bad = [c for c in cases if c["u"] != "1"]
        for case in bad:
            xml = attempt(mod_arxml.write_doc, [case], "ctor", ver)
            if xml is not None:
                check.violation(f"undefined member written:{case['c']}", {"schema": ver, "element": case["n"], "xml": xml[0][-2000:]})
            doc = attempt(Reader().read_str, arxml(case, ver))
            if doc is not None and any(p.elements for p in doc.packages):
                check.violation(f"undefined text read:{case['c']}", {"schema": ver, "element": case["n"]})
            check.validated += 1
        check.cov[f"elements_{ver}"] = [len(good), len(bad)]


def has_enum(node):
    return node["c"] in ("=enum", "=ltype") or any(has_enum(v) for vals in node["f"] for v in vals)


def raw_form(ref, dest, path):
    """The value a form of the specification stands for"""
    if ref == "":
        return path
    return getattr(ar_reference, ref)(path, ar_enum.IdentifiableSubTypes[dest])


def stored(cls, node, index, value):
    """What an attribute holds after giving the value to the constructor; None when it was refused"""
    node = dict(node, f=[list(v) for v in node["f"]])
    node["f"][index] = [{"c": "=raw", "x": value, "d": "", "f": []}]
    obj = attempt(mod_arxml.build, node)
    if obj is None:
        return None
    return mod_arxml.listed(getattr(obj, mod_arxml.FIELDS[node["c"]][index]["a"]))


def c15(check):
    mod_arxml.load(check, "fields", pairs="FALSE")
    res = tlc("RefMC", "CONSTANT Mark = \"\"\n" + CFG.format(inv=""), workers=6)
    check.add_tlc(res, "references")
    by = {w: [r for r in res.records if r["w"] == w] for w in ("type", "attrs", "own")}
    kinds = list(ar_enum.IdentifiableSubTypes)
    outcomes = {}
    known = {n for n, c in vars(ar_reference).items() if inspect.isclass(c) and c.__module__ == ar_reference.__name__}
    for name in sorted(known ^ {r["r"] for r in by["type"]}):
        check.violation(f"type:{name}:unknown", {"reference type": name})
    for rec in by["type"]:
        name = rec["r"]
        cls = getattr(ar_reference, name)
        outcomes[name] = [tuple(s) for s in rec["store"]]
        for kind in kinds:
            obj = attempt(cls, "/a/b", kind)
            want = kind.name in rec["ok"]
            check.validated += 1
            if (obj is not None) != want or (want and (obj.dest is not kind or obj.value != "/a/b" or str(obj) != "/a/b")):
                check.violation(f"type:{name}:{kind.name}", {"want": "accepted" if want else "refused",
                                                              "got": obj is not None and str(obj.dest)})
        for args in (("/a",), ("/a", None)):
            try:
                obj = cls(*args)
                got = obj.dest.name
            except (ValueError, TypeError):
                got = "err"
            except Exception as exc:  # pylint: disable=W0703
                got = type(exc).__name__
            if got != rec["default"]:
                check.violation(f"type:{name}:default", {"want": rec["default"], "got": got, "args": args})
    attrs = 0
    for rec in by["attrs"]:
        cls = mod_arxml.py_class(rec["c"])
        for index in [i - 1 for i in rec["ix"]]:
            field = dict(mod_arxml.FIELDS[rec["c"]][index])
            field["x"] = mod_arxml.ref_class(field["x"]).__name__
            attrs += 1
            forms = outcomes[field["x"]] + [("int", "", "err")]
            for ref, dest, want in forms:
                path = f"/P/{dest or 'x'}"
                value = 7 if ref == "int" else raw_form(ref, dest, path)
                got = stored(cls, rec["n"], index, value)
                check.validated += 1
                only = ref_default(by, field["x"])
                kept = got is not None and len(got) == 1 and (getattr(got[0], "value", None), getattr(getattr(got[0], "dest", None), "name", "")) \
                    == (path, dest or only)
                bad = (got is not None) if want == "err" else (not kept if want == "keep" else (got is not None and not kept))
                if bad:
                    check.violation(f"attr:{rec['c']}.{field['a']}:{ref or 'str'}:{want}",
                                    {"attribute type": field["x"], "value": [ref, dest], "want": want,
                                     "got": None if got is None else [mod_arxml.show(g) for g in got]})
    for rec in by["own"]:
        check.validated += 1
        out = {}

        def probe():
            root = mod_arxml.build(rec["n"])
            elem = root
            for name in rec["chain"]:
                elem = mod_arxml.listed(getattr(elem, name))[0]
            out["type"] = type(elem) is mod_arxml.py_class(rec["c"])
            before = elem.ref()
            doc = mod_arxml.ar_document.Document()
            pkg = ar_element.Package("Elements")
            doc.append(pkg)
            pkg.append(root)
            ref = elem.ref()
            out["before"] = before is None
            out["ref"] = [type(ref).__name__, ref.dest.name, ref.value]
        try:
            with deadline(5), silenced():
                probe()
        except (Exception, common_hang) as exc:  # pylint: disable=W0703
            out["error"] = f"{type(exc).__name__}: {exc}"
        want = {"type": True, "before": True, "ref": [rec["r"], rec["d"], rec["path"]]}
        if out != want:
            check.violation(f"own:{rec['c']}", {"want": want, "got": out, "chain": rec["chain"]})
    read_refs(check, {r["r"]: r for r in by["type"]})
    check.cov.update({"reference types": len(by["type"]), "attributes": attrs, "elements with references": len(by["own"])})
    check.sample({"type": by["type"][0]["r"], "accepts": by["type"][0]["ok"]})


NEIGHBOUR = ["<UNIT", "<SHORT-NAME", "=Neighbour", "/", "/"]


def held_refs(node, chain):
    """Every reference below a node, in the order of the XML: the class and field holding it, the value, where it is"""
    for field, vals in zip(mod_arxml.FIELDS[node["c"]], node["f"]):
        for ix, val in enumerate(vals):
            if val["c"] == "=ref":
                yield node["c"], field, val, chain + [(field["a"], ix)]
            elif not val["c"].startswith("="):
                yield from held_refs(val, chain + [(field["a"], ix)])


def ref_places(cases):
    """For every field that holds references an element in a document that has it: (case, token of its DEST, value, chain)"""
    places = {}
    for case in cases:
        if case["t"][0] == "<AR-PACKAGE":
            continue
        dests = [ix for ix, tok in enumerate(case["t"]) if tok.startswith("@DEST=")]
        for ix, (owner, field, val, chain) in zip(dests, held_refs(case["n"], []), strict=True):
            assert "=" + val["x"] in case["t"][ix:ix + 4]
            places.setdefault((owner, field["a"], field["x"]), (case, ix, val, chain))
    return places


def read_with(case, index, text):
    """The element of a case read from a document where one reference has another DEST; None when it is refused"""
    toks = list(case["t"])
    if text == "=none":
        del toks[index]
    else:
        toks[index] = "@DEST=" + text
    doc = Reader().read_str(arxml({"t": toks + NEIGHBOUR}, 51))
    if not isinstance(doc.find("/Elements/Neighbour"), ar_element.Unit):
        raise ValueError("the element behind it was not read")
    return doc.find("/Elements/" + toks[toks.index("<SHORT-NAME") + 1][1:])


def read_refs(check, types):
    """References read with every DEST in every place"""
    cases = mod_arxml.load(check, "places of references", pairs="FALSE", depth=0)
    places = ref_places(cases)
    for (owner, attr, kind), (case, index, val, chain) in sorted(places.items(), key=lambda p: p[0]):
        cls = mod_arxml.ref_class(kind)
        narrow = cls.__name__ != kind
        for text, dest in types[cls.__name__]["read"]:
            if narrow and dest != "err" and text != case["t"][index].split("=", 1)[1]:
                continue  # the schema wants one side, the library knows the port's side only from the kind
            try:
                with deadline(5), silenced():
                    obj = read_with(case, index, text)
                    for name, ix in chain if obj is not None else ():
                        obj = mod_arxml.listed(getattr(obj, name))[ix]
                got = "err" if obj is None else [type(obj).__name__, obj.dest.name, obj.value]
            except (Exception, common_hang) as exc:  # pylint: disable=W0703
                got = f"{type(exc).__name__}: {exc}"[:200]
            want = "err" if dest == "err" else [cls.__name__, dest, val["x"]]
            check.validated += 1
            if got != want:
                check.violation(f"read:{owner}.{attr}:{'refused' if want == 'err' else 'kept'}",
                                {"place": f"{owner}.{attr}", "DEST": text, "want": want, "got": got, "element": case["c"]})
    check.cov["places of references read"] = len(places)


def ref_default(by, name):
    for rec in by["type"]:
        if rec["r"] == name:
            return rec["default"]
    return None


CHECKS = {"C04": c04, "C15": c15}
