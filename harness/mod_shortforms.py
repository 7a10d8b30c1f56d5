"""
C28: the short forms of constructor arguments (spec/ShortForms.tla)
"""
from concurrent.futures import ProcessPoolExecutor
from common import tlc, silenced
import mod_arxml as arxml
import autosar.xml.enumeration as ar_enum

CFG = """CONSTANTS
Base = {base}
Mark = ""
SPECIFICATION Spec
INVARIANT EmitCase
INVARIANT FormsDiffer
CHECK_DEADLOCK FALSE
"""
ENTRY = {"MultilanguageLongName": "long_name", "MultiLanguageOverviewParagraph": "paragraph",
         "MultiLanguageParagraph": "paragraph", "MultiLanguageVerbatim": "element"}


class Odd:
    """Something no constructor can know"""

    def __repr__(self):
        return "Odd()"


def held(node):
    """The fields of a node that are set, with their values"""
    return [(field, vals) for field, vals in zip(arxml.FIELDS[node["c"]], node["f"]) if vals]


def inner(node):
    """The single thing a node holds"""
    (field, vals), = held(node)
    return arxml.value_of(vals[0], field)


def spoken(node):
    """(language, text) of a language part"""
    parts = dict((field["a"], arxml.value_of(vals[0], field)) for field, vals in held(node))
    return parts["language"], parts["parts"]


def render(rec, field, vals):
    """The argument for a field in one of the forms"""
    form = rec["form"]
    full = [arxml.value_of(val, field) for val in vals]
    many = field["m"] == "*"
    if form == "one":
        return full[0]
    if form == "tuple":
        return tuple(full)
    if form in ("text", "text1"):
        return vals[0]["x"]
    if form in ("inner", "inner1"):
        out = [inner(val) for val in vals]
        return out if many and form == "inner" else out[0]
    if form == "pair":
        return spoken(vals[0]["f"][0][0])
    if form == "pair1":
        return spoken(vals[0])
    if form == "plain":
        return spoken(vals[0]["f"][0][0])[1]
    if form == "parts":
        return [tuple(arxml.value_of(v[0], f) for f, v in sorted(held(val), key=lambda h: h[0]["a"] != "name")) for val in vals]
    if form in ("kin", "alien"):
        ref = arxml.ref_class(rec["rc"])(vals[0]["x"], ar_enum.IdentifiableSubTypes[rec["rd"]])
        return [ref] if many else ref
    if form == "more":
        return tuple(full) if field["m"] == "2" else full
    if form == "odd":
        return Odd()
    if form == "odds":
        return full + [Odd()]
    raise AssertionError(form)


def outcome(rec):
    """("kept" | "err" | what is wrong, detail) of building the element with the argument"""
    node = rec["n"]
    cls = arxml.py_class(node["c"])
    params = arxml.parameters(cls)
    kwargs = {}
    attr = arxml.FIELDS[node["c"]][rec["i"] - 1]["a"]

    def parameter(name):
        if name == "elements" and node["c"] in ENTRY:
            return ENTRY[node["c"]]
        if name == "elements" and node["c"] == "DocumentationBlock":
            return "element"
        return arxml.RENAME[name] if arxml.RENAME.get(name, name) in params and name in arxml.RENAME else name

    odd = None
    for ix, (field, vals) in enumerate(zip(arxml.FIELDS[node["c"]], node["f"]), 1):
        if not vals:
            continue
        pname = parameter(field["a"])
        if pname not in params:
            if ix == rec["i"]:
                return "no parameter", pname
            continue
        if ix == rec["i"]:
            kwargs[pname] = render(rec, field, vals)
            odd = kwargs[pname][-1] if rec["form"] == "odds" else kwargs[pname]
        else:
            kwargs[pname] = arxml.shaped(field, [arxml.value_of(v, field) for v in vals])
    for pname, par in params.items():
        if par.default is par.empty and par.kind == par.POSITIONAL_OR_KEYWORD and pname not in kwargs and pname != "self":
            kwargs[pname] = None
    try:
        with silenced():
            obj = cls(**kwargs)
    except Exception as exc:  # pylint: disable=W0703
        return "err", f"{type(exc).__name__}: {exc}"
    if isinstance(odd, Odd):
        return ("kept", "") if any(val is odd for val in arxml.listed(getattr(obj, attr))) else ("ignored", "")
    if rec["form"] == "more":
        return ("kept", "") if getattr(obj, attr) == kwargs[parameter(attr)] else ("ignored", "")
    diffs = []
    arxml.compare(obj, node, node["c"], diffs)
    skip = [f["a"] for f, v in zip(arxml.FIELDS[node["c"]], node["f"]) if v and parameter(f["a"]) not in params]
    diffs = [d for d in diffs if not any(f".{name}:" in d for name in skip)]
    return ("kept", "") if not diffs else ("different", "; ".join(diffs[:3]))


def _job(recs):
    return [(rec, *outcome(rec)) for rec in recs]


def c28(check):
    total = {}
    for base in (3,) if check.quick else (3, 1117, 5003, 7919, 104729):
        res = tlc("ShortFormsMC", CFG.format(base=base), workers=6)
        check.add_tlc(res, f"forms_{base}")
        cases = []
        for rec in res.records:
            if rec["k"] == 0:
                arxml.FIELDS[rec["c"]] = rec["fields"]
            else:
                cases.append(rec)
        cases.sort(key=lambda r: (r["c"], r["k"]))
        parts = [cases[lo:lo + 60] for lo in range(0, len(cases), 60)]
        with ProcessPoolExecutor(max_workers=7) as pool:
            for out in pool.map(_job, parts, chunksize=2):
                for rec, got, detail in out:
                    total[rec["form"]] = total.get(rec["form"], 0) + 1
                    attr = arxml.FIELDS[rec["c"]][rec["i"] - 1]["a"]
                    if got == rec["want"] or (rec["want"] == "may" and got in ("kept", "err")):
                        continue
                    check.violation(f"{rec['c']}.{attr}:{rec['form']}:{got}",
                                    {"class": rec["c"], "argument": attr, "form": rec["form"], "specified": rec["want"],
                                     "observed": got, "detail": detail, "element": rec["n"]})
        check.validated += len(cases)
        check.sample({k: cases[len(cases) // 2][k] for k in ("c", "form", "want", "n")})
    check.cov["arguments_by_form"] = total


CHECKS = {"C28": c28}
