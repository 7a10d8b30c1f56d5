"""
C01 round trip, C02 any text, C03 tags and order: elements and their ARXML enumerated by spec/ArxmlSchema.tla
"""
import inspect
import os
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ProcessPoolExecutor
from common import tlc, silenced, deadline, Hang
import autosar.xml.element as ar_element
import autosar.xml.reference as ar_reference
import autosar.xml.enumeration as ar_enum
import autosar.xml.document as ar_document
from autosar.xml.reader import Reader
from autosar.xml.writer import Writer

CFG = """CONSTANTS
Depth = {depth}
WithPairs = {pairs}
Ver = {ver}
Base = {base}
Mark = "{mark}"
Only = {{{only}}}
SPECIFICATION Spec
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
"""
MIXED = {"L-1", "L-2", "L-4", "L-5", "DISPLAY-NAME", "UNIT-DISPLAY-NAME"}
FIELDS = {}
RENAME = {"scale_constrs": "scale_constr"}
_FRESH = {}


def py_class(name):
    if name.endswith("_P") or name.endswith("_R"):
        name = name[:-2]
    return getattr(ar_element, name)


def ref_class(name):
    if name.endswith("_P") or name.endswith("_R"):
        name = name[:-2]
    return getattr(ar_reference, name)


def number(text, notation=""):
    """The number a literal of the specification stands for"""
    value = int(text) if text.lstrip("-").isdigit() else float(text)
    return ar_element.NumericalValue(value, ar_enum.ValueFormat[notation]) if notation else value


def atom(node, field):
    kind = node["c"]
    if kind == "=raw":
        return node["x"]
    text = node["x"]
    if kind == "=text":
        return text
    if kind in ("=num", "=limit"):
        return number(text, node["d"])
    if kind == "=bool":
        return text == "1"
    if kind == "=enum":
        return getattr(ar_enum, field["x"])[text]
    if kind == "=ltype":
        return ar_enum.IntervalType[text]
    if kind == "=ref":
        return ref_class(field["x"])(text, ar_enum.IdentifiableSubTypes[node["d"]])
    raise AssertionError(kind)


def value_of(node, field):
    return atom(node, field) if node["c"].startswith("=") else build(node)


def shaped(field, vals):
    """The Python value of a field holding the given list of values"""
    if field["m"] == "2":
        return vals[0] if len(vals) == 1 else tuple(vals)
    if field["m"] == "*":
        return vals
    return vals[0]


def settings(node):
    out = []
    for field, vals in zip(FIELDS[node["c"]], node["f"]):
        if vals:
            out.append((field, [value_of(v, field) for v in vals]))
    return out


def assign(obj, field, vals):
    name = field["a"]
    if field["m"] == "*" and name in ("elements", "parts") and hasattr(obj, "append"):
        for val in vals:
            obj.append(val)
    else:
        setattr(obj, name, shaped(field, vals))


def build(node, how="ctor"):
    """Builds the object of a node through its constructor; how="set": attributes assigned one by one, last first;
    how="file": the document goes through a file"""
    cls = py_class(node["c"])
    params = parameters(cls)
    kwargs, later = {}, []
    for field, vals in settings(node):
        name = field["a"]
        pname = RENAME.get(name, name) if RENAME.get(name, name) in params else name
        req = field["m"] in ("r", "@r") or (name in params and params[name].default is inspect.Parameter.empty)
        if how == "set" and not req and field["k"] not in ("limit", "ltype"):
            later.append((field, vals))
        elif pname in params:
            kwargs[pname] = shaped(field, vals)
        else:
            later.append((field, vals))
    for pname, par in params.items():
        if par.default is par.empty and par.kind == par.POSITIONAL_OR_KEYWORD and pname not in kwargs and pname != "self":
            kwargs[pname] = None
    obj = cls(**kwargs)
    for field, vals in (reversed(later) if how == "set" else later):
        if how == "set" and node["c"] == "Package" and field["a"] in ("elements", "packages"):
            for val in vals:
                obj.append(val)
        elif how == "set" and isinstance(getattr(obj, field["a"], None), dict):
            obj = build(node)
            break
        else:
            assign(obj, field, vals)
    return obj


def parameters(cls):
    """The parameters the constructor takes, those it hands to its base classes included"""
    out = {}
    for base in cls.__mro__:
        if "__init__" in vars(base):
            params = inspect.signature(base.__init__).parameters
            for pname, par in params.items():
                if par.kind == par.POSITIONAL_OR_KEYWORD:
                    out.setdefault(pname, par)
            if not any(p.kind == p.VAR_KEYWORD for p in params.values()):
                break
    return out


def listed(val):
    if val is None:
        return []
    if isinstance(val, dict):
        return list(val.values())
    if isinstance(val, (list, tuple)):
        return list(val)
    return [val]


def compare(obj, node, path, out):
    """Differences between an object and the node it should equal"""
    cls = py_class(node["c"])
    if type(obj) is not cls:
        out.append(f"{path}: {type(obj).__name__} instead of {cls.__name__}")
        return
    seen = set()
    for field, vals in zip(FIELDS[node["c"]], node["f"]):
        name = field["a"]
        seen.add(name)
        try:
            got = listed(getattr(obj, name))
        except AttributeError:
            out.append(f"{path}.{name}: missing")
            continue
        if not vals:
            if field["k"] == "ltype":
                lim = [v for f, v in zip(FIELDS[node["c"]], node["f"]) if f["a"] == field["x"]][0]
                want = [ar_enum.IntervalType.CLOSED] if lim else got
            else:
                want = []
            if got != want:
                out.append(f"{path}.{name}: unset, got {got!r:.60}")
            continue
        if len(got) != len(vals):
            out.append(f"{path}.{name}: {len(got)} values instead of {len(vals)}")
            continue
        for ix, (val, want) in enumerate(zip(got, vals)):
            here = f"{path}.{name}" + (f"[{ix}]" if len(vals) > 1 else "")
            if not want["c"].startswith("="):
                compare(val, want, here, out)
                continue
            exp = atom(want, field)
            if want["c"] == "=ref":
                same = type(val) is type(exp) and val.value == exp.value and val.dest is exp.dest
            elif want["c"] in ("=num", "=limit"):
                same = same_number(val, exp)
            elif want["c"] == "=text":
                same = isinstance(val, str) and val == exp
            else:
                same = val is exp
            if not same:
                out.append(f"{here}: {show(val)} instead of {show(exp)}")
    for name, val in vars(obj).items():
        if name in seen or name.startswith("_") or name in ("parent", "connection_map", "symbol_map"):
            continue
        if callable(val) or val in (None, [], {}) or name == "element_map":
            continue
        fresh = fresh_attr(node, name)
        if val != fresh:
            out.append(f"{path}.{name}: not set, but read as {show(val)}")


def same_number(val, exp):
    return (not isinstance(val, bool)) and isinstance(val, (int, float)) and val == exp


def show(val):
    if hasattr(val, "dest"):
        return f"{type(val).__name__}({val.value!r}, {val.dest})"
    return repr(val)[:60]


def fresh_attr(node, name):
    """The value an attribute outside the table has on an object that was just built"""
    try:
        return getattr(build(node), name)
    except Exception:  # pylint: disable=W0703
        return None


def tokens(elem, out):
    """The element as tokens of the specification; attributes sorted by name"""
    out.append("<" + elem.tag.rsplit("}", 1)[-1])
    for key in sorted(elem.attrib):
        out.append(f"@{key.rsplit('}', 1)[-1]}={elem.attrib[key]}")
    mixed = elem.tag.rsplit("}", 1)[-1] in MIXED
    text = elem.text or ""
    if text and (mixed or text.strip()):
        out.append("=" + text)
    for child in elem:
        tokens(child, out)
        tail = child.tail or ""
        if tail and (mixed or tail.strip()):
            out.append("=" + tail)
    out.append("/")
    return out


def canonical(toks):
    out, ix = [], 0
    while ix < len(toks):
        if toks[ix].startswith("@"):
            jx = ix
            while jx < len(toks) and toks[jx].startswith("@"):
                jx += 1
            out += sorted(toks[ix:jx])
            ix = jx
        else:
            out.append(toks[ix])
            ix += 1
    return out


def same_token(want, got):
    if want == got:
        return True
    if want.startswith("#") and got.startswith("="):
        try:
            return float(want[1:]) == float(got[1:])
        except ValueError:
            return False
    return False


def token_diff(want, got):
    for ix in range(max(len(want), len(got))):
        w = want[ix] if ix < len(want) else "(end)"
        g = got[ix] if ix < len(got) else "(end)"
        if not same_token(w, g):
            return {"at": ix, "want": want[max(0, ix - 3):ix + 5], "got": got[max(0, ix - 3):ix + 5]}
    return None


def diff_key(want, got, at):
    """Tag path of the first difference"""
    stack = []
    for tok in want[:at]:
        if tok.startswith("<"):
            stack.append(tok[1:])
        elif tok == "/":
            stack.pop()
    w = want[at] if at < len(want) else "(end)"
    g = got[at] if at < len(got) else "(end)"
    return "/".join(stack[-2:]) + f": {w.split('=')[0][:40]} / {g.split('=')[0][:40]}"


def root_name(case):
    node = case["n"]
    for field, vals in zip(FIELDS[node["c"]], node["f"]):
        if field["a"] == "name":
            return vals[0]["x"]
    return None


def write_doc(cases, how, ver):
    doc = ar_document.Document(schema_version=ver)
    plain = ar_element.Package("Elements")
    doc.append(plain)
    for case in cases:
        obj = build(case["n"], how)
        if isinstance(obj, ar_element.Package):
            doc.append(obj)
        else:
            plain.append(obj)
    if how != "file":
        return Writer(schema_version=ver).write_str(doc, False), None
    with tempfile.TemporaryDirectory() as work:
        path = os.path.join(work, "doc.arxml")
        Writer(schema_version=ver).write_file(doc, path)
        with open(path, "rb") as handle:
            data = handle.read()
        return data, Reader().read_file(path)


def roots_of(xml):
    top = ET.fromstring(xml)
    out = {}
    ns = top.tag.split("}")[0] + "}" if "}" in top.tag else ""
    for pkg in top.find(f"{ns}AR-PACKAGES"):
        name = pkg.find(f"{ns}SHORT-NAME").text
        if name == "Elements":
            for elem in pkg.find(f"{ns}ELEMENTS") if pkg.find(f"{ns}ELEMENTS") is not None else []:
                out[elem.find(f"{ns}SHORT-NAME").text] = elem
        else:
            out[name] = pkg
    return out


def check_batch(cases, how, ver, want_read):
    """Returns [(case, kind, key, detail)] for every failing case"""
    fails = []
    try:
        with deadline(30), silenced():
            xml, doc = write_doc(cases, how, ver)
            roots = roots_of(xml)
            if want_read and doc is None:
                doc = Reader().read_str(xml)
    except (Exception, Hang) as exc:  # pylint: disable=W0703
        if len(cases) == 1:
            where = "write"
            try:
                with silenced():
                    xml, doc = write_doc(cases, how, ver)
                    where = "parse"
                    roots_of(xml)
                    where = "read"
            except Exception as again:  # pylint: disable=W0703
                exc = again
            return [(cases[0], where, f"{type(exc).__name__}: {str(exc)[:80]}", {"error": f"{type(exc).__name__}: {exc}"})]
        half = len(cases) // 2
        return check_batch(cases[:half], how, ver, want_read) + check_batch(cases[half:], how, ver, want_read)
    objs = {}
    if doc is not None:
        for pkg in doc.packages:
            if pkg.name == "Elements":
                for elem in pkg.elements:
                    objs[elem.name] = elem
            else:
                objs[pkg.name] = pkg
    for case in cases:
        name = root_name(case)
        if name not in roots:
            fails.append((case, "write", "element not written", {}))
            continue
        got = canonical(tokens(roots[name], []))
        want = canonical(case["t"])
        delta = token_diff(want, got)
        if delta:
            fails.append((case, "xml", diff_key(want, got, delta["at"]), delta))
        if doc is not None:
            out = []
            if name not in objs:
                out.append("element not read back")
            else:
                compare(objs[name], case["n"], case["n"]["c"], out)
            if out:
                fails.append((case, "read", out[0].split(":")[0].replace("[0]", ""), {"differences": out[:5]}))
    return fails


def mark_cases(cases, texts):
    """Replaces the mark carried by every text by each of the given strings in turn"""
    out = []
    for ix, case in enumerate(cases):
        state = [ix]

        def sub(val):
            head, sep, tail = val.partition("\u241f")
            if not sep:
                return val
            word = texts[(state[0] + sum(map(ord, head))) % len(texts)]
            return word[0] + head + tail + word[1]

        def walk(node):
            return {"c": node["c"], "x": sub(node["x"]), "d": node["d"], "f": [[walk(v) for v in vals] for vals in node["f"]]}

        toks = []
        for tok in case["t"]:
            if tok.startswith("@"):
                key, val = tok.split("=", 1)
                toks.append(key + "=" + sub(val))
            else:
                toks.append(tok[0] + sub(tok[1:]))
        out.append({"c": case["c"], "k": case["k"], "n": walk(case["n"]), "t": toks})
    return out


BLANKS = [" ", "\n", "\t ", "  \n  "]


def blank_cases(cases):
    """The cases having mixed content, where the texts next to an inline element are blanks only"""
    out = []
    for case in cases:
        count = [0]

        def blank():
            count[0] += 1
            return BLANKS[(count[0] + case["k"]) % len(BLANKS)]

        toks, stack = list(case["t"]), []
        for ix, tok in enumerate(case["t"]):
            if tok.startswith("<"):
                stack.append(tok[1:])
            elif tok == "/":
                stack.pop()
            elif tok.startswith("=") and stack[-1] in MIXED and (toks[ix - 1] == "/" or toks[ix + 1].startswith("<")):
                toks[ix] = "=" + blank()
        if count[0]:
            want, count[0] = count[0], 0

            def walk(node):
                rows = []
                for field, vals in zip(FIELDS[node["c"]] if node["c"] in FIELDS else [], node["f"]):
                    row = []
                    for val in vals:
                        if field["k"] == "any" and val["c"] == "=text" and len(vals) > 1:
                            row.append(dict(val, x=blank()))
                        else:
                            row.append(walk(val))
                    rows.append(row)
                return dict(node, f=rows)

            root = walk(case["n"])
            assert count[0] == want, (case["c"], want, count[0])
            out.append({"c": case["c"], "k": case["k"], "n": root, "t": toks})
    return out


def batches(cases, size=30):
    for lo in range(0, len(cases), size):
        yield cases[lo:lo + size]


def _job(args):
    cases, how, ver, want_read = args
    return check_batch(cases, how, ver, want_read)


def load(check, name, undefined=False, **kw):
    """The cases of the specification; those using enumeration values the version does not define only on request"""
    args = dict(depth=0, pairs="TRUE", ver=51, base=3, mark="", only="")
    args.update(kw)
    res = tlc("ArxmlSchemaMC", CFG.format(**args), workers=6)
    check.add_tlc(res, name)
    cases = []
    for rec in res.records:
        if rec["k"] == 0:
            FIELDS[rec["c"]] = rec["fields"]
        elif undefined or rec["u"] == "1":
            cases.append(rec)
    cases.sort(key=lambda r: (r["c"], r["k"]))
    return cases


def run(check, cases, how, ver, kinds, want_read=True):
    """Runs the cases on the real writer and reader; reports failures of the given kinds"""
    jobs = [(part, how, ver, want_read) for part in batches(cases)]
    with ProcessPoolExecutor(max_workers=7) as pool:
        for fails in pool.map(_job, jobs, chunksize=4):
            for case, kind, key, detail in fails:
                if kind in kinds:
                    check.violation(f"{kind}:{case['c']}:{key}",
                                    {"class": case["c"], "case": case["k"], "built_by": how, "schema": ver, **detail,
                                     "element": case["n"]})
    check.validated += len(cases)
    if cases:
        mid = cases[len(cases) // 2]
        check.sample({"element": mid["n"], "xml_tokens": mid["t"][:40]})


def c01(check):
    cases = load(check, "elements", depth=check.pick(0, 1))
    run(check, cases, "ctor", 51, {"write", "parse", "read"})
    check.cov["elements"] = len(cases)
    for ver in (48, 49, 50):
        some = load(check, f"elements_{ver}", pairs="FALSE", ver=ver, base=ver)
        run(check, some, "ctor", ver, {"write", "parse", "read"})
        check.cov["elements"] += len(some)
    if not check.quick:
        for base in (1117, 5003, 7919):
            more = load(check, f"elements_{base}", depth=2, pairs="FALSE", base=base)
            run(check, more, "ctor", 51, {"write", "parse", "read"})
            check.cov["elements"] += len(more)


def c03(check):
    cases = load(check, "elements", depth=check.pick(0, 1))
    run(check, cases, "ctor", 51, {"write", "parse", "xml"}, want_read=False)
    run(check, cases, "set", 51, {"write", "parse", "xml"}, want_read=False)
    check.cov["elements"] = len(cases)
    for ver in (48, 49, 50):
        some = load(check, f"elements_{ver}", pairs="FALSE", ver=ver, base=ver)
        run(check, some, "ctor", ver, {"write", "parse", "xml"}, want_read=False)
        check.cov["elements"] += len(some)
    if not check.quick:
        for base in (1117, 5003, 7919):
            more = load(check, f"elements_{base}", depth=2, pairs="FALSE", base=base)
            run(check, more, "ctor", 51, {"write", "parse", "xml"}, want_read=False)
            run(check, more, "set", 51, {"write", "parse", "xml"}, want_read=False)
            check.cov["elements"] += len(more)


TEXTS = [("<", ""), ("", ">"), ("a&", "b"), ("", "\"quoted\""), ("'", "'"), ("", "]]>"), ("&amp;", ""), ("", "&lt;b>"),
         ("\u00e5\u00e4\u00f6 ", ""), ("", " \u65e5\u672c \U0001f600"), (" ", " "), ("\t", "\t"), ("\n", "\n"), ("a\r\n", "\r"),
         ("</SHORT-NAME>", "<!-- -->"), ("<![CDATA[", "]]>"), ("  a", "b  "), ("\u00a0", "\u2028")]


def c02(check):
    cases = load(check, "elements", pairs="FALSE", depth=check.pick(0, 1), mark="\\u241f".encode().decode("unicode_escape"))
    check.cov["texts"] = len(TEXTS)
    rounds = check.pick(3, len(TEXTS))
    for ix in range(rounds):
        part = TEXTS[ix::rounds] if check.quick else [TEXTS[ix]]
        run(check, mark_cases(cases, part), "file" if ix % 2 else "ctor", 51, {"write", "parse", "xml", "read"})
    blanks = blank_cases(cases)
    check.cov["blanks_between_inline_elements"] = len(blanks)
    run(check, blanks, "ctor", 51, {"write", "parse", "xml", "read"})


CHECKS = {"C01": c01, "C02": c02, "C03": c03}
