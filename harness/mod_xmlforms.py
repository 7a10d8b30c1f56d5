"""
C29 the many ways of writing the same document: elements and the texts that say the same, enumerated by spec/XmlForms.tla
"""
import contextlib
import io
import os
import tempfile
from concurrent.futures import ProcessPoolExecutor
from xml.sax.saxutils import escape
from common import tlc, deadline, Hang
import mod_arxml as arxml
from autosar.xml.reader import Reader

CFG = """CONSTANTS
Depth = {depth}
Base = {base}
Mark = "{mark}"
AllWays = {ways}
Only = {{{only}}}
SPECIFICATION Spec
INVARIANT SaysTheSame
CHECK_DEADLOCK FALSE
"""
MARK = "\u00e9<&\u65e5"
NS = "http://autosar.org/schema/r4.0"
ROOT_ATTRS = ('xmlns{colon}="{ns}" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" '
              'xsi:schemaLocation="{ns} AUTOSAR_00051.xsd"')


def attribute(item):
    name, val = item[1:].split("=", 1)
    if item[0] == "@":
        return f' {name}="' + escape(val, {'"': "&quot;", "\n": "&#10;"}) + '"'
    return f" {name} = '" + escape(val, {"'": "&apos;", "\n": "&#10;"}) + "'"


def text(item, enc):
    if item[0] == "[":
        data = item[2:]
        try:
            data.encode(enc or "utf-8")
            return "<![CDATA[" + data.replace("]]>", "]]]]><![CDATA[>") + "]]>"
        except UnicodeEncodeError:  # a character outside the encoding can only be a character reference
            return escape(data)
    if item[0] == "&":
        return "".join(f"&#{ord(ch)};" if ix % 2 else f"&#x{ord(ch):x};" for ix, ch in enumerate(item[2:]))
    return escape(item[1:])


def render(rec):
    """The document text of lexical items"""
    form = rec["f"]
    prefix = form["ns"] + ":" if form["ns"] else ""
    enc = form["enc"]
    out, stack, is_open = [], [], False

    def close():
        nonlocal is_open
        if is_open:
            out.append(">")
        is_open = False

    for item in rec["t"]:
        kind = item[0]
        if kind == "~":
            continue
        if kind in "@'":
            out.append(attribute(item))
            continue
        if item == "/.":
            out.append("/>")
            is_open = False
            stack.pop()
            continue
        close()
        if kind == "<":
            out.append("<" + prefix + item[1:])
            if not stack:
                out.append(" " + ROOT_ATTRS.format(colon=":" + form["ns"] if form["ns"] else "", ns=NS))
            stack.append(item[1:])
            is_open = True
        elif kind == "/":
            out.append(f"</{prefix}{stack.pop()}>")
        elif kind == "_":
            out.append("\n" + "\t  " * len(stack))
        elif kind == "!":
            out.append("<!--" + item[1:] + "-->")
        elif kind == "?":
            out.append("<?" + item[1:] + "?>")
        elif kind == "+":
            out.append(item[1:])
        else:
            out.append(text(item, enc))
    body = "".join(out)
    if form["deep"] == "1":
        body = "<!-- <AUTOSAR> -->\n<?tool v1?>\n" + body + "\n<!-- end -->\n"
    if enc:
        alone = ' standalone="no"' if form["alone"] == "1" else ""
        body = f'<?xml version="1.0" encoding="{enc.replace("-sig", "")}"{alone}?>\n' + body
    if form["eol"] == "crlf":
        body = body.replace("\n", "\r\n")
    return body


def read(rec, work):
    body = render(rec)
    if rec["f"]["via"] == "str":
        return Reader().read_str(body)
    path = os.path.join(work, "doc.arxml")
    with open(path, "wb") as handle:
        handle.write(body.encode(rec["f"]["enc"] or "utf-8", errors="xmlcharrefreplace"))
    return Reader().read_file(path)


def judge(rec, work):
    """None, or (kind, detail) of what is wrong"""
    heard = io.StringIO()
    try:
        with deadline(30), contextlib.redirect_stdout(heard), contextlib.redirect_stderr(heard):
            doc = read(rec, work)
    except (Exception, Hang) as exc:  # pylint: disable=W0703
        return f"{type(exc).__name__}", {"error": f"{type(exc).__name__}: {exc}"[:300]}
    name = arxml.root_name(rec)
    found = list(doc.packages) if rec["n"]["c"] == "Package" else [e for p in doc.packages for e in p.elements]
    obj = [e for e in found if e.name == name]
    if len(found) != 1 or not obj:
        return "not read", {"found": [str(e.name) for e in found][:5], "reports": heard.getvalue()[:300]}
    out = []
    arxml.compare(obj[0], rec["n"], rec["n"]["c"], out)
    if out:
        return out[0].split(":")[0].replace("[0]", ""), {"differences": out[:5]}
    if heard.getvalue().strip():
        return "reports", {"reports": heard.getvalue()[:300]}
    return None


def _job(recs):
    fails = []
    with tempfile.TemporaryDirectory() as work:
        for rec in recs:
            bad = judge(rec, work)
            if bad:
                fails.append((rec, *bad))
    return fails


def c29(check):
    total = {}
    for base, depth in ((3, 0),) if check.quick else ((3, 1), (1117, 0), (5003, 0)):
        res = tlc("XmlFormsMC", CFG.format(depth=depth, base=base, mark=MARK, ways="FALSE" if check.quick else "TRUE", only=""),
                  workers=6)
        check.add_tlc(res, f"ways_{base}")
        cases = []
        for rec in res.records:
            if rec["k"] == 0:
                arxml.FIELDS[rec["c"]] = rec["fields"]
            else:
                cases.append(rec)
        cases.sort(key=lambda r: (r["c"], r["k"], r["w"]))
        parts = [cases[lo:lo + 40] for lo in range(0, len(cases), 40)]
        with ProcessPoolExecutor(max_workers=7) as pool:
            for fails in pool.map(_job, parts, chunksize=2):
                for rec, key, detail in fails:
                    ways = "+".join(sorted(rec["w"])) or "plain"
                    check.violation(f"{rec['c']}:{key}", {"class": rec["c"], "case": rec["k"], "ways": ways, "document": rec["f"],
                                                          **detail, "text": render(rec)[:2000], "element": rec["n"]})
        for rec in cases:
            for way in rec["w"] or ["plain"]:
                total[way] = total.get(way, 0) + 1
        check.validated += len(cases)
        mid = cases[len(cases) // 2]
        check.sample({"ways": mid["w"], "document": mid["f"], "items": mid["t"][:60]})
    check.cov["documents_by_way"] = total


CHECKS = {"C29": c29}
