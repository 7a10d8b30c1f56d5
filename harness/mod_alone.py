"""
C31 elements on their own: every element of spec/Alone.tla written and read without a document around it
"""
from concurrent.futures import ProcessPoolExecutor
import xml.etree.ElementTree as ET
from autosar.xml.reader import Reader
from autosar.xml.writer import Writer
import mod_arxml as arxml
from common import tlc, silenced

CFG = """CONSTANTS
Base = {base}
Depth = {depth}
Ver = {ver}
Mark = ""
SPECIFICATION Spec
INVARIANTS EmitCase Same
CHECK_DEADLOCK FALSE
"""
TOOLS = {}


def tools(ver):
    """One writer and one reader for all elements of a version"""
    if ver not in TOOLS:
        TOOLS[ver] = Writer(schema_version=ver), Reader(schema_version=ver)
    return TOOLS[ver]


def judge(rec, ver):
    """What is wrong with an element on its own: [(kind, detail)]"""
    writer, reader = tools(ver)
    try:
        with silenced():
            obj = arxml.value_of(rec["n"], {"x": rec["c"]})
            text = writer.write_str_elem(obj, rec["asked"]) if rec["asked"] else writer.write_str_elem(obj)
    except Exception as exc:  # pylint: disable=W0703
        return [("write " + type(exc).__name__, {"error": f"{type(exc).__name__}: {exc}"[:300]})]
    out = []
    try:
        got = arxml.canonical(arxml.tokens(ET.fromstring(text), []))
        want = arxml.canonical(rec["t"])
        diff = arxml.token_diff(want, got)
        if diff:
            out.append(("text " + arxml.diff_key(want, got, diff["at"]), {"text": text[:1000], **diff}))
    except ET.ParseError as exc:
        out.append(("not XML", {"error": str(exc), "text": text[:1000]}))
    if rec["reads"] == "no":
        return out
    try:
        with silenced():
            back = reader.read_str_elem(text, *([rec["reads"]] if rec["reads"] != "tag" else []))
        diffs = []
        if rec["n"]["c"] == "=ref":
            if (type(back), back.value, back.dest) != (type(obj), obj.value, obj.dest):
                diffs.append(f"reference: {arxml.show(back)}")
        else:
            arxml.compare(back, rec["n"], rec["c"], diffs)
        if diffs:
            out.append(("read " + diffs[0].split(":")[0], {"text": text[:1000], "differences": diffs[:5]}))
    except Exception as exc:  # pylint: disable=W0703
        out.append(("read " + type(exc).__name__, {"error": f"{type(exc).__name__}: {exc}"[:300], "text": text[:1000]}))
    return out


def _job(args):
    recs, ver = args
    return [(rec, kind, detail) for rec in recs for kind, detail in judge(rec, ver)]


def c31(check):
    runs = check.pick([(3, 0, 51), (3, 0, 49)], [(base, depth, ver) for ver in (48, 49, 50, 51) for base, depth in ((3, 0), (1117, 1), (5003, 2))])
    for base, depth, ver in runs:
        res = tlc("AloneMC", CFG.format(base=base, depth=depth, ver=ver), workers=6)
        check.add_tlc(res, f"alone_{base}_{depth}_{ver}")
        arxml.FIELDS.update({r["c"]: r["fields"] for r in res.records if r["k"] == 0})
        cases = sorted((r for r in res.records if r["k"] > 0), key=lambda r: (r["c"], r["k"]))
        with ProcessPoolExecutor(max_workers=7) as pool:
            for fails in pool.map(_job, [(part, ver) for part in arxml.batches(cases, 60)], chunksize=2):
                for rec, kind, detail in fails:
                    check.violation(f"{rec['c']}:{rec['tag']}:{kind}", {"class": rec["c"], "tag": rec["tag"], "schema": ver, **detail, "element": rec["n"]})
        check.validated += len(cases)
        mid = cases[len(cases) // 2]
        check.sample({"element": mid["n"], "tag": mid["tag"], "xml_tokens": mid["t"][:40]})
        check.cov["classes"] = len({r["c"] for r in cases})
        check.cov["places"] = len({(r["c"], r["tag"]) for r in cases})


def kept_state(rec, ver):
    """C08: what the shared writer and reader make of an element more than once, and new ones: all must be the same"""
    writer, reader = tools(ver)

    def wrote(tool, obj):
        try:
            return tool.write_str_elem(obj, rec["asked"]) if rec["asked"] else tool.write_str_elem(obj)
        except Exception as exc:  # pylint: disable=W0703
            return f"fails: {type(exc).__name__}"

    def read(tool, text):
        try:
            back = tool.read_str_elem(text, *([rec["reads"]] if rec["reads"] != "tag" else []))
        except Exception as exc:  # pylint: disable=W0703
            return f"fails: {type(exc).__name__}"
        return wrote(Writer(schema_version=ver), back)

    with silenced():
        try:
            obj = arxml.value_of(rec["n"], {"x": rec["c"]})
        except Exception:  # pylint: disable=W0703
            return []  # a matter of C28 and C31
        texts = [wrote(writer, obj), wrote(writer, obj), wrote(Writer(schema_version=ver), obj), wrote(writer, obj)]
        out = [("writes", {"texts": [t[:600] for t in texts]})] if len(set(texts)) > 1 else []
        if rec["reads"] != "no" and not texts[2].startswith("fails"):
            backs = [read(reader, texts[2]), read(reader, texts[2]), read(Reader(schema_version=ver), texts[2])]
            if len(set(backs)) > 1:
                out.append(("reads", {"text": texts[2][:600], "backs": [t[:600] for t in backs]}))
    return out


def _state_job(args):
    recs, ver = args
    return [(rec, kind, detail) for rec in recs for kind, detail in kept_state(rec, ver)]


def c08_alone(check):
    """Every element of the specification through one writer and one reader again and again"""
    for ver in check.pick([51], [48, 49, 50, 51]):
        res = tlc("AloneMC", CFG.format(base=3, depth=0, ver=ver), workers=6)
        check.add_tlc(res, f"alone {ver}")
        arxml.FIELDS.update({r["c"]: r["fields"] for r in res.records if r["k"] == 0})
        cases = sorted((r for r in res.records if r["k"] > 0), key=lambda r: (r["c"], r["k"]))
        with ProcessPoolExecutor(max_workers=7) as pool:
            for fails in pool.map(_state_job, [(part, ver) for part in arxml.batches(cases, 200)]):
                for rec, kind, detail in fails:
                    check.violation(f"{rec['c']}:{rec['tag']}:{kind} again", {"class": rec["c"], "tag": rec["tag"], "schema": ver, **detail, "element": rec["n"]})
        check.validated += len(cases)


CHECKS = {"C31": c31}
