"""
C32 what elements tell about themselves: the lives of spec/ViewsMC.tla, every answer compared, before and after a text
"""
from concurrent.futures import ProcessPoolExecutor
import mod_arxml as arxml
from autosar.xml.reader import Reader
from autosar.xml.writer import Writer
from common import tlc, silenced

CFG = """CONSTANTS
Base = {base}
Steps = {steps}
Reach = {reach}
Mark = ""
SPECIFICATION Spec
INVARIANTS EmitLife Bland
CHECK_DEADLOCK FALSE
"""


def yes(val):
    return {True: "yes", False: "no"}.get(val, f"?{val!r}")


def ask(obj, question):
    """The answer of the element"""
    if question == "empty":
        return yes(obj.is_empty)
    if question == "short name":
        return obj.short_name
    if question == "queued":
        return yes(obj.is_queued)
    if question == "composite":
        return yes(obj.is_composite)
    if question == "content":
        return obj.content_type.name
    if question == "text":
        return str(obj)
    if question == "dest":
        return obj.dest.name
    if question == "provide":
        return yes(obj.is_provide_port_ref)
    if question == "require":
        return yes(obj.is_require_port_ref)
    if question == "inner tag":
        return obj.xml_tag or "none"
    if question == "length":
        whole = list(obj)
        same = len(obj) == len(whole) and all(obj[i] is val for i, val in enumerate(whole)) and all(
            a is b for a, b in zip(whole, arxml.listed(obj.variants)))
        return str(len(whole)) if same else "?length and items disagree"
    raise AssertionError(question)


def questions(obj, node, tree, path, out):
    """Differing answers of an object and the objects in it"""
    for item in tree["q"]:
        try:
            got = ask(obj, item["q"])
        except Exception as exc:  # pylint: disable=W0703
            got = f"?{type(exc).__name__}: {exc}"[:200]
        if got != item["a"]:
            out.append((node["c"], item["q"], {"at": path, "expected": item["a"], "got": got}))
    if node["c"].startswith("="):
        return
    for field, vals, trees in zip(arxml.FIELDS[node["c"]], node["f"], tree["f"]):
        if vals and field["k"] in ("sub", "any", "ref"):
            held = arxml.listed(getattr(obj, field["a"], None))
            if len(held) != len(vals):
                out.append((node["c"], "holds", {"at": f"{path}.{field['a']}", "expected": len(vals), "got": len(held)}))
                continue
            for ix, (val, sub, sub_tree) in enumerate(zip(held, vals, trees)):
                questions(val, sub, sub_tree, f"{path}.{field['a']}[{ix}]", out)


def change(obj, field, vals):
    """Assigns an attribute, or removes its value"""
    name = field["a"]
    now = getattr(obj, name, None)
    if isinstance(now, dict):
        now.clear()
        for val in vals:
            obj.append_port_api_option(val)
    elif name in ("numerator", "denominator"):
        setattr(obj, name, tuple(vals) or None)
    elif isinstance(now, list):
        now.clear()
        now.extend(vals)
    elif not vals:
        setattr(obj, name, None)
    else:
        setattr(obj, name, arxml.shaped(field, vals))


def judge(rec):
    out = []
    fields = arxml.FIELDS[rec["c"]]
    try:
        with silenced():
            obj = arxml.build(rec["s"])
            for op in rec["ops"]:
                field = fields[op["i"] - 1]
                change(obj, field, [arxml.value_of(v, field) for v in op["v"]])
    except Exception as exc:  # pylint: disable=W0703
        return [(rec["c"], "life", {"error": f"{type(exc).__name__}: {exc}"[:300]})]
    questions(obj, rec["n"], rec["w"], rec["c"], out)
    if rec["how"] == "no" or len(rec["ops"]) > 1 or out:
        return out
    try:
        with silenced():
            text = Writer().write_str_elem(obj, *([rec["tag"]] if rec["asked"] == "yes" else []))
            back = Reader().read_str_elem(text, *([rec["how"]] if rec["how"] != "tag" else []))
    except Exception as exc:  # pylint: disable=W0703
        return [(rec["c"], "text", {"error": f"{type(exc).__name__}: {exc}"[:300]})]
    again = []
    questions(back, rec["n"], rec["w"], rec["c"], again)
    return [(cls, "read: " + q, {"text": text[:600], **detail}) for cls, q, detail in again]


def _job(recs):
    return [(rec, cls, q, detail) for rec in recs for cls, q, detail in judge(rec)]


def c32(check):
    runs = check.pick([(3, 1, 0)], [(3, 2, 1), (1117, 1, 0), (5003, 2, 0)])
    for base, steps, reach in runs:
        res = tlc("ViewsMC", CFG.format(base=base, steps=steps, reach=reach), workers=6, timeout=3000)
        check.add_tlc(res, f"lives_{base}_{steps}")
        arxml.FIELDS.update({r["c"]: r["fields"] for r in res.records if "fields" in r})
        lives = [r for r in res.records if "ops" in r]
        with ProcessPoolExecutor(max_workers=7) as pool:
            for fails in pool.map(_job, arxml.batches(lives, 100), chunksize=2):
                for rec, cls, question, detail in fails:
                    ops = [{"attribute": arxml.FIELDS[rec["c"]][op["i"] - 1]["a"], "values": op["v"]} for op in rec["ops"]]
                    check.violation(f"{cls}:{question}", {"class": cls, "question": question, **detail, "start": rec["s"], "changes": ops})
        check.validated += len(lives)
        check.sample({"life": lives[len(lives) // 2]["c"], "changes": lives[len(lives) // 2]["ops"], "answers": lives[len(lives) // 2]["w"]["q"]})
        check.cov["lives"] = check.cov.get("lives", 0) + len(lives)
        check.cov["classes"] = len({r["c"] for r in lives})


CHECKS = {"C32": c32}
