"""
C05 numbers: every number of spec/Numbers.tla in every number-valued attribute; what was written and read back is judged by
the specification (spec/NumbersTrace.tla)
"""
import json
import os
import tempfile
from concurrent.futures import ProcessPoolExecutor
from common import tlc, silenced, deadline, Hang
import mod_arxml
from mod_arxml import FIELDS, write_doc, roots_of, tokens, canonical, root_name
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
from autosar.xml.reader import Reader

CFG = "SPECIFICATION Spec\nINVARIANT EmitCase\nCHECK_DEADLOCK FALSE\n"
JUDGE = "SPECIFICATION Spec\nINVARIANT Judge\nCHECK_DEADLOCK FALSE\n"
# attributes documented to take float only (a whole number is converted when it is read)
FLOAT_ONLY = {("Unit", "factor"), ("Unit", "offset"), ("SwDataDefPropsConditional", "step_size"), ("TimingEvent", "offset"),
              ("TimingEvent", "period"), ("RunnableEntity", "minimum_start_interval")}
FLOAT_NAMES = {"timeout", "data_update_period", "minimum_send_interval", "alive_timeout", "e2e_call_respone_timeout"}
# whole numbers that may be negative
SIGNED = {("DataFilter", "min_val"), ("DataFilter", "max_val"), ("DataFilter", "x")}
NOTATED = {"ValueList", "SwValues", "ValueGroup"}


def slots_of(node, out):
    """(class, field, atom) of every number below a node, in the order of the ARXML"""
    for field, vals in zip(FIELDS[node["c"]], node["f"]):
        for val in vals:
            if val["c"] in ("=num", "=limit"):
                out.append((node["c"], field, val))
            elif not val["c"].startswith("="):
                slots_of(val, out)
    return out


def copy(node):
    return {"c": node["c"], "x": node["x"], "d": node["d"], "f": [[copy(v) for v in vals] for vals in node["f"]]}


def usable(cls, field, lit, kind, notation):
    """May this number be stored in this attribute?"""
    if notation and cls not in NOTATED:
        return False
    if field["k"] == "int":
        return kind == "int" and (not lit.startswith("-") or (cls, field["a"]) in SIGNED)
    if (cls, field["a"]) in FLOAT_ONLY or field["a"] in FLOAT_NAMES:
        return kind == "float" or abs(int(lit)) <= 2 ** 53
    return True


def literal(value):
    return ("inf" if value > 0 else "-inf") if value in (float("inf"), float("-inf")) else repr(value)


def near(text):
    try:
        return literal(float(text))
    except ValueError:
        return ""


def plain(val):
    if isinstance(val, ar_element.NumericalValue):
        return val.value, val.value_format.name
    return val, ""


def read_back(obj, node, out):
    """(value, notation) of every number, in the same order as slots_of"""
    for field, vals in zip(FIELDS[node["c"]], node["f"]):
        if not vals:
            continue
        got = mod_arxml.listed(getattr(obj, field["a"], None)) if obj is not None else []
        for ix, val in enumerate(vals):
            sub = got[ix] if ix < len(got) else None
            if val["c"] in ("=num", "=limit"):
                out.append(plain(sub))
            elif not val["c"].startswith("="):
                read_back(sub, val, out)
    return out


def same(got, want):
    if isinstance(got, bool) or not isinstance(got, (int, float)):
        return False
    return got == want or (got != got and want != want)


def job(args):
    """Writes and reads the cases; returns records for the specification to judge, and failures"""
    cases, ver = args
    try:
        with deadline(30), silenced():
            xml, _ = write_doc(cases, "ctor", ver)
            roots = roots_of(xml)
            doc = Reader().read_str(xml)
    except (Exception, Hang) as exc:  # pylint: disable=W0703
        if len(cases) == 1:
            return [], [(cases[0], f"{type(exc).__name__}: {exc}")]
        half = len(cases) // 2
        left, right = job((cases[:half], ver)), job((cases[half:], ver))
        return left[0] + right[0], left[1] + right[1]
    objs = {}
    for pkg in doc.packages:
        objs[pkg.name] = pkg
        for elem in pkg.elements:
            objs[elem.name] = elem
    recs, fails = [], []
    for case in cases:
        name = root_name(case)
        if name not in roots or name not in objs:
            fails.append((case, "element lost"))
            continue
        got = canonical(tokens(roots[name], []))
        want = canonical(case["t"])
        if len(want) != len(got):
            fails.append((case, "other XML"))
            continue
        texts = [g[1:] for w, g in zip(want, got) if w.startswith("#")]
        slots = slots_of(case["n"], [])
        back = read_back(objs[name], case["n"], [])
        if not len(texts) == len(slots) == len(back):
            fails.append((case, "numbers lost"))
            continue
        for (cls, field, atom), text, (val, fmt) in zip(slots, texts, back):
            stored = plain(mod_arxml.number(atom["x"], atom["d"]))[0]
            is_num = isinstance(val, (int, float)) and not isinstance(val, bool)
            recs.append((f"{cls}.{field['a']}", {
                "lit": atom["x"], "fmt": atom["d"] or "DEFAULT", "text": text, "near": near(text) or "NaN",
                "back": literal(val) if is_num else "NaN", "bfmt": fmt if fmt in ("HEXADECIMAL", "BINARY") else "",
                "same": "1" if same(val, stored) else "0"}))
    return recs, fails


def fill(cases, numbers, rounds):
    """Every case, over the given rounds, with the next usable number in every number slot"""
    cursor, out = {}, []
    for rnd in range(rounds):
        for case in cases:
            node = copy(case["n"])
            for cls, field, atom in slots_of(node, []):
                key = (cls, field["a"])
                pos = cursor.get(key, 0)
                for _ in range(len(numbers)):
                    lit, kind, fmt = numbers[pos % len(numbers)]
                    pos += 1
                    if usable(cls, field, lit, kind, fmt):
                        break
                else:
                    continue
                cursor[key] = pos
                atom["x"], atom["d"] = lit, fmt
            out.append({"c": case["c"], "k": f"{case['k']}/{rnd}", "n": node, "t": case["t"]})
    return out, cursor


def c05(check):
    res = tlc("NumbersMC", CFG, workers=4)
    check.add_tlc(res, "numbers")
    numbers = []
    for rec in sorted(res.records, key=lambda r: (r["k"], r["lit"])):
        lit = rec["lit"]
        if rec["k"] == "float":
            lit = literal(float(lit))
        numbers.append((lit, rec["k"], ""))
        for fmt in ("DECIMAL", "HEXADECIMAL", "BINARY", "SCIENTIFIC"):
            numbers.append((lit, rec["k"], fmt))
    numbers = sorted(set(numbers))
    step = 7919                                            # spreads neighbours over the slots
    numbers = [numbers[(ix * step) % len(numbers)] for ix in range(len(numbers))]
    mod_arxml.load(check, "fields", pairs="FALSE")
    only = ", ".join(f'"{c}"' for c, fields in sorted(mod_arxml.FIELDS.items())
                     if any(f["k"] in ("num", "int", "limit") or (f["k"] == "any" and f["x"] in ("ConstValue", "SwValue")) for f in fields))
    cases = mod_arxml.load(check, "elements", pairs="FALSE", only=only)
    seen, picked = {}, []
    for case in cases:
        slots = slots_of(case["n"], [])
        if slots and any(seen.get((c, f["a"]), 0) < 3 for c, f, _ in slots):
            for c, f, _ in slots:
                seen[(c, f["a"])] = seen.get((c, f["a"]), 0) + 1
            picked.append(case)
    check.cov["attributes"] = sorted(f"{c}.{a}" for c, a in seen)
    fill_cases, _ = fill(picked, numbers, check.pick(60, 600))
    jobs = [(part, 51) for part in mod_arxml.batches(fill_cases, 60)]
    records = {}
    with ProcessPoolExecutor(max_workers=7) as pool:
        for recs, fails in pool.map(job, jobs, chunksize=2):
            for case, what in fails:
                nums = [(f"{c}.{f['a']}", a["x"], a["d"]) for c, f, a in slots_of(case["n"], [])]
                check.violation(f"number:{case['c']}:{what[:60]}", {"error": what, "numbers": nums})
            for slot, rec in recs:
                records.setdefault(json.dumps(rec, sort_keys=True), []).append(slot)
                check.validated += 1
    uniq = [json.loads(r) for r in sorted(records)]
    check.cov["numbers"], check.cov["distinct_records"] = len(numbers), len(uniq)
    fd, path = tempfile.mkstemp(suffix=".json", prefix="vnum")
    try:
        with os.fdopen(fd, "w", encoding="utf-8") as fp:
            json.dump(uniq, fp)
        res = tlc("NumbersTrace", JUDGE, env={"TRACE": path}, workers=6)
    finally:
        os.unlink(path)
    check.add_tlc(res, "records")
    if res.distinct != len(uniq):
        raise RuntimeError("records missing")
    for rec in res.records:
        data = uniq[rec["tid"] - 1]
        slots = sorted(set(records[json.dumps(data, sort_keys=True)]))
        check.violation(f"number:{rec['v']}:{slots[0]}:{data['fmt']}", {**data, "attributes": slots[:5]})
    check.sample(uniq[len(uniq) // 2])


CHECKS = {"C05": c05}
