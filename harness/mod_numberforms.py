"""
C33 numbers as documents may write them: every text of spec/NumberForms.tla in every number-valued place; what the reader
makes of it is judged by the specification (spec/NumberFormsTrace.tla)
"""
import json
import os
import tempfile
from concurrent.futures import ProcessPoolExecutor
from common import tlc, silenced, deadline, Hang
import mod_arxml
import mod_numbers
import mod_xmlforms
from autosar.xml.reader import Reader

CFG = "SPECIFICATION Spec\nINVARIANTS EmitText OneMeaning\nCHECK_DEADLOCK FALSE\n"
JUDGE = "SPECIFICATION Spec\nINVARIANT Judge\nCHECK_DEADLOCK FALSE\n"
FORM = {"ns": "", "enc": "", "deep": "0", "alone": "0", "eol": ""}
# a place that also takes names, so that no text is faulty
NAMES_TOO = {("SwDataDefPropsConditional", "alignment")}

# a place for an index that may be any text: no notation but the decimal one is defined for it
INDEX = {("SwAxisCont", "sw_axis_index")}


def sort_of(cls, field):
    if field["k"] == "int":
        return "signed" if (cls, field["a"]) in mod_numbers.SIGNED else "whole"
    if (cls, field["a"]) in mod_numbers.FLOAT_ONLY or field["a"] in mod_numbers.FLOAT_NAMES:
        return "real"
    return "any"


def put(case, texts):
    """The case's tokens with other texts for its numbers ({} number of the slot: text)"""
    out, num = [], -1
    for tok in case["t"]:
        if tok.startswith("#"):
            num += 1
            tok = "#" + texts.get(num, tok[1:])
        out.append(tok)
    return out


def document(parts):
    """The text of a document with the elements and packages given as (case, tokens)"""
    toks = ["<AUTOSAR", "<AR-PACKAGES", "<AR-PACKAGE", "<SHORT-NAME", "=Elements", "/", "<ELEMENTS"]
    for case, part in parts:
        if case["n"]["c"] != "Package":
            toks += part
    toks += ["/", "/"]
    for case, part in parts:
        if case["n"]["c"] == "Package":
            toks += part
    return mod_xmlforms.render({"t": toks + ["/", "/"], "f": FORM})


def read(parts):
    """name -> what was read"""
    with deadline(60), silenced():
        doc = Reader().read_str(document(parts))
    found = {}
    for pkg in doc.packages:
        if pkg.name != "Elements":
            found[pkg.name] = pkg
        else:
            found.update({e.name: e for e in pkg.elements})
    return found


def near(text):
    try:
        return mod_numbers.literal(float(text))
    except ValueError:
        return "NaN"


def job(plan):
    """plan: list of (case, {slot: (sort, text, fault)}) for one document; returns [(place, record)], or (None, error)"""
    try:
        found = read([(case, put(case, {k: v[1] for k, v in texts.items()})) for case, texts in plan])
    except (Exception, Hang) as exc:  # pylint: disable=W0703
        if len(plan) > 1:
            half = len(plan) // 2
            return job(plan[:half]) + job(plan[half:])
        return [(None, {"error": f"{type(exc).__name__}: {exc}"[:200], "class": plan[0][0]["c"], "texts": list(plan[0][1].values())})]
    recs = []
    for case, texts in plan:
        slots = mod_numbers.slots_of(case["n"], [])
        obj = found.get(mod_arxml.root_name(case))
        back = mod_numbers.read_back(obj, case["n"], []) if obj is not None else []
        for ix, (sort, text, fault) in texts.items():
            cls, field, _ = slots[ix]
            val, fmt = back[ix] if ix < len(back) else (None, "")
            is_num = isinstance(val, (int, float)) and not isinstance(val, bool)
            recs.append((f"{cls}.{field['a']}", {
                "sort": sort, "text": text, "fault": fault, "near": near(text),
                "back": mod_numbers.literal(val) if is_num else "" if val is None else "NaN",
                "bfmt": fmt if fmt in ("HEXADECIMAL", "BINARY") else "",
                "keeps": "1" if cls in mod_numbers.NOTATED else "0"}))
    return recs


def plans(picked, texts, faults, rounds):
    """Documents: in each every case once, every number of it with the next text for its place"""
    cursor, out = {}, []
    for _ in range(rounds):
        plan = []
        for case in picked:
            mine = {}
            for ix, (cls, field, _atom) in enumerate(mod_numbers.slots_of(case["n"], [])):
                sort = sort_of(cls, field)
                key = (cls, field["a"])
                pos = cursor.get(key, 0)
                cursor[key] = pos + 1
                if key not in INDEX:
                    mine[ix] = (sort, texts[sort][pos % len(texts[sort])], "0")
            plan.append((case, mine))
        out += [plan[lo:lo + 40] for lo in range(0, len(plan), 40)]
    # faulty ones: one number at a time
    seen, todo = set(), {}
    for case in picked:
        for ix, (cls, field, _atom) in enumerate(mod_numbers.slots_of(case["n"], [])):
            key = (cls, field["a"])
            if key in seen or key in NAMES_TOO | INDEX:
                continue
            seen.add(key)
            for num, text in enumerate(faults[sort_of(cls, field)]):
                todo.setdefault(num, {}).setdefault(case["k"] + 1000 * len(case["c"]), [])
                todo[num][case["k"] + 1000 * len(case["c"])].append((case, {ix: (sort_of(cls, field), text, "1")}))
    for by_case in todo.values():
        while any(by_case.values()):
            used, plan = set(), []
            for items in by_case.values():
                if items and mod_arxml.root_name(items[0][0]) not in used:
                    used.add(mod_arxml.root_name(items[0][0]))
                    plan.append(items.pop(0))
            out.append(plan)
    return out


def c33(check):
    res = tlc("NumberFormsMC", CFG, workers=4)
    check.add_tlc(res, "texts")
    texts, faults = {}, {}
    for rec in sorted(res.records, key=lambda r: (r["sort"], r["text"])):
        (faults if rec["fault"] == "1" else texts).setdefault(rec["sort"], []).append(rec["text"])
    check.cov["texts"] = {k: len(v) for k, v in texts.items()}
    mod_arxml.load(check, "fields", pairs="FALSE")
    only = ", ".join(f'"{c}"' for c, fields in sorted(mod_arxml.FIELDS.items())
                     if any(f["k"] in ("num", "int", "limit") or (f["k"] == "any" and f["x"] in ("ConstValue", "SwValue")) for f in fields))
    cases = mod_arxml.load(check, "elements", pairs="FALSE", only=only)
    seen, picked = {}, []
    for case in cases:
        slots = mod_numbers.slots_of(case["n"], [])
        if slots and any(seen.get((c, f["a"]), 0) < 2 for c, f, _ in slots):
            for c, f, _ in slots:
                seen[(c, f["a"])] = seen.get((c, f["a"]), 0) + 1
            picked.append(case)
    check.cov["places"] = sorted(f"{c}.{a}" for c, a in seen if (c, a) not in INDEX)
    # a prime stride spreads the texts; enough rounds for every text at every place
    for sort, some in texts.items():
        texts[sort] = [some[(ix * 7919) % len(some)] for ix in range(len(some))]
    rounds = check.pick(max(len(t) for t in texts.values()) // 2 + 1, 2 * max(len(t) for t in texts.values()))
    records = {}
    with ProcessPoolExecutor(max_workers=7) as pool:
        for recs in pool.map(job, plans(picked, texts, faults, rounds), chunksize=4):
            for place, rec in recs:
                if place is None:
                    check.violation(f"document:{rec['class']}", rec)
                    continue
                records.setdefault(json.dumps(rec, sort_keys=True), []).append(place)
                check.validated += 1
    uniq = [json.loads(r) for r in sorted(records)]
    check.cov["distinct_records"] = len(uniq)
    fd, path = tempfile.mkstemp(suffix=".json", prefix="vnum")
    try:
        with os.fdopen(fd, "w", encoding="utf-8") as fp:
            json.dump(uniq, fp)
        res = tlc("NumberFormsTrace", JUDGE, env={"TRACE": path}, workers=6)
    finally:
        os.unlink(path)
    check.add_tlc(res, "records")
    for rec in res.records:
        data = uniq[rec["tid"] - 1]
        for place in sorted(set(records[json.dumps(data, sort_keys=True)])):
            check.violation(f"text:{place}:{rec['v']}", {**data, "place": place})
    check.sample(uniq[len(uniq) // 2])


CHECKS = {"C33": c33}
