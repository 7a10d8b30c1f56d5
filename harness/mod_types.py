"""Binding of TypeModel.tla: C23 (implementation model), C24 (which types are generated, and when), C25 (their declarations)"""
import json
import os
import random
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import autosar.generator
import autosar.model.element as rte_element
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.workspace as ar_workspace
from autosar.model import ImplementationModel
from common import SEED, deadline, silenced, Hang, replay_tests, record_traces, validate_traces, tlc


def props(kind, target, further=""):
    """The properties of a type: those which count, and those of a further variant"""
    def variant(ref):
        if kind == "VALUE":
            return ar_element.SwDataDefPropsConditional(base_type_ref=ar_element.SwBaseTypeRef(ref))
        return ar_element.SwDataDefPropsConditional(impl_data_type_ref=ar_element.ImplementationDataTypeRef(ref))
    if not target:
        return None
    return ar_element.SwDataDefProps([variant(target), variant(further)]) if further else variant(target)


def element_of(e):
    return ar_element.ImplementationDataTypeElement(
        e["n"], category=e["k"] or None, sw_data_def_props=props(e["k"], e["to"], e["alt"]), array_size=int(e["size"]) if e["size"] else None,
        array_impl_policy=ar_enum.ArrayImplPolicy[e["pol"]] if e["pol"] else None,
        array_size_handling=ar_enum.ArraySizeHandling[e["hand"]] if e["hand"] else None,
        array_size_semantics=ar_enum.ArraySizeSemantics[e["sem"]] if e["sem"] else None)


def type_of(t):
    """The ARXML element of a type of the catalogue"""
    if t["k"] == "base":
        return ar_element.SwBaseType(t["n"], native_declaration=" ".join(t["native"]) or None)
    if t["k"] == "unit":
        return ar_element.Unit(t["n"])
    if t["k"] == "DATA_REFERENCE":
        target = ar_element.SwPointerTargetProps(t["tcat"] or None, props("VALUE" if t["tcat"] == "VALUE" else "TYPE_REFERENCE", t["to"], t["alt"]))
        own = ar_element.SwDataDefPropsConditional(ptr_target_props=target)
    else:
        own = props(t["k"], t["to"], t["alt"])
    return ar_element.ImplementationDataType(
        t["n"], category=t["k"] or None, sw_data_def_props=own, sub_elements=[element_of(e) for e in t["els"]], type_emitter=t["emit"] or None,
        symbol_props=ar_element.SymbolProps("symbol", t["sym"]) if t["sym"] else None)


def workspace_of(catalogue):
    """A workspace with the types of the catalogue, and those outside of packages"""
    ws = ar_workspace.Workspace()
    made = []
    for t in catalogue["types"]:
        elem = type_of(t)
        if t["r"]:
            ws.make_packages(t["r"].rsplit("/", 1)[0]).append(elem)
        made.append(elem)
    return ws, made


def opt(name, val):
    return "" if val is None or val == "" else f" {name}={getattr(val, 'name', val)}"


def target_of(data_type):
    """kind>reference of what an element of an array or record holds"""
    if type(data_type) is rte_element.ScalarType:
        return f"VALUE>{data_type.base_type.ref}"
    if type(data_type) is rte_element.RefType:
        return f"TYPE_REFERENCE>{data_type.impl_type.ref}"
    return "dim>" if data_type is None else f"?{type(data_type).__name__}"


def parts_of(obj):
    """The types a type is made of"""
    if isinstance(obj, rte_element.ScalarType):
        return [obj.base_type]
    if isinstance(obj, rte_element.RefType):
        return [obj.impl_type]
    if isinstance(obj, rte_element.PointerType):
        return [obj.target_type]
    if isinstance(obj, (rte_element.ArrayType, rte_element.RecordType)):
        out = []
        for sub in obj.sub_elements:
            if sub.data_type is not None:
                out += parts_of(sub.data_type)
        return out
    return []


KINDS = {rte_element.BaseType: "base", rte_element.ScalarType: "VALUE", rte_element.RefType: "TYPE_REFERENCE", rte_element.ArrayType: "ARRAY",
         rte_element.RecordType: "STRUCTURE", rte_element.PointerType: "DATA_REFERENCE"}


def shape(obj):
    kind = KINDS.get(type(obj), f"?{type(obj).__name__}")
    head = f"{obj.ref} {kind} {obj.name}"
    if kind == "base":
        return head + opt("native", obj.native_declaration)
    own = f" {obj.symbol_name}" + opt("emit", obj.type_emitter)
    if kind in ("ARRAY", "STRUCTURE"):
        subs = []
        for sub in obj.sub_elements:
            text = f"{sub.name} {target_of(sub.data_type)}"
            if sub.ref != f"{obj.ref}/{sub.name}":
                text += f" ?{sub.ref}"
            if kind == "ARRAY":
                text += opt("size", sub.array_size) + opt("pol", sub.impl_policy) + opt("hand", sub.size_handling) + opt("sem", sub.size_semantics)
            subs.append(text)
        return head + own + " [" + "; ".join(subs) + "]"
    return head + own + " >" + parts_of(obj)[0].ref


class TypesAdapter:
    """Requests types from an implementation model"""

    def __init__(self, cfg):
        self.types = cfg["types"]
        self.ws, self.elements = workspace_of(cfg)
        self.model = ImplementationModel(self.ws)
        self.got = {}

    def do(self, op):
        if op["how"] == "index":
            elem, ref = self.elements[op["i"] - 1], self.types[op["i"] - 1]["r"]
            made = self.model.create_from_element(elem) if op["src"] else self.model.create_from_element(elem, False)
        else:
            ref = op["r"]
            elem = ar_element.ImplementationDataTypeRef(ref)
            made = self.model.create_from_ref(elem) if op["src"] else self.model.create_from_ref(elem, False)
        if made is None or made.ref != ref:
            return f"got {getattr(made, 'ref', made)}"
        if self.got.setdefault(ref, made) is not made:
            return "another object than before"
        return "ok"

    def proj(self):
        seen, todo = {}, list(self.got.values())
        lines = []
        while todo:
            obj = todo.pop()
            if obj.ref in seen:
                if seen[obj.ref] is not obj:
                    lines.append(f"?two objects for {obj.ref}")
                continue
            seen[obj.ref] = obj
            if self.model.data_types.get(obj.ref) is not obj:
                lines.append(f"?not in data_types: {obj.ref}")
            todo += parts_of(obj)
        known = [t["r"] for t in self.types if t["r"]]
        lines += [f"?{r}" for r in seen if r not in known]
        return lines + [shape(seen[r]) for r in known if r in seen]


TOKEN = re.compile(r"[A-Za-z_]\w*|\d+|[^\s\w]")


def declarations(text):
    """The declarations of a C text, each as its tokens with single spaces"""
    out, cur, depth = [], [], 0
    for tok in TOKEN.findall(text):
        if tok == ";" and depth == 0:
            out.append(" ".join(cur))
            cur = []
            continue
        depth += {"{": 1, "}": -1}.get(tok, 0)
        cur.append(tok)
    if cur:
        out.append("unfinished: " + " ".join(cur))
    return out


def defined(decls):
    """The names the typedefs define"""
    return [re.sub(r"( \[ \d+ \])+$", "", d).split(" ")[-1] for d in decls if d.startswith("typedef ")]


def generate(catalogue, ops, header=None):
    """What is generated after the requests: [order, text]"""
    adapter = TypesAdapter(catalogue)
    for op in ops:
        try:
            adapter.do(op)
        except Exception:  # pylint: disable=W0703
            pass
        if header == "often":
            autosar.generator.TypeGenerator(adapter.model).write_type_defs_str()
    gen = autosar.generator.TypeGenerator(adapter.model)
    return [d.ref for d in gen.gen_data_type_creation_order()], gen.write_type_defs_str(), gen


def record(catalogue, ops, src, rng):
    """A generation, for the specification to judge"""
    rec = {"c": catalogue, "src": sorted(src), "order": [], "names": [], "same": True, "decls": [], "inc": [], "cxx": [], "accepted": True}
    try:
        with deadline(10), silenced():
            order, text, gen = generate(catalogue, ops)
            rec["order"] = order
            rec["decls"] = declarations(text)
            rec["names"] = defined(rec["decls"])
            header = gen.write_type_header_str()
            with tempfile.TemporaryDirectory(prefix="vtypes") as work:
                gen.write_type_header(work)
                with open(os.path.join(work, "Rte_Type.h"), "r", encoding="utf-8") as fp:
                    rec["same"] = fp.read() == header and os.listdir(work) == ["Rte_Type.h"]
            others = [list(reversed(ops)), rng.sample(ops, len(ops)), ops + ops[:1]]
            for ix, other in enumerate(others):
                _, again, gen2 = generate(catalogue, other, "often" if ix == 1 else None)
                rec["same"] = rec["same"] and again == text and gen2.write_type_header_str() == header and gen.write_type_defs_str() == text
    except (Exception, Hang) as exc:  # pylint: disable=W0703
        rec["order"] = [f"?{type(exc).__name__}: {exc}"]
        return rec, ""
    return rec, header


def compile_headers(recs, headers):
    """What a C and a C++ compiler make of the headers, included twice; fills inc, cxx and accepted"""
    def batch(lo):
        part = list(range(lo, min(lo + 40, len(recs))))
        with tempfile.TemporaryDirectory(prefix="vtypes") as work:
            for ix in part:
                os.mkdir(os.path.join(work, f"h{ix}"))
                with open(os.path.join(work, f"h{ix}", "Rte_Type.h"), "w", encoding="utf-8") as fp:
                    fp.write(headers[ix])
                stubs = {t["sym"] or t["n"] for t in recs[ix]["c"]["types"] if t["k"] != "unit"} - set(recs[ix]["names"])
                with open(os.path.join(work, f"h{ix}", "Rte.h"), "w", encoding="utf-8") as fp:
                    fp.write("#ifndef RTE_H_\n#define RTE_H_\n" + "".join(f"typedef unsigned char {s};\n" for s in sorted(stubs)) + "#endif\n")
                with open(os.path.join(work, f"m{ix}.c"), "w", encoding="utf-8") as fp:
                    fp.write(f'#include "h{ix}/Rte_Type.h"\n#include "h{ix}/Rte_Type.h"\nint last_line;\n')
                with open(os.path.join(work, f"e{ix}.c"), "w", encoding="utf-8") as fp:
                    fp.write(f'#include "h{ix}/Rte.h"\nint marker_{ix}_begin;\n#include "h{ix}/Rte_Type.h"\nint marker_{ix}_end;\n')
            for lang, std in (("c", "c11"), ("c++", "c++17")):
                opts = ["-x", lang, f"-std={std}", "-pedantic-errors", "-Wall", "-Werror"]
                done = subprocess.run(["gcc", *opts, "-fsyntax-only"] + [f"m{ix}.c" for ix in part], cwd=work, capture_output=True, text=True, check=False)
                if done.returncode:
                    for ix in part:
                        one = subprocess.run(["gcc", *opts, "-fsyntax-only", f"m{ix}.c"], cwd=work, capture_output=True, text=True, check=False)
                        if one.returncode:
                            recs[ix]["accepted"] = False
                            recs[ix]["said"] = one.stderr[-400:]
                shown = subprocess.run(["gcc", *opts, "-E", "-P"] + [f"e{ix}.c" for ix in part], cwd=work, capture_output=True, text=True, check=False).stdout
                for ix in part:
                    m = re.search(rf"int marker_{ix}_begin;(.*)int marker_{ix}_end;", shown, re.S)
                    text = m.group(1) if m else "?"
                    if lang == "c++":
                        m = re.fullmatch(r'\s*extern\s*"C"\s*\{(.*)\}\s*', text, re.S)
                        text = m.group(1) if m else "?" + text
                    recs[ix]["inc" if lang == "c" else "cxx"] = declarations(text)
    with ThreadPoolExecutor(6) as pool:
        list(pool.map(batch, range(0, len(recs), 40)))


def judge(check, what, recs, histories):
    for lo in range(0, len(recs), 4000):
        part = recs[lo:lo + 4000]
        fd, path = tempfile.mkstemp(suffix=".json", prefix="vtypes")
        try:
            with os.fdopen(fd, "w", encoding="utf-8") as fp:
                json.dump(part, fp)
            res = tlc("TypeTextTrace", f'SPECIFICATION Spec\nINVARIANT Judge\nCHECK_DEADLOCK FALSE\nCONSTANT What = "{what}"\n', env={"TRACE": path})
        finally:
            os.unlink(path)
        check.add_tlc(res, "TypeTextTrace")
        for out in res.records:
            rec = part[out["tid"] - 1]
            check.violation(f"generated:{out['v']}", {"requests": histories[lo + out["tid"] - 1], "types": rec["c"]["types"], "want": out["want"],
                                                      "got": {k: rec[k] for k in ("order", "names", "decls", "inc", "cxx", "same", "accepted")},
                                                      "compiler": rec.get("said", "")})
    check.validated += len(recs)
    check.cov["judged_generations"] = check.cov.get("judged_generations", 0) + len(recs)
    if recs:
        check.sample({"decls": recs[len(recs) // 2]["decls"]})


MC_CFG = """SPECIFICATION Spec
VIEW SeenAs
CHECK_DEADLOCK FALSE
CONSTANTS Part_ = "%s" Depth = %d
INVARIANTS Whole Orderly
PROPERTY OnlyMore
"""
TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS TInit <- TInit1 TStep <- MStep TProj <- MProj
"""
NATIVES = [[], [], ["unsigned", "char"], ["signed", "short"], ["float"], ["unsigned", "long", "long"]]
EMITTERS = ["", "", "", "", "RTE", "rte", "Platform", "BSW_Types"]


def gen_catalogue(rng, bad):
    """Types on top of one another, with names in no particular order"""
    count = rng.randrange(2, 11)
    names = rng.sample(["Alpha_T", "beta", "Gamma", "delta_t", "Eps", "Zeta", "eta", "Theta", "Iota_T", "kappa", "T1", "T2", "T10", "t1", "T_1"], count)
    types = []

    def blank(pkg, name, kind):
        return {"r": f"{pkg}/{name}", "n": name, "k": kind, "to": "", "tcat": "", "native": [], "sym": "", "emit": "", "alt": "", "els": []}
    bases = []
    for ix in range(rng.randrange(1, 4)):
        base = blank("/Base", f"base{ix}", "base")
        base["native"] = rng.choice(NATIVES)
        types.append(base)
        bases.append(base["r"])
    impls = []

    def pick_target():
        kind = rng.choice(["VALUE", "TYPE_REFERENCE", "TYPE_REFERENCE"]) if impls else "VALUE"
        return kind, rng.choice(bases) if kind == "VALUE" else rng.choice(impls[-4:])

    def variant(kind):
        if rng.random() < 0.85:
            return ""
        return rng.choice(bases + ["/Base/nowhere"]) if kind == "VALUE" else rng.choice(impls + ["/Impl/nowhere"])

    def element(name, array):
        kind, target = pick_target()
        return {"n": name, "k": kind, "to": target, "size": str(rng.choice([1, 2, 3, 16, 255])) if array else "",
                "pol": rng.choice(["", "", "PAYLOAD_AS_ARRAY", "PAYLOAD_AS_POINTER_TO_ARRAY"]) if array else "",
                "hand": rng.choice(["", "", "ALL_INDICES_SAME_ARRAY_SIZE", "ALL_INDICES_DIFFERENT_ARRAY_SIZE"]) if array else "",
                "sem": rng.choice(["", "", "FIXED_SIZE", "VARIABLE_SIZE"]) if array else "", "alt": variant(kind)}
    for ix, name in enumerate(names):
        kind = rng.choice(["VALUE", "TYPE_REFERENCE", "ARRAY", "STRUCTURE", "STRUCTURE", "DATA_REFERENCE"])
        if kind == "TYPE_REFERENCE" and not impls:
            kind = "VALUE"
        made = blank(rng.choice(["/Impl", "/Impl/Sub", "/Also"]), name, kind)
        made["emit"] = rng.choice(EMITTERS)
        made["sym"] = f"sym_{name}" if rng.random() < 0.2 else ""
        if ix and rng.random() < 0.15:  # the short name of another type, told apart by the symbol
            made["n"], made["sym"] = rng.choice(names[:ix]), f"sym_{name}"
            made["r"] = f"/Other{ix}/{made['n']}"
        if kind == "VALUE":
            made["to"] = rng.choice(bases)
        elif kind == "TYPE_REFERENCE":
            made["to"] = rng.choice(impls)
        elif kind == "DATA_REFERENCE":
            made["tcat"], made["to"] = pick_target()
        elif kind == "ARRAY":
            made["els"] = [element(f"d{j}", True) for j in range(rng.choice([1, 1, 2, 3]))]
        else:
            made["els"] = [element(f"m{j}", False) for j in range(rng.randrange(1, 6))]
        if kind in ("VALUE", "TYPE_REFERENCE", "DATA_REFERENCE"):
            made["alt"] = variant(made["tcat"] or kind)
        if rng.random() < bad:
            spoil(made, rng)
        types.append(made)
        impls.append(made["r"])
    if bad:
        types.append(dict(blank("", "adrift", "VALUE"), r="", to=bases[0]))
        types.append(dict(blank("", "afloat", "base"), r=""))
    return {"types": types}


def spoil(made, rng):
    """Makes a type one that cannot be created"""
    pick = rng.randrange(4)
    if pick == 0:
        made["k"] = rng.choice(["UNION", ""])
        made["els"], made["to"] = [], ""
    elif pick == 1 and made["els"]:
        made["els"][-1]["to"] = rng.choice(["/Impl/nowhere", ""])
    elif pick == 2 and made["els"]:
        made["els"][-1]["k"] = rng.choice(["UNION", "ARRAY", "STRUCTURE"])
        made["els"][-1]["to"] = ""
    elif made["k"] == "ARRAY":
        made["els"][0]["size"] = ""
    elif made["k"] in ("VALUE", "TYPE_REFERENCE", "DATA_REFERENCE"):
        made["to"] = rng.choice(["/Impl/nowhere", "", made["r"] if made["k"] == "TYPE_REFERENCE" else ""])


def gen_ops(catalogue, rng, count):
    ops = []
    for _ in range(count):
        ix = rng.randrange(len(catalogue["types"])) + 1
        ref = catalogue["types"][ix - 1]["r"]
        src = rng.random() < 0.75
        if ref and rng.random() < 0.4:
            if rng.random() < 0.05:
                ref = rng.choice([ref + "x", "/Impl/nowhere", "/Nope/x"])
            ops.append({"op": "request", "how": "ref", "i": 0, "r": ref, "src": src})
        else:
            ops.append({"op": "request", "how": "index", "i": ix, "r": "", "src": src})
    return ops


def check_model(check):
    for part, depth in (("requests", check.pick(2, 3)), ("graphs", check.pick(2, 3))):
        res = tlc("TypeModelMC", MC_CFG % (part, depth))
        check.add_tlc(res, f"types-{part}")
        replay_tests(check, TypesAdapter, res.records)
    rng = random.Random(SEED)
    plan = []
    for _ in range(check.pick(1500, 20000)):
        cfg = gen_catalogue(rng, rng.choice([0, 0.1, 0.3]))
        ops = gen_ops(cfg, rng, rng.randrange(2, 14))
        plan.append((cfg, lambda _adapter, ops=ops: ops))
    validate_traces(check, "TypeModelTrace", TRACE_CFG, record_traces(TypesAdapter, plan), "TypeModelTrace")


def generations(check, numbers):
    """Recorded generations: of every request sequence of the specification, and of random ones"""
    rng = random.Random(SEED)
    recs, headers, histories = [], [], []
    for part, depth, often in (("requests", 2, 1), ("graphs", check.pick(2, 3), numbers[0])):
        res = tlc("TypeModelMC", MC_CFG % (part, depth))
        check.add_tlc(res, f"types-{part}")
        for ix, out in enumerate(res.records):
            if len(out["h"]) < 2 or (ix + SEED) % often:
                continue
            rec, header = record(out["c"], out["h"], out["src"], rng)
            recs.append(rec)
            headers.append(header)
            histories.append(out["h"])
    for _ in range(numbers[1]):
        cfg = gen_catalogue(rng, rng.choice([0, 0, 0.15]))
        ops = gen_ops(cfg, rng, rng.randrange(1, 9))
        src = {op["r"] or cfg["types"][op["i"] - 1]["r"] for op in ops if op["src"]} - {""}
        rec, header = record(cfg, ops, src, rng)
        recs.append(rec)
        headers.append(header)
        histories.append(ops)
    return recs, headers, histories


def check_order(check):
    recs, _headers, histories = generations(check, check.pick((3, 1500), (1, 20000)))
    judge(check, "order", recs, histories)


def check_text(check):
    recs, headers, histories = generations(check, check.pick((9, 800), (2, 8000)))
    compile_headers(recs, headers)
    judge(check, "text", recs, histories)


CHECKS = {"C23": check_model, "C24": check_order, "C25": check_text}
