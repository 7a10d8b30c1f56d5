"""Binding of Limits.tla: C22 (data constraints, what they accept, and computation tables)"""
import random
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
from autosar.xml.document import Document
from autosar.xml.reader import Reader
from autosar.xml.writer import Writer
from common import SEED, replay_queries, replay_tests, record_traces, validate_traces, tlc

LINE = ["-inf", "-1e+30", "-2", "-1", "-0.5", "0", "0.25", "0.5", "1", "2", "3", "7", "254.5", "255", "256", "65535", "4294967295",
        "18446744073709551615", "18446744073709551616", "1e+30", "inf"]


def number(text):
    if text == "":
        return None
    return float(text) if any(c in text for c in ".en") else int(text)


def literal(val):
    """The number as the specification writes it; a whole float is the whole number"""
    if val is None:
        return ""
    if isinstance(val, bool) or not isinstance(val, (int, float)):
        return f"?{val!r}"
    if isinstance(val, float) and abs(val) < 1e15 and val == int(val):
        return str(int(val))
    return repr(val)


def kind_of(name):
    return ar_enum.IntervalType[name]


def limits(obj):
    def one(val, kind):
        if val is None:
            return "-"
        return literal(val) + {ar_enum.IntervalType.OPEN: "!", ar_enum.IntervalType.CLOSED: ""}.get(kind, f"?{kind}")
    return one(obj.lower_limit, obj.lower_limit_type) + ".." + one(obj.upper_limit, obj.upper_limit_type)


def name_of(val):
    return "" if val is None else getattr(val, "name", f"?{val!r}")


def con_shape(con):
    scales = ",".join(f"{limits(s)}{{{s.label or ''},{name_of(s.validity)}}}" for s in con.scale_constrs)
    unit = getattr(con, "unit_ref", None)
    return (f"{limits(con)} g={literal(con.max_gradient)} d={literal(con.max_diff)} m={name_of(con.monotony)} "
            f"u={'' if unit is None else str(unit)} s=[{scales}]")


def rule_shape(rule):
    one = "" if rule.internal is None else ("internal " if type(rule.internal) is ar_element.InternalConstraint else "?") + con_shape(rule.internal)
    two = "" if rule.physical is None else ("physical " if type(rule.physical) is ar_element.PhysicalConstraint else "?") + con_shape(rule.physical)
    return f"{one}/{two}/{literal(rule.level)}"


def const_shape(const):
    if const is None:
        return "-"
    val = const.value
    return f"'{val}'" if isinstance(val, str) else literal(val)


def row_shape(scale):
    if isinstance(scale.content, ar_element.CompuConst):
        text = const_shape(scale.content)
    elif isinstance(scale.content, ar_element.CompuRational):
        top, below = scale.content.numerator, scale.content.denominator
        text = "(" + ",".join(literal(x) for x in top) + ")/" + ",".join(literal(x) for x in below)
    else:
        text = f"?{scale.content!r}"
    extra = "".join(f" ?{n}" for n in ("symbol", "desc", "mask", "inverse_value") if getattr(scale, n) is not None)
    return f"{limits(scale)}={text}<{scale.label or ''}>{extra}"


def shape(obj):
    if isinstance(obj, ar_element.DataConstraint):
        return "constraint " + "; ".join(rule_shape(r) for r in obj.rules)
    return "computation [" + ",".join(row_shape(s) for s in obj.compu_scales or []) + "] default=" + const_shape(obj.default_value)


def scale_of(s):
    return ar_element.ScaleConstraint(s["label"] or None, None, number(s["lo"]), number(s["hi"]),
                                      ar_enum.ScaleConstraintValidity[s["validity"]] if s["validity"] else None, kind_of(s["lot"]), kind_of(s["hit"]))


def con_args(c, side):
    args = {"lower_limit": number(c["lo"]), "upper_limit": number(c["hi"]), "max_gradient": number(c["grad"]), "max_diff": number(c["diff"]),
            "monotony": ar_enum.Monotony[c["mono"]] if c["mono"] else None, "lower_limit_type": kind_of(c["lot"]),
            "upper_limit_type": kind_of(c["hit"]), "scale_constr": [scale_of(s) for s in c["scales"]] or None}
    if side == "phys":
        args["unit_ref"] = ar_element.UnitRef(c["unit"]) if c["unit"] else None
    return args


def constraint_of(c, side):
    return {"int": ar_element.InternalConstraint, "phys": ar_element.PhysicalConstraint}[side](**con_args(c, side))


def value_of(val):
    if val["t"] == "none":
        return None
    if val["t"] == "text":
        return val["v"]
    if val["t"] == "bad":
        return {"A": 1}
    return ar_element.CompuConst(number(val["v"])) if val["t"] == "const" else number(val["v"])


def item_of(item):
    kind = item["t"]
    if kind == "text":
        return item["v"]
    if kind == "two":
        return (number(item["lo"]), value_of(item["val"]))
    if kind == "three":
        return (number(item["lo"]), number(item["hi"]), value_of(item["val"]))
    return {"one": ("a",), "four": (1, 2, "a", "b"), "list": [1, "a"], "num": 5, "none": None}[kind]


class LimitsAdapter:
    """Makes constraints and computations and asks them"""

    def __init__(self, _cfg):
        self.objs = []

    def _target(self, op):
        rule = self.objs[op["i"] - 1].rules[op["r"] - 1]
        con = rule.internal if op["side"] == "int" else rule.physical
        return con.scale_constrs[op["s"] - 1] if op["s"] else con

    def do(self, op):
        kind = op["op"]
        if kind == "one":
            side = op["side"]
            if op["route"] == "make":
                make = ar_element.DataConstraint.make_internal if side == "int" else ar_element.DataConstraint.make_physical
                self.objs.append(make("n", **con_args(op["c"], side)))
            else:
                con = constraint_of(op["c"], side)
                rule = ar_element.DataConstraintRule(con) if side == "int" else ar_element.DataConstraintRule(physical=con)
                self.objs.append(ar_element.DataConstraint("n", [rule]))
        elif kind == "con":
            rules = []
            for rule in op["rules"]:
                rules.append(ar_element.DataConstraintRule(constraint_of(rule["int"][0], "int") if rule["int"] else None,
                                                           constraint_of(rule["phys"][0], "phys") if rule["phys"] else None, number(rule["level"])))
            self.objs.append(ar_element.DataConstraint("n", rules))
        elif kind == "table":
            items = [item_of(x) for x in op["items"]]
            given = list(items)
            args = {} if op["auto"] else {"auto_label": False}
            self.objs.append(ar_element.Computation.make_value_table(items, value_of(op["default"]), **args))
            if items != given:
                return "the list given was changed"
        elif kind == "rational":
            self.objs.append(ar_element.Computation.make_rational(
                number(op["f"]), number(op["o"]), number(op["lo"]), number(op["hi"]), value_of(op["default"]),
                lower_limit_type=kind_of(op["lot"]), upper_limit_type=kind_of(op["hit"])))
        elif kind == "check":
            got = self._target(op).check_value(number(op["x"]))
            return {True: "inside", False: "outside"}.get(got, f"?{got!r}")
        elif kind == "limit":
            target, name = self._target(op), {"lo": "lower_limit", "hi": "upper_limit"}[op["end"]]
            setattr(target, name, number(op["x"]))
            setattr(target, name + "_type", kind_of(op["t"]))
        else:
            return self._save()
        return "ok"

    def _save(self):
        package = ar_element.Package("K")
        for ix, obj in enumerate(self.objs):
            if isinstance(obj, ar_element.DataConstraint):
                package.append(ar_element.DataConstraint(f"k{ix}", obj.rules))
            else:
                package.append(ar_element.CompuMethod(f"k{ix}", obj))
        document = Document()
        document.append(package)
        back = Reader().read_str(Writer().write_str(document)).packages[0].elements
        if len(back) != len(self.objs):
            return "lost"
        self.objs = [e.int_to_phys if isinstance(e, ar_element.CompuMethod) else e for e in back]
        return "ok"

    def proj(self):
        return [shape(o) for o in self.objs]


MC_CFG = """SPECIFICATION Spec
VIEW SeenAs
CHECK_DEADLOCK FALSE
CONSTANTS Part = "%s" Depth = %d
INVARIANTS %s
"""
TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS TInit <- NInit TStep <- NStep TProj <- NProj
"""
KINDS = ["CLOSED", "CLOSED", "OPEN"]
MONOTONY = ["", "", "DECREASING", "INCREASING", "MONOTONOUS", "NO_MONOTONY", "STRICTLY_DECREASING", "STRICTLY_INCREASING", "STRICT_MONOTONOUS"]
WORDS = ["off", "on", "Off", "error", "rest", "7", "a b"]


def gen_pair(rng, absent=0.15):
    return {"lo": "" if rng.random() < absent else rng.choice(LINE), "hi": "" if rng.random() < absent else rng.choice(LINE),
            "lot": rng.choice(KINDS), "hit": rng.choice(KINDS)}


def gen_con(rng, side):
    scales = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        scales.append({**gen_pair(rng), "label": rng.choice(["", "low", "high"]), "validity": rng.choice(["", "VALID", "NOT_VALID", "NOT_AVAILABLE", "NOT_DEFINED"])})
        if scales[-1]["lo"] == scales[-1]["hi"] == "":
            scales[-1]["lo"] = "1"
    con = {**gen_pair(rng), "scales": scales, "grad": rng.choice(["", "", "0", "0.5", "7"]), "diff": rng.choice(["", "", "0", "1", "255"]),
           "mono": rng.choice(MONOTONY), "unit": rng.choice(["", "/U/km", "/U/m"]) if side == "phys" else ""}
    if con["lo"] == con["hi"] == "":
        con["hi"] = "255"
    return con


def gen_value(rng, bad=False):
    return rng.choice([{"t": "none", "v": ""}, {"t": "none", "v": ""}, {"t": "num", "v": rng.choice(["0", "1", "-2", "0.5", "255"])}, {"t": "text", "v": rng.choice(WORDS)},
                       {"t": "const", "v": rng.choice(["0", "3"])}] + ([{"t": "bad", "v": ""}] if bad else []))


def gen_item(rng, bad):
    item = {"t": "text", "v": "", "lo": "", "hi": "", "val": {"t": "none", "v": ""}}
    if rng.random() < bad:
        item["t"] = rng.choice(["one", "four", "list", "num", "none"])
        return item
    item["t"] = rng.choice(["text", "two", "three"])
    if item["t"] == "text":
        item["v"] = rng.choice(WORDS)
        return item
    item["lo"] = rng.choice(LINE[1:-1])
    item["val"] = {"t": "text", "v": rng.choice(WORDS)} if rng.random() < 0.8 else {"t": "num", "v": rng.choice(["0", "1", "0.5"])}
    if item["t"] == "three":
        item["hi"] = rng.choice(LINE[1:-1])
    return item


def make_gen(rng):
    def gen(adapter):
        for _ in range(rng.randrange(4, 16)):
            cons = [ix for ix, o in enumerate(adapter.objs) if isinstance(o, ar_element.DataConstraint)]
            pick = rng.random()
            if pick < 0.15:
                side = rng.choice(["int", "phys"])
                yield {"op": "one", "side": side, "c": gen_con(rng, side), "route": rng.choice(["make", "class"])}
            elif pick < 0.25:
                rules = []
                for _ in range(rng.randrange(1, 4)):
                    both = rng.choice([(1, 0), (0, 1), (1, 1)])
                    rules.append({"int": [gen_con(rng, "int")] if both[0] else [], "phys": [gen_con(rng, "phys")] if both[1] else [],
                                  "level": rng.choice(["", "0", "1", "2"])})
                yield {"op": "con", "rules": rules}
            elif pick < 0.35:
                bad = rng.choice([0, 0, 0, 0.3])
                yield {"op": "table", "items": [gen_item(rng, bad) for _ in range(rng.randrange(0, 6))], "default": gen_value(rng, True), "auto": rng.random() < 0.6}
            elif pick < 0.42:
                yield {"op": "rational", "f": rng.choice(["1", "0.5", "-2", "0.25", "255"]), "o": rng.choice(["0", "1", "-0.5", "7", "-9007199254740995"]),
                       **gen_pair(rng, 0.3), "default": gen_value(rng, True)}
            elif pick < 0.47:
                yield {"op": "save"}
            elif cons:
                ix = rng.choice(cons)
                rix = rng.randrange(len(adapter.objs[ix].rules))
                rule = adapter.objs[ix].rules[rix]
                side = rng.choice([s for s, c in (("int", rule.internal), ("phys", rule.physical)) if c is not None])
                con = rule.internal if side == "int" else rule.physical
                scale = rng.randrange(len(con.scale_constrs) + 1)
                where = {"i": ix + 1, "r": rix + 1, "side": side, "s": scale}
                if pick < 0.6:
                    end = rng.choice(["lo", "hi"])
                    target = con.scale_constrs[scale - 1] if scale else con
                    other = target.upper_limit if end == "lo" else target.lower_limit
                    yield {"op": "limit", **where, "end": end, "x": rng.choice(LINE) if other is None else rng.choice(LINE + ["", ""]), "t": rng.choice(KINDS)}
                else:
                    target = con.scale_constrs[scale - 1] if scale else con
                    near = [literal(x) for x in (target.lower_limit, target.upper_limit) if x is not None]
                    yield {"op": "check", **where, "x": rng.choice(near) if near and rng.random() < 0.5 else rng.choice(LINE)}
    return gen


def check_limits(check):
    for part, depth in (("check", 1), ("make", 1), ("table", 1), ("grow", check.pick(4, 5))):
        res = tlc("LimitsMC", MC_CFG % (part, depth, "EmitAsking Convex EndsRight SaveKeeps" if part == "check" else "EmitAsking EndsRight"))
        check.add_tlc(res, f"limits-{part}")
        replay_tests(check, LimitsAdapter, [r for r in res.records if "r" in r])
        replay_queries(check, LimitsAdapter, [r for r in res.records if "q" in r])
    rng = random.Random(SEED)
    plan = [(0, make_gen(rng)) for _ in range(check.pick(1200, 20000))]
    validate_traces(check, "LimitsTrace", TRACE_CFG, record_traces(LimitsAdapter, plan), "LimitsTrace")


CHECKS = {"C22": check_limits}
