"""Binding of ValueSpec.tla: C21 (value specifications made from Python data)"""
import os
import random
import autosar.xml.element as ar_element
import autosar.xml.workspace as ar_workspace
from autosar.xml.document import Document
from autosar.xml.reader import Reader
from autosar.xml.writer import Writer
from common import SEED, replay_tests, record_traces, validate_traces, tlc

CLASSES = (("N", ar_element.NumericalValueSpecification), ("T", ar_element.TextValueSpecification),
           ("U", ar_element.NotAvailableValueSpecification), ("A", ar_element.ArrayValueSpecification),
           ("R", ar_element.RecordValueSpecification), ("C", ar_element.ConstantReference))


def number(text):
    return float(text) if any(c in text for c in ".en") else int(text)


def literal(val):
    if isinstance(val, (int, float)) and not isinstance(val, bool):
        return repr(val)
    return f"?{val!r}"


class Ready(Exception):
    pass


def python_data(d, ready=None):
    """The Python data meant by the specification's data"""
    kind = d["t"]
    if kind == "num":
        return number(d["v"])
    if kind == "text":
        return d["v"]
    if kind == "none":
        return None
    if kind == "list":
        return [python_data(x, ready) for x in d["xs"]]
    if kind == "tuple":
        return tuple(python_data(x, ready) for x in d["xs"])
    if kind == "ref":
        return ar_element.ConstantRef(d["v"])
    if kind == "spec":
        made = ar_element.NumericalValueSpecification("own", number(d["v"]))
        if ready is not None:
            ready.append(made)
        return made
    return {"bytes": b"x", "dict": {"A": 1}, "set": {1}, "object": object()}[kind]


def shape(val):
    for tag, cls in CLASSES:
        if type(val) is cls:
            label = "" if val.label is None else f"<{val.label}>"
            if tag == "N":
                return f"N{label}:{literal(val.value)}"
            if tag == "T":
                return f"T{label}:{val.value}" if isinstance(val.value, str) else f"T{label}?{val.value!r}"
            if tag == "U":
                return f"U{label}" + ("" if val.default_pattern is None else f":{literal(val.default_pattern)}")
            if tag == "C":
                return f"C{label}:{val.constant_ref}"
            items = val.elements if tag == "A" else val.fields
            return f"{tag}{label}[" + ",".join(shape(x) for x in items) + "]"
    return f"?{type(val).__name__}"


class ValuesAdapter:
    """Makes value specifications from data"""

    def __init__(self, _cfg):
        self.vals = []
        self.ws = ar_workspace.Workspace()
        pkg = self.ws.make_packages("/P")
        self.interface = ar_element.SenderReceiverInterface("I")
        pkg.append(self.interface)
        self.interface.create_data_element("e")
        self.component = ar_element.ApplicationSoftwareComponentType("C")
        pkg.append(self.component)

    def _make(self, route, data):
        if route == "value":
            return ar_element.ValueSpecification.make_value(data)
        if route == "constant":
            return ar_element.ConstantSpecification.make_constant("c", data).value
        if route == "init":
            return ar_element.ValueSpecification.make_value_with_check(data)
        if route == "sender":
            return ar_element.ProvidePortComSpec.make_non_queued_sender_com_spec(data).init_value
        if route == "receiver":
            return ar_element.RequirePortComSpec.make_non_queued_receiver_com_spec(data).init_value
        before = len(self.component.ports)
        if route == "provided":
            self.component.create_provide_port(f"p{before}", self.interface, com_spec={"init_value": data})
        else:
            self.component.create_require_port(f"p{before}", self.interface, com_spec={"init_value": data})
        return self.component.ports[before].com_spec[0].init_value

    def do(self, op):
        kind = op["op"]
        if kind == "make":
            ready = []
            made = self._make(op["route"], python_data(op["d"], ready))
            if made is None:
                return "none"
            if any(made is x for x in ready):
                return "same:" + literal(made.value)
            self.vals.append(made)
            return "ok"
        if kind == "into":
            self.vals[op["j"] - 1].append(self.vals[op["i"] - 1])
            del self.vals[op["i"] - 1]
            return "ok"
        if kind == "wrong":
            self.vals[op["j"] - 1].append(python_data({"t": op["t"], "v": "1"}))
            return "ok"
        return self._save()

    def _save(self):
        package = ar_element.Package("K")
        for ix, val in enumerate(self.vals):
            package.append(ar_element.ConstantSpecification(f"k{ix}", val))
        document = Document()
        document.append(package)
        text = Writer().write_str(document)
        back = Reader().read_str(text).packages[0].elements
        if len(back) != len(self.vals):
            return "lost"
        self.vals = [const.value for const in back]
        return "ok"

    def proj(self):
        return [shape(v) for v in self.vals]


MC_CFG = """SPECIFICATION Spec
VIEW SeenAs
CHECK_DEADLOCK FALSE
CONSTANTS Part_ = "%s" Depth = %d
PROPERTY NothingLost
"""
TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS TInit <- VInit TStep <- VStep TProj <- VProj
"""
NUMBERS = ["0", "1", "-1", "255", "65535", "-32768", "18446744073709551616", "0.5", "-2.25", "1e+30", "1e-07"]
TEXTS = ["on", "off", "A", "R", "ARRAY", "RECORD", "7", "a b", "Öl", "None", "x<y&z"]
ROUTES = ["value", "value", "constant", "init", "sender", "receiver", "provided", "required"]


def data(kind, val="", items=()):
    return {"t": kind, "v": val, "xs": list(items)}


def gen_data(rng, depth, bad):
    pick = rng.random()
    if rng.random() < bad:
        return rng.choice([data(k, "1" if k == "spec" else "/C/x") for k in ("ref", "spec", "bytes", "dict", "set", "object")]
                          + [data("list"), data("tuple"), data("list", "", [data("text", "X"), data("num", "1")]),
                             data("tuple", "", [data("num", "1"), data("num", "2")]), data("tuple", "", [data("text", "a"), data("num", "1"), data("num", "2")]),
                             data("tuple", "", [data("text", "L"), data("none"), data("num", "-1")])])
    if pick < 0.35 and depth:
        head = rng.choice(["A", "A", "R", "R", "ARRAY", "RECORD", "array", "r", "Record"])
        body = data("list", "", [data("text", head)] + [gen_data(rng, depth - 1, bad) for _ in range(rng.randrange(0, 5))])
    elif pick < 0.6:
        body = data("num", rng.choice(NUMBERS))
    elif pick < 0.85:
        body = data("text", rng.choice(TEXTS))
    else:
        if rng.random() < 0.5:
            pattern = data("num", rng.choice(["0", "1", "255", "4294967295"])) if rng.random() < 0.7 else data("none")
            return data("tuple", "", [data("text", rng.choice(["L", "A", "lab_1"])), data("none"), pattern])
        body = data("none")
    return data("tuple", "", [data("text", rng.choice(["L", "M", "A", "R", "lab_1"])), body]) if rng.random() < 0.4 else body


def make_gen(rng):
    def gen(adapter):
        for _ in range(rng.randrange(3, 12)):
            pick = rng.random()
            count = len(adapter.vals)
            if pick < 0.6 or not count:
                bad = rng.choice([0, 0, 0, 0.05, 0.3])
                yield {"op": "make", "route": rng.choice(ROUTES), "d": gen_data(rng, rng.randrange(0, 5), bad)}
            elif pick < 0.85 and count > 1:
                i, j = rng.sample(range(1, count + 1), 2)
                yield {"op": "into", "i": i, "j": j}
            elif pick < 0.9:
                open_ = [ix + 1 for ix, v in enumerate(adapter.vals) if hasattr(v, "append")]
                if open_:
                    yield {"op": "wrong", "j": rng.choice(open_), "t": rng.choice(["object", "bytes", "none", "ref", "num"])}
            else:
                yield {"op": "save"}
    return gen


def check_values(check):
    for part, depth in (("leaf", 1), ("tree", 1), ("grow", check.pick(5, 7))):
        res = tlc("ValueSpecMC", MC_CFG % (part, depth))
        check.add_tlc(res, f"values-{part}")
        replay_tests(check, ValuesAdapter, res.records)
    rng = random.Random(SEED)
    plan = [(0, make_gen(rng)) for _ in range(check.pick(1500, 30000))]
    validate_traces(check, "ValueSpecTrace", TRACE_CFG, record_traces(ValuesAdapter, plan), "ValueSpecTrace")


CHECKS = {"C21": check_values}
