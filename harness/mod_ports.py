"""Binding of Ports.tla: C16 (ports and the communication specifications made for them)"""
import copy
import random
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.workspace as ar_workspace
from common import SEED, replay_queries, replay_tests, record_traces, validate_traces, tlc

KINDS = {"send": (ar_element.NonqueuedSenderComSpec, "data_element_ref"), "sendq": (ar_element.QueuedSenderComSpec, "data_element_ref"),
         "server": (ar_element.ServerComSpec, "operation_ref"), "modesend": (ar_element.ModeSwitchSenderComSpec, "mode_group_ref"),
         "nvprov": (ar_element.NvProvideComSpec, "variable_ref"), "parprov": (ar_element.ParameterProvideComSpec, "parameter_ref"),
         "recv": (ar_element.NonqueuedReceiverComSpec, "data_element_ref"), "recvq": (ar_element.QueuedReceiverComSpec, "data_element_ref"),
         "client": (ar_element.ClientComSpec, "operation_ref"), "moderecv": (ar_element.ModeSwitchReceiverComSpec, "mode_group_ref"),
         "nvreq": (ar_element.NvRequireComSpec, "variable_ref"), "parreq": (ar_element.ParameterRequireComSpec, "parameter_ref")}
REFS = {"data_element_ref": ar_element.VariableDataPrototypeRef, "operation_ref": ar_element.ClientServerOperationRef,
        "mode_group_ref": ar_element.ModeDeclarationGroupPrototypeRef, "variable_ref": ar_element.VariableDataPrototypeRef,
        "parameter_ref": ar_element.ParameterDataPrototypeRef}
KEYS = {"init": "init_value", "e2e": "uses_end_to_end_protection", "ack": "transmission_acknowledge", "queue": "queue_length",
        "enh": "enhanced_mode_api", "async": "supports_async", "alive": "alive_timeout", "timeout": "e2e_call_respone_timeout"}
ORDER = ["init", "e2e", "ack", "queue", "enh", "async", "alive", "timeout"]


class NotSupported:
    """A value no setting takes"""


def raw_value(key, text):
    if text == "bad":
        return NotSupported()
    if key == "init":
        tag, _, body = text.partition(":")
        if tag == "n":
            return int(body)
        if tag == "t":
            return body
        if tag == "a":
            return ["A"] + [int(x) for x in body.split(",")]
        return ar_element.ConstantRef(body)
    if text in ("true", "false"):
        return text == "true"
    return float(text) if "." in text else int(text)


def value_text(value):
    if isinstance(value, bool):
        return "true" if value else "false"
    if isinstance(value, ar_element.NumericalValueSpecification):
        return f"n:{value.value}"
    if isinstance(value, ar_element.TextValueSpecification):
        return f"t:{value.value}"
    if isinstance(value, ar_element.ArrayValueSpecification):
        return "a:" + ",".join(str(e.value) for e in value.elements)
    if isinstance(value, ar_element.ConstantReference):
        return f"c:{value.constant_ref}"
    if isinstance(value, (ar_element.TransmissionAcknowledgementRequest, ar_element.ModeSwitchedAckRequest)):
        return str(value.timeout)
    return str(value)


class PortsAdapter:
    """Creates ports in a component of a workspace"""
    owner = staticmethod(lambda: ar_element.ApplicationSoftwareComponentType("Comp"))

    def __init__(self, cfg):
        self.ws = ar_workspace.Workspace()
        package = self.ws.make_packages("/If")
        self.ifs = []
        for itf in cfg["ifs"]:
            self.ifs.append(self._interface(itf))
            package.append(self.ifs[-1])
        self.comp = self.owner()
        self.ws.make_packages("/Comps").append(self.comp)

    @staticmethod
    def _interface(itf):
        kind, els = itf["kind"], itf["els"]
        if kind == "sr":
            made = ar_element.SenderReceiverInterface(itf["n"])
            for el in els:
                props = ar_element.SwDataDefPropsConditional(impl_policy=ar_enum.SwImplPolicy.QUEUED) if el["q"] else None
                made.create_data_element(el["n"], **({"sw_data_def_props": props} if props else {}))
        elif kind == "cs":
            made = ar_element.ClientServerInterface(itf["n"])
            for el in els:
                made.create_operation(el["n"])
        elif kind == "ms":
            made = ar_element.ModeSwitchInterface(itf["n"])
            if els:
                made.create_mode_group(els[0]["n"], ar_element.ModeDeclarationGroupRef("/Modes/G"))
        elif kind == "nv":
            made = ar_element.NvDataInterface(itf["n"])
            for el in els:
                made.create_data_element(el["n"])
        else:
            made = ar_element.ParameterInterface(itf["n"])
            for el in els:
                made.create_parameter(el["n"])
        return made

    # -- requests

    @staticmethod
    def _settings(itf, side, sets):
        made = {}
        for item in sets:
            key = KEYS.get(item["k"], item["k"])
            if item["k"] == "ack" and isinstance(itf, ar_element.ModeSwitchInterface):
                key = "mode_switched_ack"
            made[key] = raw_value(item["k"], item["v"])
        return made

    def _ready(self, itf, item):
        if item["t"] == "junk":
            return NotSupported()
        factory, target = KINDS[item["t"]]
        args = {}
        for setting in item["s"]:
            key = "mode_switched_ack" if setting["k"] == "ack" and item["t"] == "modesend" else KEYS[setting["k"]]
            value = raw_value(setting["k"], setting["v"])
            args[key] = ar_element.ValueSpecification.make_value_with_check(value) if setting["k"] == "init" else value
        return factory(**{target: REFS[target](f"{itf.ref()}/{item['n']}")}, **args)

    def _request(self, itf, side, req):
        form, items = req["form"], req["items"]
        if form == "none":
            return None
        if form == "object":
            return self._ready(itf, items[0])
        if form == "flat":
            return self._settings(itf, side, items[0]["s"])
        if form == "named":
            return {i["n"]: self._settings(itf, side, i["s"]) for i in items}
        return [(i["n"], self._settings(itf, side, i["s"])) if i["t"] == "" else self._ready(itf, i) for i in items]

    def do(self, op):
        if "q" in op:
            return self.query(op)
        itf = self.ifs[op["i"] - 1]
        prov, req = self._request(itf, "P", op["p"]), self._request(itf, "R", op["r"])
        before = (self._shape(prov), self._shape(req))
        try:
            if op["side"] == "P":
                call = self.comp.create_provide_port if op["alias"] else self.comp.create_p_port
                port = call(op["n"], itf, prov) if prov is not None else call(op["n"], itf)
            elif op["side"] == "R":
                call = self.comp.create_require_port if op["alias"] else self.comp.create_r_port
                args = {} if op["un"] == "" else {"allow_unconnected": op["un"] == "true"}
                port = call(op["n"], itf, req, **args) if req is not None else call(op["n"], itf, **args)
            else:
                args = {k: v for k, v in (("provided_com_spec", prov), ("required_com_spec", req)) if v is not None}
                port = self.comp.create_pr_port(op["n"], itf, **args)
        finally:
            if (self._shape(prov), self._shape(req)) != before:
                return "request changed"  # pylint: disable=W0150
        if port is not self.comp.ports[-1]:
            return "not the new port"
        return "ok"

    @staticmethod
    def _shape(req):
        """What the caller handed over, to see whether it was tampered with"""
        if isinstance(req, dict):
            return [(k, sorted(v) if isinstance(v, dict) else id(v)) for k, v in req.items()]
        if isinstance(req, list):
            return [(e[0], sorted(e[1])) if isinstance(e, tuple) else id(e) for e in req]
        return id(req)

    # -- what can be seen

    def _el_name(self, itf, ref):
        if ref is None:
            return "?none"
        prefix = f"{itf.ref()}/" if itf is not None else "?"
        return str(ref)[len(prefix):] if str(ref).startswith(prefix) else f"?{ref}"

    def _specs(self, itf, specs):
        out = []
        for spec in specs:
            names = [k for k, v in KINDS.items() if v[0] is type(spec)]
            kind = names[0] if names else f"?{type(spec).__name__}"
            ref = getattr(spec, KINDS[kind][1]) if names else None
            text = f"{kind} {self._el_name(itf, ref)}"
            for key in ORDER:
                attr = "mode_switched_ack" if key == "ack" and kind == "modesend" else KEYS[key]
                value = getattr(spec, attr, None)
                if value is not None:
                    text += f" {key}={value_text(value)}"
            out.append(text)
        return ", ".join(out)

    def proj(self):
        lines = []
        for port in self.comp.ports:
            itf = self.ws.find(port.port_interface_ref)
            side = {"ProvidePortPrototype": "P", "RequirePortPrototype": "R", "PRPortPrototype": "PR"}[type(port).__name__]
            un = "" if side != "R" or port.allow_unconnected is None else f" un={value_text(port.allow_unconnected)}"
            prov = port.com_spec if side == "P" else port.provided_com_spec if side == "PR" else []
            req = port.com_spec if side == "R" else port.required_com_spec if side == "PR" else []
            name = itf.name if itf is not None and port.parent is self.comp else "?"
            lines.append(f"{side} {port.name} {name}{un} [{self._specs(itf, prov)}] [{self._specs(itf, req)}]")
        return lines

    def query(self, q):
        kind, name = q["q"], q["n"]
        comp = self.comp
        if kind == "side":
            return ",".join(p.name for p in {"P": comp.provide_ports, "R": comp.require_ports, "PR": comp.pr_ports}[name])
        if kind in ("p", "r", "find"):
            port = {"p": comp.find_p_port, "r": comp.find_r_port, "find": comp.find}[kind](name)
            return "none" if port is None else f"port {[x is port for x in comp.ports].index(True) + 1}"
        port = comp.find(name)
        if port is None:
            return "none"
        if kind == "element":
            got = comp.get_data_element_in_port(port, q["e"]) if q["e"] else comp.get_data_element_in_port(port)
        elif kind == "operation":
            got = comp.get_operation_in_port(port, q["e"])
        else:
            got = comp.get_mode_declaration_group_in_port(port)
        return "none" if got is None else f"{got.parent.name}/{got.name}"


class CompositionPortsAdapter(PortsAdapter):
    """The same in a composition"""
    owner = staticmethod(lambda: ar_element.CompositionSwComponentType("Comp"))


MC_CFG = """SPECIFICATION Spec
VIEW SeenAs
CHECK_DEADLOCK FALSE
CONSTANTS Part = "%s" Depth = %d
INVARIANTS Matching%s
PROPERTY OnlyAdded
"""
TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS TInit <- QInit TStep <- QStep TProj <- QProj
"""
NAMES = ["a", "b", "A", "ab", "e"]


def gen_ifs(rng):
    ifs = []
    for ix in range(rng.randrange(2, 6)):
        kind = rng.choice(["sr", "sr", "sr", "cs", "cs", "ms", "nv", "par"])
        count = rng.choice([0, 1, 1]) if kind == "ms" else rng.choice([0, 1, 1, 2, 3, 4, 5])
        names = rng.sample(NAMES, count)
        ifs.append({"n": f"I{ix}", "kind": kind, "els": [{"n": n, "q": kind == "sr" and rng.random() < 0.4} for n in names]})
    return ifs


TAKES = {"send": ["init", "e2e", "ack"], "sendq": ["e2e", "ack"], "server": ["queue"], "modesend": ["enh", "ack", "queue"],
         "recv": ["init", "e2e", "alive"], "recvq": ["e2e", "queue"], "client": ["timeout"], "moderecv": ["enh", "async"]}
TEXTS = {"init": ["n:0", "n:5", "n:65535", "t:abc", "t:x y", "a:1,2", "a:7", "c:/Consts/C"], "queue": ["0", "1", "3", "255"], "e2e": ["true", "false"],
         "enh": ["true", "false"], "async": ["true", "false"], "ack": ["0.5", "2.0"], "alive": ["0.5", "1.25"], "timeout": ["0.5", "30.0"]}


def kind_of(itf, el, side):
    if itf["kind"] == "sr":
        return ("sendq" if el["q"] else "send") if side == "P" else ("recvq" if el["q"] else "recv")
    if itf["kind"] == "cs":
        return "server" if side == "P" else "client"
    return "modesend" if side == "P" else "moderecv"


def gen_sets(rng, kind):
    if rng.random() < 0.06:
        keys = rng.sample(ORDER, rng.randrange(1, 3))
    else:
        usable = TAKES.get(kind, ORDER)
        keys = rng.sample(usable, rng.randrange(0, len(usable) + 1))
    sets = [{"k": k, "v": rng.choice(TEXTS[k])} for k in keys]
    for item in sets:
        if rng.random() < 0.02 and item["k"] in ("init", "ack", "queue", "alive", "timeout"):
            item["v"] = "bad"
    if rng.random() < 0.02:
        sets.append({"k": "junk", "v": "1"})
    return sets


def gen_ready(rng, side, right):
    pool = ["send", "sendq", "server", "modesend", "nvprov", "parprov"] if side == "P" else ["recv", "recvq", "client", "moderecv", "nvreq", "parreq"]
    kind = rng.choice(pool)
    if not right and rng.random() < 0.15:
        kind = rng.choice(list(KINDS) + ["junk"])
    n = "" if kind == "junk" else rng.choice(NAMES)
    sets = [] if kind not in TAKES else [s for s in gen_sets(rng, kind) if s["v"] != "bad" and s["k"] in TAKES[kind]]
    return {"t": kind, "n": n, "s": sets}


def gen_request(rng, itf, side, both):
    els = itf["els"]

    def named():
        chosen = rng.sample(els, rng.randrange(0, len(els) + 1))
        items = [{"t": "", "n": e["n"], "s": gen_sets(rng, kind_of(itf, e, side))} for e in chosen]
        if rng.random() < 0.08:
            items.append({"t": "", "n": "zz", "s": []})
        return items
    form = rng.choice(["none", "flat", "flat", "named", "named", "list", "list", "object"])
    if form == "flat" and len(els) > 1 and rng.random() < 0.9:
        form = "named"
    if form == "none":
        return {"form": "none", "items": []}
    if form == "flat":
        return {"form": "flat", "items": [{"t": "", "n": "", "s": gen_sets(rng, kind_of(itf, els[0], side) if els else "")}]}
    if form == "object":
        return {"form": "object", "items": [gen_ready(rng, side, not both)]}
    if form == "named":
        return {"form": "named", "items": named()}
    items = [gen_ready(rng, side, both) for _ in range(rng.randrange(0, 3))]
    if not both:
        items += named()
        rng.shuffle(items)
    return {"form": "list", "items": items}


def make_gen(ifs, rng):
    def gen(_adapter):
        ops = []
        for ix in range(rng.randrange(1, 9)):
            i = rng.randrange(len(ifs))
            side = rng.choice(["P", "P", "R", "R", "PR"])
            nothing = {"form": "none", "items": []}
            prov = gen_request(rng, ifs[i], "P", side == "PR") if side != "R" else nothing
            req = gen_request(rng, ifs[i], "R", side == "PR") if side != "P" else nothing
            ops.append({"op": "create", "side": side, "n": f"p{ix}", "i": i + 1, "p": prov, "r": req,
                        "un": rng.choice(["", "", "true", "false"]) if side == "R" else "", "alias": side != "PR" and rng.random() < 0.3})
            for _ in range(rng.randrange(0, 3)):
                q = rng.choice(["p", "r", "find", "side", "element", "element", "operation", "modes"])
                n = rng.choice(["P", "R", "PR"]) if q == "side" else f"p{rng.randrange(ix + 2)}"
                ops.append({"q": q, "n": n, "e": rng.choice(["", "", "a", "b", "c"]) if q in ("element", "operation") else ""})
        return ops
    return gen


def check_ports(check):
    for part, depth, adapter in (("one", 1, PortsAdapter), ("more", check.pick(2, 3), PortsAdapter)):
        res = tlc("PortsMC", MC_CFG % (part, depth, "" if part == "one" else " EmitAsking"))
        check.add_tlc(res, f"ports-{part}")
        for kind in (adapter, CompositionPortsAdapter):
            replay_tests(check, kind, [r for r in res.records if "r" in r])
            replay_queries(check, kind, [r for r in res.records if "q" in r], key=lambda op: op.get("q", "?"))
    rng = random.Random(SEED)
    worlds = [{"ifs": gen_ifs(rng)} for _ in range(check.pick(60, 600))]
    plan = [(w, make_gen(w["ifs"], rng)) for w in worlds for _ in range(8)]
    traces = record_traces(PortsAdapter, plan[::2]) + record_traces(CompositionPortsAdapter, plan[1::2])
    validate_traces(check, "PortsTrace", TRACE_CFG, traces, "PortsTrace", key=lambda op: op.get("q", op.get("op", "?")))


CHECKS = {"C16": check_ports}
