"""Binding of Composition.tla: C17 (components and connectors of a composition)"""
import random
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.workspace as ar_workspace
from common import SEED, replay_queries, replay_tests, record_traces, validate_traces, tlc

PORTS = {"P": ar_element.ProvidePortPrototype, "R": ar_element.RequirePortPrototype, "PR": ar_element.PRPortPrototype}
SIDES = {"ProvidePortPrototype": "P", "RequirePortPrototype": "R", "PRPortPrototype": "PR"}
DESTS = {"P_PORT_PROTOTYPE": "P", "R_PORT_PROTOTYPE": "R", "PR_PORT_PROTOTYPE": "PR"}


class CompositionAdapter:
    """Connects ports of a composition"""

    def __init__(self, cfg):
        self.ws = ar_workspace.Workspace()
        package = self.ws.make_packages("/Types")
        self.types = {}
        for made in cfg["types"]:
            if made["kind"] in ("swc", "comp"):
                factory = ar_element.ApplicationSoftwareComponentType if made["kind"] == "swc" else ar_element.CompositionSwComponentType
                self.types[made["n"]] = factory(made["n"])
                for port in made["ports"]:
                    self.types[made["n"]].append_port(PORTS[port["side"]](port["n"]))
                package.append(self.types[made["n"]])
            elif made["kind"] == "unit":
                package.append(ar_element.Unit(made["n"]))
        self.comp = ar_element.CompositionSwComponentType("Top")
        self.ws.make_packages("/Sys").append(self.comp)
        for proto in cfg["protos"]:
            self._proto(proto["t"], proto["n"])
        for port in cfg["ports"]:
            self.comp.append_port(PORTS[port["side"]](port["n"]))

    def _proto(self, kind, name):
        if kind in self.types:
            args = () if name == "" else (name,)
            made = self.comp.create_component_prototype(self.types[kind], *args)
        else:
            ref = ar_element.SwComponentTypeRef(f"/Types/{kind}", ar_enum.IdentifiableSubTypes.APPLICATION_SW_COMPONENT_TYPE)
            made = ar_element.SwComponentPrototype(name or kind, ref)
            self.comp.append_component(made)
        return "ok" if made is None or made is self.comp.components[-1] else "not the new component"

    @staticmethod
    def _text(path):
        return ("/" if path["lead"] else "") + "/".join(path["segs"])

    def do(self, op):
        kind = op["op"]
        if kind == "proto":
            return self._proto(op["t"], op["n"])
        if kind == "port":
            self.comp.append_port(PORTS[op["side"]](op["n"]))
            return "ok"
        if kind == "connect":
            made = self.comp.create_connector(self._text(op["a"]), self._text(op["b"]), self.ws)
            return "ok" if made is None or made is self.comp.connectors[-1] else "not the new connector"
        found = self.comp.find(op["n"])
        if found is None:
            return "none"
        for label, items in (("proto", self.comp.components), ("connector", self.comp.connectors), ("port", self.comp.ports)):
            for ix, item in enumerate(items):
                if item is found:
                    if self.ws.find(item.ref() if label == "port" else f"/Sys/Top/{item.name}") is not item:
                        return "not found at its reference"
                    return f"{label} {ix + 1}"
        return "unknown"

    def _outer(self, ref):
        if ref is None or not str(ref).startswith("/Sys/Top/"):
            return f"?{ref}"
        return f"{str(ref)[9:]}:{DESTS.get(ref.dest.name, ref.dest.name)}"

    def _end(self, iref):
        if iref is None or iref.component_ref is None or iref.port_ref is None or not str(iref.component_ref).startswith("/Sys/Top/"):
            return "?"
        name = str(iref.component_ref)[9:]
        protos = [c for c in self.comp.components if c.name == name]
        prefix = f"{protos[0].type_ref}/" if protos else "?"
        port = str(iref.port_ref)
        port = port[len(prefix):] if port.startswith(prefix) else f"?{port}"
        return f"{name}/{port}:{DESTS.get(iref.port_ref.dest.name, iref.port_ref.dest.name)}"

    def proj(self):
        lines = []
        for proto in self.comp.components:
            ref = str(proto.type_ref)
            owned = "" if proto.parent is self.comp else "?"
            lines.append(f"proto {owned}{proto.name} {ref[7:] if ref.startswith('/Types/') else '?' + ref}")
        for port in self.comp.ports:
            lines.append(f"port {port.name} {SIDES[type(port).__name__]}")
        for con in self.comp.connectors:
            owned = "" if con.parent is self.comp else "?"
            if isinstance(con, ar_element.AssemblySwConnector):
                text = f"assembly {owned}{con.name} {self._end(con.provide_port)} {self._end(con.require_port)}"
            elif isinstance(con, ar_element.DelegationSwConnector):
                text = f"delegation {owned}{con.name} {self._end(con.inner_port)} {self._outer(con.outer_port)}"
            else:
                text = f"pass {owned}{con.name} {self._outer(con.provide_port)} {self._outer(con.require_port)}"
            lines.append(text)
        return lines


MC_CFG = """SPECIFICATION Spec
VIEW SeenAs
CHECK_DEADLOCK FALSE
CONSTANTS Part = "%s" Depth = %d
INVARIANTS Unique Fitting EmitAsking
PROPERTY OnlyAdded
"""
TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS TInit <- LInit TStep <- LStep TProj <- LProj
"""
PORT_NAMES = ["p", "q", "r", "s", "p_q", "q_r"]
COMP_NAMES = ["A", "B", "A_p", "C", "D", "A_p_q"]
OUTER_NAMES = ["o1", "o2", "o3", "r", "B_p"]


def gen_config(rng):
    types = []
    for ix in range(rng.randrange(1, 4)):
        names = rng.sample(PORT_NAMES, rng.randrange(1, 6))
        types.append({"n": f"T{ix}", "kind": rng.choice(["swc", "swc", "comp"]), "ports": [{"n": n, "side": rng.choice(["P", "R", "PR"])} for n in names]})
    types.append({"n": "G", "kind": rng.choice(["gone", "unit"]), "ports": []})
    return {"types": types, "protos": [], "ports": []}


def make_gen(cfg, rng):
    def gen(adapter):
        used = set()
        for _ in range(rng.randrange(4, 26)):
            # the names in one composition are unique: a name taken by a connector is not given to a component or port
            used |= {c.name for c in adapter.comp.connectors}
            pick = rng.random()
            if pick < 0.2 or not adapter.comp.components:
                kind = rng.choice(cfg["types"])["n"]
                name = rng.choice(COMP_NAMES + ["", ""])
                if (name or kind) in used:
                    continue
                used.add(name or kind)
                yield {"op": "proto", "t": kind, "n": name}
            elif pick < 0.35:
                name = rng.choice(OUTER_NAMES)
                if name in used:
                    continue
                used.add(name)
                yield {"op": "port", "n": name, "side": rng.choice(["P", "R", "PR"])}
            elif pick < 0.43:
                pool = [c.name for c in adapter.comp.connectors] + COMP_NAMES + OUTER_NAMES
                yield {"op": "find", "n": rng.choice(pool)}
            else:
                yield {"op": "connect", "a": gen_path(adapter, rng), "b": gen_path(adapter, rng)}
    return gen


def gen_path(adapter, rng):
    lead = rng.random() < 0.05
    if rng.random() < 0.04:
        segs = rng.choice([[rng.choice(COMP_NAMES), "p", "q"], [""], ["A", ""], ["nowhere"], ["nobody", "p"]])
        return {"lead": lead and segs != [""], "segs": segs}
    outer = [p.name for p in adapter.comp.ports]
    if outer and rng.random() < 0.35:
        return {"lead": lead, "segs": [rng.choice(outer)]}
    proto = rng.choice(adapter.comp.components)
    kind = adapter.types.get(proto.type_ref.value.rsplit("/", 1)[1])
    ports = [p.name for p in kind.ports] if kind is not None else PORT_NAMES
    return {"lead": lead, "segs": [proto.name, rng.choice(ports)]}


def check_connectors(check):
    for part, depth in (("pairs", check.pick(2, 3)), ("grow", check.pick(4, 5))):
        res = tlc("CompositionMC", MC_CFG % (part, depth))
        check.add_tlc(res, f"composition-{part}")
        replay_tests(check, CompositionAdapter, [r for r in res.records if "r" in r])
        replay_queries(check, CompositionAdapter, [r for r in res.records if "q" in r])
    rng = random.Random(SEED)
    plan = []
    for _ in range(check.pick(400, 5000)):
        cfg = gen_config(rng)
        plan.append((cfg, make_gen(cfg, rng)))
    validate_traces(check, "CompositionTrace", TRACE_CFG, record_traces(CompositionAdapter, plan), "CompositionTrace")


CHECKS = {"C17": check_connectors}
