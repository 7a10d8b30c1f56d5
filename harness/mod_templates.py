"""Binding of Templates.tla: C14 (templates create each element once, after its dependencies)"""
import random
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.template as ar_template
import autosar.xml.workspace as ar_workspace
from common import SEED, replay_tests, record_traces, validate_traces, tlc


class Element(ar_template.ElementTemplate):
    """An element template as specified"""

    def create(self, package, workspace, dependencies, **kwargs):
        outer = self.outer
        handed = "nothing"
        if dependencies is not None:
            given = sorted((outer.number(e), str(k)) for k, e in dependencies.items())
            handed = ",".join(f"el:{k}#{n}" for n, k in given)
        same = "" if workspace is outer.ws else "?workspace"
        outer.log.append(f"{self.element_name}:{package.ref()}:{handed}:{kwargs.get('arg', '')}{same}")
        gives = self.gives
        if gives == "none":
            return None
        if gives == "text":
            return self.element_name
        if gives == "package":
            return ar_element.Package(self.element_name)
        if gives == "raise":
            raise ValueError("cannot create")
        elem = outer.element(self.element_name)
        if gives == "own":
            package.append(elem)
        return elem


class Generic(ar_template.GenericTemplate):
    """A generic template as specified"""

    def __init__(self, outer, spec, role):
        self.outer = outer
        self.spec = spec
        self.role = role

    def apply(self, workspace, **kwargs):
        name = self.spec["n"]
        package = workspace.make_packages(workspace.get_package_ref_by_role(self.spec["ns"], self.role))
        self.outer.log.append(f"{name}:generic:{kwargs.get('arg', '')}")
        if self.spec["gives"] == "text":
            return "text"
        elem = package.find(name)
        if elem is None:
            elem = self.outer.element(name)
            package.append(elem)
        return elem


class TemplatesAdapter:
    """Performs the operations of Templates.tla"""

    def __init__(self, cfg):
        self.ws = ar_workspace.Workspace()
        self.ws.create_namespace("N", {"BaseType": "B", "Unit": "/P", "!Mine": "B/M"}, base_ref="/P")
        self.ws.create_namespace("M", {"Unit": "/Q", "BaseType": "../P/B"})
        self.made = []
        self.log = []
        self.templates = []
        for spec in cfg:
            self.templates.append(self._template(spec))

    def _template(self, spec):
        role = spec["role"][1:] if spec["role"].startswith("!") else ar_enum.PackageRole[spec["role"]]
        if spec["kind"] == "generic":
            return Generic(self, spec, role)
        deps = [self.templates[d - 1] for d in spec["deps"]]
        template = Element(spec["n"], spec["ns"], role, deps if spec["listed"] else None, spec["append"])
        template.outer = self
        template.gives = spec["gives"]
        return template

    def element(self, name):
        elem = ar_element.Unit(name) if len(self.made) % 2 else ar_element.SwBaseType(name)
        self.made.append(elem)
        return elem

    def number(self, elem):
        return next((ix + 1 for ix, known in enumerate(self.made) if known is elem), 0)

    def _shown(self, got):
        if isinstance(got, str):
            return got
        ref = got.ref()
        if ref is None:
            return f"loose#{self.number(got)}"
        return f"el:{ref}#{self.number(got)}"

    def do(self, op):
        if op["op"] == "apply":
            template = self.templates[op["t"] - 1]
            return self._shown(self.ws.apply(template, arg=op["arg"]) if op["arg"] else self.ws.apply(template))
        if op["op"] == "put":
            package = self.ws.find("/" + "/".join(op["path"]))
            if not isinstance(package, ar_element.Package) or package.find(op["n"]) is not None:
                raise ValueError("cannot put")
            package.append(self.element(op["n"]))
            return "ok"
        return str(self.templates[op["t"] - 1].ref(self.ws))  # element templates only

    def proj(self):
        lines = []

        def walk(package, path):
            for elem in package.elements:
                found = "" if self.ws.find(f"{path}/{elem.name}") is elem and str(elem.ref()) == f"{path}/{elem.name}" else "?lookup"
                lines.append(f"{path}/{elem.name} {self.number(elem)}{found}")
            for sub in package.packages:
                lines.append(f"{path}/{sub.name} 0")
                walk(sub, f"{path}/{sub.name}")
        for package in self.ws.packages:
            lines.append(f"/{package.name} 0")
            walk(package, "/" + package.name)
        return lines + self.log


MC_CFG = """SPECIFICATION Spec
VIEW SeenAs
CHECK_DEADLOCK FALSE
CONSTANTS Depth = %d Gives = {%s} Wide = %s
INVARIANTS Unique Ordered
PROPERTIES Again
"""
TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS TInit <- TInitial TStep <- Step TProj <- Proj
"""


def gen_templates(rng):
    out = []
    loose = set()
    for ix in range(1, rng.randrange(3, 9)):
        deps = [d for d in rng.sample(range(1, ix), min(ix - 1, rng.randrange(0, 4))) if d not in loose]
        if rng.random() < 0.15:
            out.append({"kind": "generic", "n": rng.choice("abcd"), "ns": "N", "role": rng.choice(["UNIT", "BASE_TYPE", "!Mine"]), "deps": [],
                        "listed": False, "append": True, "gives": "text" if rng.random() < 0.1 else "elem"})
            continue
        gives = "elem"
        append = True
        pick = rng.random()
        if pick < 0.08:
            gives = rng.choice(["none", "text", "package", "raise"])
        elif pick < 0.2:
            gives, append = "own", False
        elif pick < 0.28:
            append = False
            loose.add(ix)
        ns, role = rng.choice([("N", "UNIT"), ("N", "BASE_TYPE"), ("N", "!Mine"), ("M", "UNIT"), ("M", "BASE_TYPE")])
        if rng.random() < 0.03:
            ns, role = rng.choice([("N", "CONSTANT"), ("Z", "UNIT"), ("M", "!Mine")])
        out.append({"kind": "elem", "n": rng.choice("abcdefg"), "ns": ns, "role": role, "deps": deps, "listed": bool(deps) or rng.random() < 0.5,
                    "append": append, "gives": gives})
    return out


def gen_trace(rng, length, cfg):
    count = len(cfg)
    asked = [ix + 1 for ix, t in enumerate(cfg) if t["kind"] == "elem"]

    def gen(_adapter):
        for _ in range(length):
            pick = rng.random()
            if pick < 0.75:
                yield {"op": "apply", "t": rng.randrange(1, count + 1), "arg": rng.choice(["", "", "x", "y"])}
            elif pick < 0.85:
                yield {"op": "put", "path": rng.choice([["P"], ["P", "B"], ["P", "B", "M"], ["Q"]]), "n": rng.choice("abcdefgB")}
            elif asked:
                yield {"op": "ref", "t": rng.choice(asked)}
    return gen


def c14(check):
    for depth, gives, wide in check.pick([(2, '"elem", "own"', "TRUE"), (3, '"elem", "none"', "FALSE")],
                                         [(3, '"elem", "own", "none", "raise"', "TRUE"), (4, '"elem", "text", "package"', "FALSE")]):
        res = tlc("TemplatesMC", MC_CFG % (depth, gives, wide), workers=6)
        check.add_tlc(res, f"TemplatesMC depth={depth}")
        replay_tests(check, TemplatesAdapter, res.records)
    rng = random.Random(f"{SEED}-c14")
    traces = []
    for _ in range(check.pick(500, 6000)):
        cfg = gen_templates(rng)
        traces.append((cfg, gen_trace(random.Random(rng.random()), 25, cfg)))
    validate_traces(check, "TemplatesTrace", TRACE_CFG, record_traces(TemplatesAdapter, traces), "TemplatesTrace")


CHECKS = {"C14": c14}
