"""Binding of Packages.tla: C09 (package tree) and C10 (path creation and keys)"""
import re
import random
import autosar.xml.element as ar_element
import autosar.xml.document as ar_document
import autosar.xml.workspace as ar_workspace
import autosar.xml.enumeration as ar_enum
from common import SEED, replay_tests, record_traces, validate_traces, tlc, run_ops


class PackagesAdapter:
    """Performs the operations of Packages.tla on a workspace or document"""

    def __init__(self, cfg):
        if cfg == "ws":
            self.root = ar_workspace.Workspace()
        elif cfg == "doc":
            self.root = ar_document.Document()
        else:
            self.root = ar_element.PackageCollection()
        self.objs = [self.root]
        self.others = []  # other collections

    # -- helpers

    def _id(self, obj):
        for ix, known in enumerate(self.objs):
            if known is obj:
                return ix + 1
        return None

    def _res(self, obj):
        if obj is None:
            return "none"
        ident = self._id(obj)
        return f"id:{ident}" if ident is not None else f"unknown:{type(obj).__name__}"

    def _ids(self, objs):
        return "ids:" + ",".join(str(self._id(o)) for o in objs)

    def _obj(self, num):
        return self.objs[num - 1]

    def _register_path(self, container, parts):
        for part in parts:
            found = [p for p in container.packages if p.name == part]
            if not found:
                return
            container = found[0]
            if self._id(container) is None:
                self.objs.append(container)

    def _new_element(self, kind, name, subs):
        if kind == "leaf":
            self.objs.append(ar_element.Unit(name))
            return self.objs[-1]
        if kind == "mdg":
            made = [ar_element.ModeDeclaration(s["n"]) for s in subs]
            elem = ar_element.ModeDeclarationGroup(name, mode_declarations=made)
        elif kind == "swc":
            elem = ar_element.ApplicationSoftwareComponentType(name)
            made = []
            for ix, sub in enumerate(subs):
                factory = (ar_element.ProvidePortPrototype, ar_element.RequirePortPrototype)[ix % 2]
                made.append(factory(sub["n"]))
                elem.append_port(made[-1])
        elif kind == "comp":
            elem = ar_element.CompositionSwComponentType(name)
            made = []
            for ix, sub in enumerate(subs):
                if ix % 2 == 0:
                    made.append(ar_element.SwComponentPrototype(sub["n"]))
                    elem.append_component(made[-1])
                else:
                    made.append(ar_element.ProvidePortPrototype(sub["n"]))
                    elem.append_port(made[-1])
        else:
            made = [ar_element.ImplementationDataTypeElement(s["n"]) for s in subs]
            elem = ar_element.ImplementationDataType(name)
            for sub, obj in zip(subs, made):
                owner = elem if sub["up"] == 0 else made[sub["up"] - 1]
                owner.append(obj)
        self.objs.append(elem)
        self.objs.extend(made)
        return elem

    # -- operations

    def do(self, op):
        kind = op["op"]
        if kind == "newpkg":
            self.objs.append(ar_element.Package(op["n"]))
            return self._res(self.objs[-1])
        if kind == "newelem":
            return self._res(self._new_element(op["kind"], op["n"], op["subs"]))
        if kind == "append":
            self._obj(op["c"]).append(self._obj(op["i"]))
            return "ok"
        if kind == "lend":
            self.others.append(ar_document.Document())
            self.others[-1].append(self._obj(op["i"]))
            return "ok"
        if kind == "createpkg":
            pkg = self._obj(op["c"]).create_package(op["n"])
            if isinstance(pkg, ar_element.Package) and self._id(pkg) is None:
                self.objs.append(pkg)
            return self._res(pkg)
        if kind == "make":
            container = self._obj(op["c"])
            try:
                return_value = container.make_packages(op["lead"] + "/".join(op["path"]))
            finally:
                if op["lead"] == "" or op["c"] == 1:
                    self._register_path(container, op["path"])
            return self._res(return_value)
        if kind == "makemany":
            made = self.root.make_packages(*["/" + "/".join(p) for p in op["paths"]])
            for path in op["paths"]:
                self._register_path(self.root, path)
            return self._ids([made] if len(op["paths"]) == 1 else made)
        if kind == "find":
            path = op["lead"] + "/".join(op["path"])
            return self._res(self._obj(op["c"]).find(path))
        if kind == "filter":
            return self._ids(self._obj(op["c"]).filter(*op["names"]))
        if kind == "filterpattern":
            pattern = {"start": "{}", "whole": "{}$", "within": ".*{}", "end": ".*{}$", "later": ".+{}", "any": ""}[op["how"]].format(op["n"])
            found = self._ids(self._obj(op["c"]).filter_regex(pattern))
            compiled = self._ids(self._obj(op["c"]).filter_regex(re.compile(pattern)))
            return found if found == compiled else f"{found} / compiled: {compiled}"
        if kind == "keymap":
            try:
                self.root.create_package_map({k: "/".join(p) for k, p in zip(op["keys"], op["paths"])})
            finally:
                for path in op["paths"]:
                    self._register_path(self.root, path)
            return "ok"
        if kind == "getkey":
            return self._res(self.root.get_package(op["key"]))
        if kind == "addkey":
            self.root.add_element(op["key"], self._obj(op["i"]))
            return "ok"
        if kind == "findkey":
            return self._res(self.root.find_element(op["key"], "/".join(op["path"])))
        raise ValueError(kind)

    # -- observable state

    def _subs(self, obj):
        if isinstance(obj, ar_element.ModeDeclarationGroup):
            return list(obj.mode_declarations) + list(obj.mode_transitions)
        if isinstance(obj, ar_element.CompositionSwComponentType):
            # the specification numbers sub-objects in order of creation, over both lists
            return sorted(list(obj.components) + list(obj.ports), key=lambda x: self._id(x) or 0)
        if isinstance(obj, ar_element.SwComponentType):
            return list(obj.ports)
        if isinstance(obj, (ar_element.ImplementationDataType, ar_element.ImplementationDataTypeElement)):
            return list(obj.sub_elements)
        return []

    def _ref(self, obj):
        ref = obj.ref()
        return "-" if ref is None else str(ref)

    def proj(self):
        lines = []
        for ix, obj in enumerate(self.objs[1:], 2):
            ref = self._ref(obj)
            found = "-"
            root = obj.root_collection()
            if ref != "-" and any(root is other for other in self.others):
                found = "away" if root.find(obj.ref()) is obj else "?away"
            elif ref != "-":
                try:
                    found = self._id(self.root.find(obj.ref()))
                    if found is None:
                        found = "none"
                except Exception as exc:  # pylint: disable=W0703
                    found = type(exc).__name__
            if (root is self.root) != (ref != "-") and found != "away":
                found = f"root_collection={type(root).__name__}"
            parent = 0 if obj.parent is None or any(obj.parent is other for other in self.others) else self._id(obj.parent)
            pks = obj.packages if isinstance(obj, ar_element.Package) else []
            els = obj.elements if isinstance(obj, ar_element.Package) else []
            num = lambda seq: ",".join(str(self._id(x)) for x in seq)  # noqa E731
            lines.append(f"{ix}|{obj.name}|{ref}|{found}|{parent}|p{num(pks)}|e{num(els)}|s{num(self._subs(obj))}")
        lines.append("root p" + ",".join(str(self._id(x)) for x in self.root.packages))
        return lines


MC_CFG = """SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Names = {%(names)s} MaxObjs = %(objs)d Kinds = {%(kinds)s} MaxPath = %(path)d Keys = {%(keys)s}
INVARIANTS InvUnique InvRefLookup InvInjective InvOwner InvKeys InvIdempotent EmitLookups
PROPERTIES RefStable
"""
TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS TInit <- PInit TStep <- Step TProj <- Proj
"""


def replay_lookups(check, records):
    """One record per specification state: all lookups, asked after the history"""
    n = 0
    for rec in records:
        got = run_ops(PackagesAdapter, "ws", rec["h"] + rec["q"], projected="none")
        n += len(rec["q"])
        if len(got) != len(rec["h"]) + len(rec["q"]):
            check.violation("lookup:stopped", {"ops": rec["h"] + rec["q"], "got": got[-1]})
            continue
        for op, want, (res, _proj) in zip(rec["q"], rec["qr"], got[len(rec["h"]):]):
            if res != want:
                check.violation("lookup:" + op["op"], {"ops": rec["h"] + [op], "want_result": want, "got_result": res})
                break
    check.cov["lookups_compared"] = check.cov.get("lookups_compared", 0) + n


NAMES = ["A", "B", "Ab", "Pkg", "x1", "Long_Name_2"]


def gen_trace(rng, length, keys):
    """Yields random operations; only uses what the adapter shows (object kinds and parents)"""
    names = rng.sample(NAMES, rng.randint(2, 4))

    def path(maxlen=4, extra=()):
        return [rng.choice(names + list(extra)) for _ in range(rng.randint(1, maxlen))]

    def gen(ad):
        paths = []
        for _ in range(length):
            conts = [i + 1 for i, o in enumerate(ad.objs) if i == 0 or isinstance(o, ar_element.Package)]
            pkgs = conts[1:]
            free = lambda o: o.parent is None or any(o.parent is other for other in ad.others)  # noqa E731
            loose = [i + 1 for i, o in enumerate(ad.objs) if i > 0 and free(o)]
            elems = [i + 1 for i, o in enumerate(ad.objs) if isinstance(o, ar_element.ARElement)]
            if len(ad.objs) > 24:
                choice = rng.choice(["find", "find", "filter", "findkey", "getkey"])
            else:
                choice = rng.choice(["newpkg", "newelem", "newelem", "append", "append", "append", "lend", "createpkg", "make", "make",
                                     "makemany", "find", "find", "filter", "filterpattern", "filterpattern"]
                                    + (["keymap", "getkey", "addkey", "addkey", "findkey", "findkey"] * (3 if keys else 0)))
            if choice in ("keymap", "getkey", "addkey", "findkey") and not keys:
                choice = "find"
            if choice == "newpkg":
                yield {"op": "newpkg", "n": rng.choice(names)}
            elif choice == "newelem":
                kind = rng.choice(["leaf", "mdg", "swc", "idt", "comp"])
                subs = []
                for k in range(0 if kind == "leaf" else rng.randint(0, 3)):
                    up = rng.randint(0, k) if kind == "idt" else 0
                    subs.append({"n": f"s{k}", "up": up})
                yield {"op": "newelem", "kind": kind, "n": rng.choice(names), "subs": subs}
            elif choice == "append":
                if not loose:
                    continue
                item = rng.choice(loose)
                cands = []
                for cont in conts:
                    top = ad.objs[cont - 1]
                    while not free(top):
                        top = top.parent
                    if top is not ad.objs[item - 1]:
                        cands.append(cont)
                # prefer deep containers; the root refuses elements
                yield {"op": "append", "c": rng.choice(cands), "i": item}
            elif choice == "lend":
                items = [i for i in loose if i in pkgs and ad.objs[i - 1].parent is None]
                if items:
                    yield {"op": "lend", "i": rng.choice(items)}
            elif choice == "createpkg":
                yield {"op": "createpkg", "c": rng.choice(conts), "n": rng.choice(names)}
            elif choice == "make":
                cont = rng.choice(conts + [1])
                lead = rng.choice(["", "", "/"]) if cont != 1 else rng.choice(["", "/"])
                p = path()
                paths.append(p)
                yield {"op": "make", "c": cont, "path": p, "lead": lead}
            elif choice == "makemany":
                # names of their own, so that no element stands in the way
                ps = [[rng.choice(["P", "Q", "R"]) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]
                paths.extend(ps)
                yield {"op": "makemany", "paths": ps}
            elif choice == "find":
                roll = rng.random()
                if roll < 0.4 and len(ad.objs) > 1:
                    target = ad.objs[rng.randint(1, len(ad.objs) - 1)]
                    ref = target.ref()
                    parts = str(ref)[1:].split("/") if ref is not None else path()
                    if rng.random() < 0.4:
                        parts = parts + [rng.choice(["s0", "s1", "s2", names[0]])]
                    yield {"op": "find", "c": 1, "path": parts, "lead": rng.choice(["/", "/", "/", "", "", "//", "/./"])}
                elif roll < 0.8:
                    yield {"op": "find", "c": rng.choice(conts), "path": path(4, ["s0", "s1"]), "lead": ""}
                else:
                    yield {"op": "find", "c": 1, "path": rng.choice(paths) if paths else [], "lead": "/"}
            elif choice in ("filter", "filterpattern"):
                if not pkgs:
                    continue
                if choice == "filter":
                    yield {"op": "filter", "c": rng.choice(pkgs), "names": rng.sample(names, rng.randint(0, 2))}
                else:
                    yield {"op": "filterpattern", "c": rng.choice(pkgs), "how": rng.choice(["start", "whole", "within", "end", "later", "any"]),
                           "n": rng.choice(["A", "B", "b", "x1", "Pkg", "kg", "1", "Name", "_2"])}
            elif choice == "keymap":
                num = rng.randint(1, 3)
                yield {"op": "keymap", "keys": [f"k{i}" for i in range(num)],
                       "paths": [[rng.choice(["P", "Q", "R"]) for _ in range(rng.randint(1, 3))] for _ in range(num)]}
            elif choice == "getkey":
                yield {"op": "getkey", "key": f"k{rng.randint(0, 3)}"}
            elif choice == "findkey":
                yield {"op": "findkey", "key": f"k{rng.randint(0, 3)}", "path": path(2, ["s0", "P", "Q"]), "lead": ""}
            elif choice == "addkey":
                if not loose:
                    continue
                item = rng.choice(loose)
                if isinstance(ad.objs[item - 1], ar_element.Package) and elems:
                    continue
                yield {"op": "addkey", "key": f"k{rng.randint(0, 3)}", "i": item}
    return gen


def _traces(check, count, length, keys, salt):
    rng = random.Random(f"{SEED}-{salt}")
    kinds = ["ws"] if keys else ["ws", "doc", "col"]
    return record_traces(PackagesAdapter, [(rng.choice(kinds), gen_trace(random.Random(rng.random()), length, keys))
                                           for _ in range(count)])


def check_c09(check):
    runs = check.pick([('"A", "BA"', 4, '"leaf"', 2)],
                      [('"A", "B"', 4, '"leaf", "mdg"', 2), ('"A", "B"', 5, '"idt"', 2), ('"A", "B", "C"', 4, '"leaf"', 2)])
    for names, objs, kinds, path in runs:
        res = tlc("PackagesMC", MC_CFG % {"names": names, "objs": objs, "kinds": kinds, "path": path, "keys": ""}, workers=6)
        check.add_tlc(res, f"PackagesMC objs={objs} kinds={kinds}")
        replay_lookups(check, [r for r in res.records if "q" in r])
        replay_tests(check, PackagesAdapter, [r for r in res.records if "p" in r])
    validate_traces(check, "PackagesTrace", TRACE_CFG, _traces(check, check.pick(400, 4000), 40, False, "c09"), "PackagesTrace")


def check_c10(check):
    runs = check.pick([('"A", "B"', 4, '"leaf"', 2)], [('"A", "B"', 5, '"leaf"', 2)])
    for names, objs, kinds, path in runs:
        res = tlc("PackagesMC", MC_CFG % {"names": names, "objs": objs, "kinds": kinds, "path": path, "keys": '"k1", "k2", "k3"'},
                  workers=6)
        check.add_tlc(res, f"PackagesMC keys objs={objs}")
        replay_lookups(check, [r for r in res.records if "q" in r])
        replay_tests(check, PackagesAdapter, [r for r in res.records if "p" in r])
    validate_traces(check, "PackagesTrace", TRACE_CFG, _traces(check, check.pick(400, 4000), 40, True, "c10"), "PackagesTrace")


CHECKS = {"C09": check_c09, "C10": check_c10}
