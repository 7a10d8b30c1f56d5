"""C26: sub-elements and their owners (Containers.tla)"""
from common import tlc, replay_tests
import zlib
import mod_arxml
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element

NODES = {}


def item(kind, name, variant):
    """A fresh item of a kind; named items carry the name"""
    if kind == "=int":
        return 7
    if kind == "=text":
        return "/Refs/" + name
    if kind[0] == "@":
        if kind == "@ExclusiveAreaRefConditional":
            return ar_element.ExclusiveAreaRefConditional(ar_element.ExclusiveAreaRef("/Refs/" + name))
        cls = getattr(ar_element, kind[1:])
        dests = sorted(cls.accepted_sub_types(), key=str)
        return cls("/Refs/" + name, dests[variant % len(dests)])
    if kind == "=none":
        return None
    if kind == "=list":
        return []
    rec = NODES[kind, variant if variant < 4 else 0]
    obj = mod_arxml.build(rec["n"])
    if rec["named"] == "1":
        obj.name = name
    for field in mod_arxml.FIELDS[kind]:
        if field["a"] == "ident":
            obj.ident = getattr(ar_element, field["x"])(name)
    return obj


class ContainersAdapter:
    """Performs the operations of Containers.tla on one owner"""

    def __init__(self, cfg):
        self.cls = mod_arxml.py_class(cfg)
        self.of = cfg
        self.owner = None
        self.given = []  # (object, name) of everything handed over
        self.count = 0

    def _item(self, kind, name, twin=False):
        self.count += 1
        salt = "" if twin else self.count  # twins are equal in everything
        obj = item(kind, name, zlib.crc32(f"{self.of}/{kind}/{name}/{salt}".encode()) % 6)
        self.given.append((obj, name))
        return obj

    def do(self, op):
        if op["op"] == "new":
            items = [self._item(k, n) for k, n in zip(op["kinds"], op["names"])]
            self.owner = self._construct(op["a"], op["shape"], items)
            return "ok"
        if op["op"] == "append":
            thing = self._item(op["kind"], op["n"], op["was"] == "twin")
            if op["was"] == "owned":
                other = self._construct("", "none", [])
                other.name = "Other"
                getattr(other, op["m"])(thing)
            getattr(self.owner, op["m"])(thing)
            return "ok"
        if REFS.get((self.of, op["a"])):
            made = getattr(self.owner, op["m"])("/Refs/" + op["n"])
            held = getattr(self.owner, op["a"])[-1]
            return "new:" + (self._ref_name(op["a"], made) if held is made else "?not held")
        made = getattr(self.owner, op["m"])(op["n"])
        self.given.append((made, op["n"]))
        return "new:" + made.name

    def _ref_name(self, attr, obj):
        """The name of a reference that is held, if it is of the class the attribute holds"""
        if type(obj).__name__ != REFS[self.of, attr]:
            return f"?{type(obj).__name__}"
        path = str(obj.exclusive_area) if isinstance(obj, ar_element.ExclusiveAreaRefConditional) else str(obj)
        return path.removeprefix("/Refs/")

    def _construct(self, attr, shape, items):
        node = NODES["owner:" + self.of]
        params = mod_arxml.parameters(self.cls)
        kwargs = {}
        for field, vals in mod_arxml.settings(node):
            kwargs[mod_arxml.RENAME.get(field["a"], field["a"])] = mod_arxml.shaped(field, vals)
        for pname, par in params.items():
            if par.default is par.empty and pname not in kwargs and pname != "self":
                kwargs[pname] = None
        if shape != "none":
            pname = attr if attr in params else mod_arxml.RENAME[attr]
            kwargs[pname] = items if shape == "list" else items[0]
        owner = self.cls(**kwargs)
        if isinstance(owner, ar_element.Referrable):
            pkg = ar_element.Package("Pkg")
            ar_document.Document().append(pkg)
            if isinstance(owner, ar_element.CollectableElement):
                pkg.append(owner)
            else:
                owner.parent = pkg
        return owner

    def _name(self, obj):
        for known, name in reversed(self.given):
            if known is obj:
                return name
        return f"?{type(obj).__name__}"

    def _where(self, obj):
        ref = obj.ref() if hasattr(obj, "ref") else None
        if ref is not None:
            path = str(ref)
            owner = "/Pkg/" + self.owner.name + "/"
            return "owner/" + path[len(owner):] if path.startswith(owner) else path
        if hasattr(obj, "ref") and type(obj).ref is not ar_element.Referrable.ref:
            return "nowhere"
        return "owner/" + obj.name if obj.parent is self.owner else "elsewhere"

    def proj(self):
        if self.owner is None:
            return []
        lines = []
        for attr, named, find, titled in SLOTS[self.of]:
            held = mod_arxml.listed(getattr(self.owner, attr))
            if REFS.get((self.of, attr)):
                lines.append(attr + ":" + ",".join(self._ref_name(attr, o) for o in held))
                continue
            lines.append(attr + ":" + ",".join(self._name(o) for o in held))
            if titled:
                lines += ["ident " + self._where(o.ident) for o in held]
            if named:
                lines += [self._where(o) for o in held]
                if find:
                    lines += ["found " + self._name(getattr(self.owner, find)(o.name)) for o in held]
                    names = {self._name(o) for a, *_ in SLOTS[self.of] for o in mod_arxml.listed(getattr(self.owner, a))}
                    for near in ("I", "ite", "ITEM", "Items2", "item "):
                        if near not in names:
                            lines.append(f"no {near}" if getattr(self.owner, find)(near) is None else f"?found {near}")
        return lines


SLOTS = {}
REFS = {}  # (owner, attribute) -> class of the references it holds
MC_CFG = """SPECIFICATION Spec
VIEW SeenAs
CHECK_DEADLOCK FALSE
CONSTANTS Depth = %d Wide = %s Mark = ""
INVARIANTS OnePlace EmitKinds EmitItems
PROPERTIES InOrder
"""


def c26(check):
    mod_arxml.load(check, "fields", pairs="FALSE")
    res = tlc("ContainersMC", MC_CFG % check.pick((2, "FALSE"), (3, "TRUE")), workers=6)
    check.add_tlc(res, "ContainersMC")
    for rec in res.records:
        if rec.get("w") == "kind":
            NODES[rec["k"], int(rec["v"])] = rec
        elif rec.get("w") == "owner":
            NODES["owner:" + rec["o"]] = rec["n"]
            REFS.update({(rec["o"], s["a"]): s["held"] for s in rec["slots"] if s["held"]})
            SLOTS[rec["o"]] = [(s["a"], s["named"] == "1", s["find"], s["titled"] == "1") for s in rec["slots"]]
    replay_tests(check, ContainersAdapter, [r for r in res.records if "p" in r], key=lambda op: f"{op['op']}:{op.get('m', op.get('a'))}")


CHECKS = {"C26": c26}
