"""Binding of Documents.tla: C11 (configured documents) and C12 (document mappings)"""
import os
import random
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET
import autosar.xml.element as ar_element
import autosar.xml.workspace as ar_workspace
from common import SEED, replay_tests, record_traces, validate_traces, tlc

NS = "{http://autosar.org/schema/r4.0}"
SCHEMA = "{http://www.w3.org/2001/XMLSchema-instance}schemaLocation"


def _name(xml):
    return xml.find(NS + "SHORT-NAME").text


def _package_text(xml):
    parts = []
    for child in xml:
        if child.tag == NS + "ELEMENTS":
            parts += [f"{e.tag[len(NS):]} {_name(e)}" for e in child]
        elif child.tag == NS + "AR-PACKAGES":
            parts += [_package_text(p) for p in child]
        elif child.tag != NS + "SHORT-NAME":
            parts.append("?" + child.tag)
    return _name(xml) + "(" + ",".join(parts) + ")"


def file_text(path):
    """What a written file holds, parsed independently of the library"""
    try:
        root = ET.parse(path).getroot()
    except ET.ParseError as exc:
        return f"not XML: {exc}"
    if root.tag != NS + "AUTOSAR":
        return "root " + root.tag
    match = re.fullmatch(r"http://autosar.org/schema/r4.0 AUTOSAR_000(\d\d)\.xsd", root.attrib.get(SCHEMA, ""))
    version = match.group(1) if match else "no schema"
    packages = []
    for child in root:
        if child.tag == NS + "AR-PACKAGES":
            packages += [_package_text(p) for p in child]
        else:
            packages.append("?" + child.tag)
    return version + ":" + ",".join(packages)


class DocumentsAdapter:
    """Performs the operations of Documents.tla"""

    def __init__(self, cfg):
        self.scratch = tempfile.mkdtemp(prefix="vdocs")
        for name in ("cwd", "r1", "r2"):
            os.makedirs(os.path.join(self.scratch, name, "sub"))
        os.chdir(os.path.join(self.scratch, "cwd"))  # what is written relative to it shows as well
        root = {"document_root": os.path.join(self.scratch, cfg)} if cfg != "cwd" else {}
        self.ws = ar_workspace.Workspace(**root)
        self.nodes = []
        self.seen = []  # files in order of appearance

    def close(self):
        os.chdir("/")
        shutil.rmtree(self.scratch, ignore_errors=True)

    def _files(self):
        found = {}
        for top, _, names in os.walk(self.scratch):
            at = os.path.relpath(top, self.scratch)
            root, _, rest = at.partition(os.sep)
            found.setdefault(root, []).extend((rest + "/" if rest else "") + name for name in names)
        return [f"{root}/{name}" for root in sorted(found) for name in sorted(found[root])]

    def _id(self, obj):
        if obj is self.ws:
            return 0
        for ix, known in enumerate(self.nodes):
            if known is obj:
                return ix + 1
        return "?" if obj is not None else "none"

    def do(self, op):
        kind = op["op"]
        if kind == "make":
            made = self.ws.make_packages("/" + "/".join(op["path"]))
            at = self.ws
            for name in op["path"]:
                at = next(p for p in at.packages if p.name == name)
                if self._id(at) == "?":
                    self.nodes.append(at)
            return f"id:{self._id(made)}"
        if kind == "elem":
            package = self.ws.find("/" + "/".join(op["path"]))
            if not isinstance(package, ar_element.Package):
                raise ValueError("no such package")
            elem = getattr(ar_element, op["k"])(op["n"])
            package.append(elem)
            self.nodes.append(elem)
            return "ok"
        if kind == "doc":
            refs = ["/" + "/".join(p) for p in op["refs"]]
            if op["form"] == "none":
                self.ws.create_document(op["file"] + ".arxml")
            else:
                self.ws.create_document(op["file"] + ".arxml", refs[0] if op["form"] == "str" else refs)
            return "ok"
        if kind == "map":
            types = tuple(getattr(ar_element, t) for t in op["types"])
            one = op["form"] == "str"
            self.ws.create_document_mapping("/" + "/".join(op["ref"]), types[0] if one else types, op["sfx"][0] if one else op["sfx"])
            return "ok"
        if kind == "dir":
            self.ws.set_document_root(os.path.join(self.scratch, op["d"]))
            return "ok"
        try:
            self.ws.write_documents(op["ver"])
        except Exception:
            for name in self._files():
                os.unlink(os.path.join(self.scratch, name))
            raise
        return "ok"

    def proj(self):
        lines = []
        for ix, node in enumerate(self.nodes):
            ref = str(node.ref())
            lines.append(f"{ix + 1}|{ref}|{self._id(self.ws.find(ref))}|{self._id(node.parent)}")
        lines.append("top " + ",".join(str(self._id(p)) for p in self.ws.packages))
        return lines + [f"{name} {file_text(os.path.join(self.scratch, name))}" for name in self._files()]


MC_CFG = """SPECIFICATION Spec
VIEW SeenAs
CHECK_DEADLOCK FALSE
CONSTANTS Depth = %d WithDocs = %s WithMaps = %s Worlds = {%s} Rich = %s
INVARIANTS Configured
PROPERTIES OnlyReads
"""
TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS TInit <- DocInit TStep <- Step TProj <- Proj
"""
CLASSES = ["ApplicationSoftwareComponentType", "CompositionSwComponentType", "SwcImplementation", "Unit", "SenderReceiverInterface"]
TYPES = CLASSES + ["SwComponentType", "AtomicSoftwareComponentType", "PortInterface", "ARElement"]
NAMES = ["S", "S_Impl", "S_ImplX", "S_T", "T", "T_Impl", "T_T", "u", "R", "Impl", "S_T_Impl", "S_impl", "s", "s_Impl", "U"]
SUFFIXES = ["_Impl", "_T", "_T_Impl", "_ImplX", "", "X", "_none"]


def gen_trace(rng, length, docs, maps):
    """Random histories: build, configure, write, edit, write again"""
    paths = [["A"], ["a"], ["B"], ["A", "B"], ["A", "C"], ["B", "A"], ["A", "B", "C"]]

    def gen(_adapter):
        yield {"op": "make", "path": rng.choice(paths)}
        for _ in range(length):
            pick = rng.random()
            if pick < 0.12:
                yield {"op": "make", "path": rng.choice(paths)}
            elif pick < 0.55:
                yield {"op": "elem", "path": rng.choice(paths), "k": rng.choice(CLASSES), "n": rng.choice(NAMES)}
            elif pick < 0.65 and docs:
                refs = rng.sample(paths + [["A", "S"]] * (rng.random() < 0.05), rng.choice([1, 1, 1, 2]))
                form = rng.choice(["str", "list"]) if len(refs) == 1 else "list"
                if rng.random() < 0.05:
                    refs, form = [], "none"
                yield {"op": "doc", "file": rng.choice(["Main", "S", "x", "sub/S", "sub/Main"]), "form": form, "refs": refs}
            elif pick < 0.75 and maps:
                sfx = rng.sample(SUFFIXES, rng.randrange(0, 4))
                types = rng.sample(TYPES, rng.choice([1, 1, 2]))
                form = "str" if len(sfx) == 1 and len(types) == 1 and rng.random() < 0.7 else "list"
                yield {"op": "map", "ref": rng.choice(paths + [["A", "S"]] * (rng.random() < 0.05)), "types": types, "form": form, "sfx": sfx}
            elif pick < 0.78:
                yield {"op": "dir", "d": rng.choice(["r1", "r2"])}
            else:
                yield {"op": "write", "ver": rng.choice([48, 49, 50, 51])}
    return gen



def _run(check, docs, maps, salt):
    for worlds, depth, rich in check.pick([("1, 2, 3", 2, "TRUE"), ("1, 2, 3", 4, "FALSE")], [("1, 2, 3", 3, "TRUE"), ("1, 2, 3", 6, "FALSE")]):
        res = tlc("DocumentsMC", MC_CFG % (depth, str(docs).upper(), str(maps).upper(), worlds, rich), workers=6)
        check.add_tlc(res, f"DocumentsMC depth={depth}")
        replay_tests(check, DocumentsAdapter, res.records)
    rng = random.Random(f"{SEED}-{salt}")
    traces = record_traces(DocumentsAdapter, [(rng.choice(["r1", "r2", "cwd"]), gen_trace(random.Random(rng.random()), 40, docs, maps))
                                              for _ in range(check.pick(200, 3000))])
    validate_traces(check, "DocumentsTrace", TRACE_CFG, traces, "DocumentsTrace")


def c11(check):
    _run(check, True, False, "c11")


def c12(check):
    _run(check, False, True, "c12")
    if not check.quick:
        _run(check, True, True, "c12 both")


CHECKS = {"C11": c11, "C12": c12}
