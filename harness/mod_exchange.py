"""Binding of Exchange.tla: C06 (faulty, duplicate and unknown content), C07 (document files), C08 (no state between uses)"""
import contextlib
import io
import os
import random
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_reference
from autosar.xml.reader import Reader
from autosar.xml.writer import Writer
import mod_alone
import mod_arxml
from concurrent.futures import ProcessPoolExecutor
from common import SEED, replay_tests, record_traces, validate_traces, tlc

NS = "http://autosar.org/schema/r4.0"
AREA = {"new": "<CAN-ENTERS><EXCLUSIVE-AREA-REF-CONDITIONAL><EXCLUSIVE-AREA-REF DEST=\"EXCLUSIVE-AREA\">/EA</EXCLUSIVE-AREA-REF>"
               "</EXCLUSIVE-AREA-REF-CONDITIONAL></CAN-ENTERS>",
        "old": "<CAN-ENTER-EXCLUSIVE-AREA-REFS><CAN-ENTER-EXCLUSIVE-AREA-REF DEST=\"EXCLUSIVE-AREA\">/EA</CAN-ENTER-EXCLUSIVE-AREA-REF>"
               "</CAN-ENTER-EXCLUSIVE-AREA-REFS>", "none": ""}
SWC = ("<APPLICATION-SW-COMPONENT-TYPE><SHORT-NAME>{n}</SHORT-NAME><INTERNAL-BEHAVIORS><SWC-INTERNAL-BEHAVIOR><SHORT-NAME>IB</SHORT-NAME>"
       "<RUNNABLES><RUNNABLE-ENTITY><SHORT-NAME>Run</SHORT-NAME>{area}</RUNNABLE-ENTITY></RUNNABLES></SWC-INTERNAL-BEHAVIOR></INTERNAL-BEHAVIORS>"
       "</APPLICATION-SW-COMPONENT-TYPE>")
ARR = ("<IMPLEMENTATION-DATA-TYPE><SHORT-NAME>{n}</SHORT-NAME><CATEGORY>ARRAY</CATEGORY><SUB-ELEMENTS><IMPLEMENTATION-DATA-TYPE-ELEMENT>"
       "<SHORT-NAME>E</SHORT-NAME><ARRAY-IMPL-POLICY>PAYLOAD-AS-ARRAY</ARRAY-IMPL-POLICY></IMPLEMENTATION-DATA-TYPE-ELEMENT></SUB-ELEMENTS>"
       "</IMPLEMENTATION-DATA-TYPE>")
SCALE = ("<COMPU-METHOD><SHORT-NAME>{n}</SHORT-NAME><COMPU-INTERNAL-TO-PHYS><COMPU-SCALES><COMPU-SCALE>%s</COMPU-SCALE></COMPU-SCALES>"
         "</COMPU-INTERNAL-TO-PHYS></COMPU-METHOD>")
BAD = {
    "noname": "<UNIT><DISPLAY-NAME>x</DISPLAY-NAME></UNIT>",
    "number": "<SW-BASE-TYPE><SHORT-NAME>{n}</SHORT-NAME><BASE-TYPE-SIZE>eight</BASE-TYPE-SIZE></SW-BASE-TYPE>",
    "enum": "<SW-BASE-TYPE><SHORT-NAME>{n}</SHORT-NAME><BYTE-ORDER>SIDEWAYS</BYTE-ORDER></SW-BASE-TYPE>",
    "factor": "<UNIT><SHORT-NAME>{n}</SHORT-NAME><FACTOR-SI-TO-UNIT>much</FACTOR-SI-TO-UNIT></UNIT>",
    "bool": "<SENDER-RECEIVER-INTERFACE><SHORT-NAME>{n}</SHORT-NAME><IS-SERVICE>perhaps</IS-SERVICE></SENDER-RECEIVER-INTERFACE>",
    "dest": "<UNIT><SHORT-NAME>{n}</SHORT-NAME><PHYSICAL-DIMENSION-REF DEST=\"UNIT\">/x</PHYSICAL-DIMENSION-REF></UNIT>",
    "nosuchdest": "<UNIT><SHORT-NAME>{n}</SHORT-NAME><PHYSICAL-DIMENSION-REF DEST=\"NO-SUCH\">/x</PHYSICAL-DIMENSION-REF></UNIT>",
    "inner": "<SENDER-RECEIVER-INTERFACE><SHORT-NAME>{n}</SHORT-NAME><DATA-ELEMENTS><VARIABLE-DATA-PROTOTYPE><CATEGORY>VALUE</CATEGORY>"
             "</VARIABLE-DATA-PROTOTYPE></DATA-ELEMENTS></SENDER-RECEIVER-INTERFACE>",
    "deep": "<APPLICATION-SW-COMPONENT-TYPE><SHORT-NAME>{n}</SHORT-NAME><INTERNAL-BEHAVIORS><SWC-INTERNAL-BEHAVIOR><SHORT-NAME>IB</SHORT-NAME>"
            "<RUNNABLES><RUNNABLE-ENTITY><SHORT-NAME>Run</SHORT-NAME><MINIMUM-START-INTERVAL>soon</MINIMUM-START-INTERVAL></RUNNABLE-ENTITY></RUNNABLES>"
            "</SWC-INTERNAL-BEHAVIOR></INTERNAL-BEHAVIORS></APPLICATION-SW-COMPONENT-TYPE>",
    "interval": "<DATA-CONSTR><SHORT-NAME>{n}</SHORT-NAME><DATA-CONSTR-RULES><DATA-CONSTR-RULE><PHYS-CONSTRS><LOWER-LIMIT INTERVAL-TYPE=\"AJAR\">0"
                "</LOWER-LIMIT></PHYS-CONSTRS></DATA-CONSTR-RULE></DATA-CONSTR-RULES></DATA-CONSTR>",
    "nodest": "<UNIT><SHORT-NAME>{n}</SHORT-NAME><PHYSICAL-DIMENSION-REF>/x</PHYSICAL-DIMENSION-REF></UNIT>",
    "nolanguage": "<UNIT><SHORT-NAME>{n}</SHORT-NAME><LONG-NAME><L-4>x</L-4></LONG-NAME></UNIT>",
    "language": "<UNIT><SHORT-NAME>{n}</SHORT-NAME><LONG-NAME><L-4 L=\"XX\">x</L-4></LONG-NAME></UNIT>",
    "inline": "<UNIT><SHORT-NAME>{n}</SHORT-NAME><LONG-NAME><L-4 L=\"EN\">x<QUX>y</QUX></L-4></LONG-NAME></UNIT>",
    "emptynumber": "<SW-BASE-TYPE><SHORT-NAME>{n}</SHORT-NAME><BASE-TYPE-SIZE/></SW-BASE-TYPE>",
    "twovalues": SCALE % "<COMPU-CONST><V>1</V><VT>one</VT></COMPU-CONST>",
    "novalue": SCALE % "<COMPU-CONST/>",
    "twokinds": SCALE % ("<COMPU-CONST><V>1</V></COMPU-CONST><COMPU-RATIONAL-COEFFS><COMPU-NUMERATOR><V>0</V><V>1</V></COMPU-NUMERATOR>"
                         "<COMPU-DENOMINATOR><V>1</V></COMPU-DENOMINATOR></COMPU-RATIONAL-COEFFS>"),
    "modes": "<APPLICATION-SW-COMPONENT-TYPE><SHORT-NAME>{n}</SHORT-NAME><INTERNAL-BEHAVIORS><SWC-INTERNAL-BEHAVIOR><SHORT-NAME>IB</SHORT-NAME>"
             "<EVENTS><SWC-MODE-SWITCH-EVENT><SHORT-NAME>Ev</SHORT-NAME><MODE-IREFS>" + 3 * ("<MODE-IREF><TARGET-MODE-DECLARATION-REF "
             "DEST=\"MODE-DECLARATION\">/m</TARGET-MODE-DECLARATION-REF></MODE-IREF>") + "</MODE-IREFS></SWC-MODE-SWITCH-EVENT></EVENTS>"
             "</SWC-INTERNAL-BEHAVIOR></INTERNAL-BEHAVIORS></APPLICATION-SW-COMPONENT-TYPE>",
}
ADMIN = {
    "language": "<LANGUAGE>EN</LANGUAGE><USED-LANGUAGES><L-10 L=\"EN\" xml:space=\"preserve\">x</L-10></USED-LANGUAGES>",
    "revisions": "<DOC-REVISIONS><DOC-REVISION><REVISION-LABEL>1.0</REVISION-LABEL></DOC-REVISION></DOC-REVISIONS>",
    "group": "<SDGS><SDG GID=\"G\"><SD GID=\"D\">x</SD></SDG><SDG GID=\"H\"><SD GID=\"D\"/><SD GID=\"E\">x</SD></SDG></SDGS>",
    "plain data": "<SDGS><SDG GID=\"G\"><SD>x</SD></SDG></SDGS>",
    "nested group": "<SDGS><SDG GID=\"G\"><SDG GID=\"H\"><SD GID=\"D\">x</SD></SDG></SDG></SDGS>",
    "empty group": "<SDGS><SDG GID=\"G\"/></SDGS>", "no groups": "<SDGS/>", "nothing": "",
}
PROSE = {"L-2": "<DESC><L-2 L=\"EN\">before <{t}>x</{t}> after</L-2></DESC>",
         "L-1": "<INTRODUCTION><P><L-1 L=\"EN\">before <{t}>x</{t}> after</L-1></P></INTRODUCTION>",
         "L-5": "<INTRODUCTION><VERBATIM><L-5 L=\"EN\">before <{t}>x</{t}> after</L-5></VERBATIM></INTRODUCTION>"}
REMARK = {"comment": "<!-- a remark -->", "pi": "<?note a remark?>", "text": "stray", "twice": "<!-- a --><!-- b -->"}


def item_xml(item):
    kind, name, val = item["k"], item["n"], item["v"]
    if kind == "unit":
        return f"<UNIT><SHORT-NAME>{name}</SHORT-NAME></UNIT>"
    if kind == "admin":
        return f"<UNIT><SHORT-NAME>{name}</SHORT-NAME><ADMIN-DATA>{ADMIN[val]}</ADMIN-DATA></UNIT>"
    if kind == "prose":
        place, tag = val.split(" ")
        return f"<UNIT><SHORT-NAME>{name}</SHORT-NAME>{PROSE[place].format(t=tag)}</UNIT>"
    if kind == "inner":
        return f"<UNIT><SHORT-NAME>{name}</SHORT-NAME><{val}>x</{val}></UNIT>"
    if kind == "base":
        return f"<SW-BASE-TYPE><SHORT-NAME>{name}</SHORT-NAME><BASE-TYPE-SIZE>{val}</BASE-TYPE-SIZE></SW-BASE-TYPE>"
    if kind == "swc":
        return SWC.format(n=name, area=AREA[val])
    if kind == "arr":
        return ARR.format(n=name)
    if kind == "foreign":
        return f"<{val}><SHORT-NAME>{name}</SHORT-NAME></{val}>"
    if kind == "remark":
        return REMARK[val]
    return BAD[val].format(n=name)


def source_xml(src):
    """The text of a source and the number of the item on each of its lines"""
    lines, numbers = [], {}
    count = [0]

    def put(text, counted=False):
        lines.append(text)
        if counted:
            count[0] += 1
            numbers[len(lines)] = count[0]

    def package(pkg):
        put(f"<AR-PACKAGE><SHORT-NAME>{pkg['n']}</SHORT-NAME>", True)
        if pkg["els"]:
            put("<ELEMENTS>")
            for item in pkg["els"]:
                put(item_xml(item), True)
            put("</ELEMENTS>")
        if pkg["subs"]:
            put("<AR-PACKAGES>")
            for sub in pkg["subs"]:
                package(sub)
            put("</AR-PACKAGES>")
        if pkg["odd"]:
            put("<REFERENCE-BASES/>")
        put("</AR-PACKAGE>")
    put('<?xml version="1.0" encoding="utf-8"?>')
    if src["ver"]:
        put(f'<AUTOSAR xsi:schemaLocation="{NS} AUTOSAR_{src["ver"]:05d}.xsd" xmlns="{NS}" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">')
    else:
        put(f'<AUTOSAR xmlns="{NS}">')
    if src["pkgs"]:
        put("<AR-PACKAGES>")
        for pkg in src["pkgs"]:
            package(pkg)
        put("</AR-PACKAGES>")
    put("</AUTOSAR>")
    return "\n".join(lines), numbers


def make(item):
    kind, name, val = item["k"], item["n"], item["v"]
    if kind == "unit":
        return ar_element.Unit(name)
    if kind == "base":
        return ar_element.SwBaseType(name, size=int(val))
    if kind == "arr":
        return ar_element.ImplementationDataType(name, category="ARRAY", sub_elements=[
            ar_element.ImplementationDataTypeElement("E", array_impl_policy=ar_enum.ArrayImplPolicy.PAYLOAD_AS_ARRAY)])
    area = ar_element.ExclusiveAreaRefConditional(ar_reference.ExclusiveAreaRef("/EA")) if val == "area" else None
    swc = ar_element.ApplicationSoftwareComponentType(name)
    behavior = swc.create_internal_behavior("IB")
    behavior.append_runnable(ar_element.RunnableEntity("Run", can_enter_leave=area))
    return swc


def shown(elem):
    if isinstance(elem, ar_element.Unit):
        words = [part for text in [elem.desc] + (elem.introduction.elements if elem.introduction else [])
                 for lang in (text.elements if text else []) for part in lang.parts]
        return "unit " + elem.name + ("" if "".join(map(str, words)) in ("", "before  after") else f" ?{words}")
    if isinstance(elem, ar_element.SwBaseType):
        return f"base {elem.name}={elem.size}"
    if isinstance(elem, ar_element.ImplementationDataType):
        policy = [e.array_impl_policy is ar_enum.ArrayImplPolicy.PAYLOAD_AS_ARRAY for e in elem.sub_elements]
        return f"arr {elem.name}" + ("" if policy == [True] else "?")
    if isinstance(elem, ar_element.ApplicationSoftwareComponentType):
        runnable = elem.internal_behavior.runnables[0]
        areas = [str(getattr(a, "exclusive_area", "?" + type(a).__name__)) for a in runnable.can_enter_leave]
        return f"swc {elem.name}=" + ("area" if areas == ["/EA"] else "none" if not areas else "?")
    return "?" + type(elem).__name__


def shown_package(package, up):
    parts = [shown(e) + ("" if e.parent is package else "?owner") for e in package.elements]
    parts += [shown_package(p, package) for p in package.packages]
    return package.name + "(" + ",".join(parts) + ")" + ("" if package.parent is up else "?owner")


def shown_doc(doc):
    return f"{doc.schema_version}:" + ",".join(shown_package(p, doc) for p in doc.packages)


def _q(tag):
    return "{" + NS + "}" + tag


def text_item(xml):
    """An element as written, parsed independently of the library"""
    for node in xml.iter():
        if isinstance(node.tag, str) and not node.tag.startswith("{"):
            node.tag = _q(node.tag)
    name = xml.findtext(_q("SHORT-NAME"))
    tag = xml.tag.rsplit("}", 1)[-1]
    if tag == "UNIT":
        return "unit " + name
    if tag == "SW-BASE-TYPE":
        return f"base {name}=" + (xml.findtext(_q("BASE-TYPE-SIZE")) or "")
    if tag == "IMPLEMENTATION-DATA-TYPE":
        policy = [e.text for e in xml.iter(_q("ARRAY-IMPL-POLICY"))]
        return f"arr {name}" + ("" if policy == ["PAYLOAD-AS-ARRAY"] else "?")
    if tag == "APPLICATION-SW-COMPONENT-TYPE":
        new = [e.text for e in xml.iter(_q("EXCLUSIVE-AREA-REF"))]
        old = [e.text for e in xml.iter(_q("CAN-ENTER-EXCLUSIVE-AREA-REF"))]
        return f"swc {name}=" + {(0, 0): "none", (1, 0): "new", (0, 1): "old"}.get((len(new), len(old)), "?")
    return "?" + tag


def text_package(xml):
    parts = []
    for child in xml:
        if child.tag == _q("ELEMENTS"):
            parts += [text_item(e) for e in child]
        elif child.tag == _q("AR-PACKAGES"):
            parts += [text_package(p) for p in child]
        elif child.tag != _q("SHORT-NAME"):
            parts.append("?" + child.tag)
    return xml.findtext(_q("SHORT-NAME")) + "(" + ",".join(parts) + ")"


def text_doc(text):
    root = ET.fromstring(text)
    for node in root.iter():
        if not node.tag.startswith("{"):
            node.tag = _q(node.tag)
    if root.tag != _q("AUTOSAR"):
        return "?" + root.tag
    location = root.attrib.get("{http://www.w3.org/2001/XMLSchema-instance}schemaLocation", "")
    match = re.fullmatch(re.escape(NS) + r" AUTOSAR_000(\d\d)\.xsd", location)
    version = match.group(1) if match else "?" if location else "0"
    packages = []
    for child in root:
        packages += [text_package(p) for p in child] if child.tag == _q("AR-PACKAGES") else ["?" + child.tag]
    return version + ":" + ",".join(packages)


class ExchangeAdapter:
    """Performs the operations of Exchange.tla; every use is also made of a new reader or writer, which must do the same"""

    def __init__(self, cfg):
        self.scratch = tempfile.mkdtemp(prefix="vexch")
        self.cfg = cfg
        self.readers = [self.new_reader(c) for c in cfg["readers"]]
        self.writers = [Writer(schema_version=v) for v in cfg["writers"]]
        self.docs = []

    @staticmethod
    def new_reader(conf):
        return Reader(warn_on_unprocessed_element=conf["warn"], use_full_path_on_warning=conf["full"], schema_version=conf["ver"])

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def messages(self, out, err, numbers, path):
        """The reports as the specification lists them"""
        def where(name):
            return {"": "", path: "full", os.path.basename(path): "base"}.get(name, "?" + name)
        bad, tags = [], []
        for line in (out + err).splitlines():
            if line.startswith(" "):
                continue  # what is wrong, below the message
            match = re.match(r"(?:(.*)\((\d+)\): )?Unprocessed element <(.*)>$", line)
            if match:
                if line not in err.splitlines():
                    tags.append(("?stdout", line))
                tags.append((match.group(3), where(match.group(1) or "")))
                continue
            match = re.match(r"(.*)\((\d+)\): ", line)
            if match and int(match.group(2)) in numbers:
                entry = (numbers[int(match.group(2))], where(match.group(1)))
                if entry not in bad:
                    bad.append(entry)
        return "; ".join([f"bad {n} {w}" for n, w in sorted(bad)] + [f"tag {t} {w}" for t, w in sorted(tags)])

    def read(self, reader, op):
        text, numbers = source_xml(op["src"])
        if op["broken"]:
            text = text[:-3]
        path = os.path.join(self.scratch, "in.arxml")
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                if op["form"] == "str":
                    doc = reader.read_str(text, op["stop"])
                else:
                    with open(path, "w", encoding="utf-8") as fp:
                        fp.write(text)
                    doc = reader.read_file(path, op["stop"])
            except Exception:  # pylint: disable=W0703
                return None, "err"
        return doc, "read " + self.messages(out.getvalue(), err.getvalue(), numbers, path)

    def readelem(self, reader, op):
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                elem = reader.read_str_elem(item_xml(op["item"]))
            except Exception:  # pylint: disable=W0703
                return "err"
        return "read " + shown(elem) + " " + self.messages(out.getvalue(), err.getvalue(), {}, os.path.join(self.scratch, "in.arxml"))

    def text(self, writer, doc, form):
        if form == "file":
            path = os.path.join(self.scratch, "out.arxml")
            writer.write_file(doc, path)
            with open(path, "rb") as fp:
                return fp.read().decode("utf-8")
        return writer.write_str(doc, form == "bare")

    def elem_text(self, writer, elem, form):
        if form == "file":
            path = os.path.join(self.scratch, "elem.arxml")
            writer.write_file_elem(elem, path)
            with open(path, "rb") as fp:
                return fp.read().decode("utf-8")
        return writer.write_str_elem(elem)

    def attempt(self, func, *args):
        try:
            return func(*args)
        except Exception:  # pylint: disable=W0703
            return None

    def do(self, op):
        kind = op["op"]
        if kind == "build":
            def package(src):
                made = ar_element.Package(src["n"])
                for item in src["els"]:
                    made.append(make(item))
                for sub in src["subs"]:
                    made.append(package(sub))
                return made
            self.docs.append(ar_document.Document([package(p) for p in op["doc"]["pkgs"]], schema_version=op["doc"]["ver"]))
            return "ok"
        if kind == "read":
            doc, res = self.read(self.readers[op["r"] - 1], op)
            other, new = self.read(self.new_reader(self.cfg["readers"][op["r"] - 1]), op)
            if doc is not None:
                self.docs.append(doc)
            if res != new or (doc is not None and shown_doc(doc) != shown_doc(other)):
                return f"{res} (a new reader: {new})"
            return res
        if kind == "readelem":
            res = self.readelem(self.readers[op["r"] - 1], op)
            new = self.readelem(self.new_reader(self.cfg["readers"][op["r"] - 1]), op)
            return res if res == new else f"{res} (a new reader: {new})"
        if kind == "write":
            doc = self.docs[op["d"] - 1]
            text = self.attempt(self.text, self.writers[op["w"] - 1], doc, op["form"])
            new = self.attempt(self.text, Writer(schema_version=self.cfg["writers"][op["w"] - 1]), doc, op["form"])
            if text != new:
                return "not what a new writer writes"
            return "wrote " + text_doc(text.encode()) if text is not None else "err"
        if kind == "writeelem":
            elem = make({**op["item"], "v": "area" if op["item"]["v"] == "area" else op["item"]["v"]})
            text = self.attempt(self.elem_text, self.writers[op["w"] - 1], elem, op["form"])
            new = self.attempt(self.elem_text, Writer(schema_version=self.cfg["writers"][op["w"] - 1]), elem, op["form"])
            if text != new:
                return "not what a new writer writes"
            return "wrote " + text_item(ET.fromstring(text)) if text is not None else "err"
        if kind == "cycle":
            doc = self.docs[op["d"] - 1]
            text = self.text(Writer(), doc, op["form"])
            if op["form"] == "file":
                back = Reader().read_file(os.path.join(self.scratch, "out.arxml"))
            else:
                back = Reader().read_str(text)
            self.docs.append(back)
            again = self.attempt(self.text, Writer(), back, op["form"])
            return back.schema_file + (" again the same" if again == text else " again")
        package = self.docs[op["d"] - 1].packages[0]
        package.append(ar_element.Unit(op["n"]))
        return "ok"

    def proj(self):
        return [shown_doc(doc) for doc in self.docs]


MC_CFG = """SPECIFICATION Spec
VIEW SeenAs
CHECK_DEADLOCK FALSE
CONSTANTS Part = "%s" Depth = %d Size = %d
INVARIANTS Kept
PROPERTIES NothingRemembered
"""
TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS TInit <- XInit TStep <- XStep TProj <- XProj
"""


def gen_items(rng, count, faults):
    items = []
    for ix in range(count):
        pick = rng.random()
        name = rng.choice(["a", "b", "c", "d", "e", "f", "g", "A", "Ab", "AB"])
        if pick < 0.55 or not faults:
            kind = rng.choice(["unit", "base", "swc", "arr"])
            val = {"unit": "", "base": str(rng.choice([8, 16, 32])), "arr": ""}.get(kind)
            if val is None:
                val = rng.choice(["old", "new", "new", "none"]) if faults else rng.choice(["area", "none"])
            items.append({"k": kind, "n": name, "v": val})
        elif pick < 0.6:
            items.append({"k": "admin", "n": name, "v": rng.choice(list(ADMIN))})
        elif pick < 0.63:
            tag = rng.choice(["L-2 FT", "L-2 TRACE-REF", "L-1 FT", "L-1 STD", "L-1 XDOC", "L-1 XFILE", "L-5 XREF", "L-1 XREF-TARGET"])
            items.append({"k": "prose", "n": f"p{ix}{rng.randrange(10 ** 6)}", "v": tag})
        elif pick < 0.68:
            items.append({"k": "inner", "n": f"i{ix}{rng.randrange(10 ** 6)}", "v": rng.choice(["FOO-BAR", "QUX"])})
        elif pick < 0.75:
            items.append({"k": "foreign", "n": name, "v": rng.choice(["SYSTEM", "SYSTEM-SIGNAL"])})
        elif pick < 0.85:
            items.append({"k": "remark", "n": "", "v": rng.choice(list(REMARK))})
        else:
            items.append({"k": "bad", "n": name, "v": rng.choice(list(BAD))})
    return items


def gen_package(rng, name, depth, faults):
    subs = []
    if depth:
        for sub in rng.sample(["P", "Q", "R"], rng.choice([0, 0, 1, 2])):
            subs.append(gen_package(rng, sub, depth - 1, faults))
    els = gen_items(rng, rng.randrange(0, 6), faults)
    if not faults:
        els = list({e["n"]: e for e in els}.values())
    return {"n": name, "odd": faults and rng.random() < 0.2, "els": els, "subs": subs}


def gen_doc(rng, faults, absent=True):
    names = rng.sample(["P", "Q", "R", "S"], rng.choice([0, 1, 1, 2, 3]))
    return {"ver": rng.choice([48, 49, 50, 51] + [0] * (faults and absent)), "pkgs": [gen_package(rng, n, 2, faults) for n in names]}


def gen_trace(rng, length):
    def gen(adapter):
        for _ in range(length):
            pick = rng.random()
            docs = len(adapter.docs)
            if pick < 0.3:
                yield {"op": "read", "r": rng.choice([1, 2]), "src": gen_doc(rng, True), "form": rng.choice(["str", "file"]), "stop": rng.random() < 0.2,
                       "broken": rng.random() < 0.05}
            elif pick < 0.4:
                item = next(i for i in gen_items(rng, 50, True) if i["k"] in ("unit", "base", "swc", "arr", "admin", "inner", "bad"))
                yield {"op": "readelem", "r": rng.choice([1, 2]), "item": item}
            elif pick < 0.5 or not docs:
                yield {"op": "build", "doc": gen_doc(rng, False)}
            elif pick < 0.7:
                yield {"op": "write", "w": rng.choice([1, 2]), "d": rng.randrange(1, docs + 1), "form": rng.choice(["str", "bare", "file"])}
            elif pick < 0.8:
                yield {"op": "writeelem", "w": rng.choice([1, 2]), "item": gen_items(rng, 1, False)[0], "form": rng.choice(["str", "file"])}
            elif pick < 0.92:
                yield {"op": "cycle", "d": rng.randrange(1, docs + 1), "form": rng.choice(["str", "bare", "file"])}
            else:
                yield {"op": "edit", "d": rng.randrange(1, docs + 1), "n": rng.choice(["x", "y", "z"])}
    return gen


def gen_single(rng):
    """C06: every text to a new reader"""
    def gen(_adapter):
        for _ in range(6):
            yield {"op": "read", "r": rng.choice([1, 2]), "src": gen_doc(rng, True), "form": rng.choice(["str", "file"]), "stop": rng.random() < 0.15,
                   "broken": False}
    return gen


def gen_cycles(rng):
    def gen(_adapter):
        for ix in range(4):
            yield {"op": "build", "doc": gen_doc(rng, False)}
            yield {"op": "cycle", "d": 2 * ix + 1, "form": rng.choice(["str", "str", "bare", "file", "file"])}
            if not _adapter.docs or len(_adapter.docs) < 2 * ix + 2:
                return
    return gen


def gen_cfg(rng):
    return {"readers": [{"warn": rng.random() < 0.75, "full": rng.random() < 0.5, "ver": rng.choice([48, 49, 50, 51])} for _ in range(2)],
            "writers": [rng.choice([48, 49, 50, 51]) for _ in range(2)]}


def _run(check, parts, gen, count, salt):
    for part, depth, size in parts:
        res = tlc("ExchangeMC", MC_CFG % (part, depth, size), workers=6)
        check.add_tlc(res, f"ExchangeMC {part} depth={depth} size={size}")
        replay_tests(check, ExchangeAdapter, res.records)
    rng = random.Random(f"{SEED}-{salt}")
    traces = record_traces(ExchangeAdapter, [(gen_cfg(rng), gen(random.Random(rng.random()))) for _ in range(count)])
    validate_traces(check, "ExchangeTrace", TRACE_CFG, traces, "ExchangeTrace")


def _unknown_job(args):
    """One unknown tag somewhere inside each element: all elements are read as without it and each tag is reported once"""
    jobs, ver = args
    fails = []
    unwatched = UNWATCHED | {f["w"] for fields in mod_arxml.FIELDS.values() for f in fields}
    with mod_arxml.silenced():
        doc = ar_document.Document(schema_version=ver)
        package = ar_element.Package("Elements")
        doc.append(package)
        for case, _, _ in jobs:
            package.append(mod_arxml.build(case["n"], "ctor"))
        roots = mod_arxml.roots_of(Writer().write_str(doc, False))
    lines = [f'<AUTOSAR xsi:schemaLocation="{NS} AUTOSAR_{ver:05d}.xsd" xmlns="{NS}" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">'
             "<AR-PACKAGES><AR-PACKAGE><SHORT-NAME>Elements</SHORT-NAME><ELEMENTS>"]
    for ix, (case, path, last) in enumerate(jobs):
        root = roots[mod_arxml.root_name(case)]
        node = root
        for tag in path:
            node = next(c for c in node if c.tag == tag and len(c))
        node.insert(len(node) if last else 0, ET.Element(_q(f"UNKNOWN-{ix}")))
        root.tail = None
        lines.append(ET.tostring(root, encoding="unicode").replace("ns0:", "").replace("xmlns:ns0=", "xmlns="))
    lines.append("</ELEMENTS></AR-PACKAGE></AR-PACKAGES></AUTOSAR>")
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        back = Reader().read_str("\n".join(lines))
    objs = {e.name: e for p in back.packages for e in p.elements}
    for ix, (case, path, last) in enumerate(jobs):
        diffs, name = [], mod_arxml.root_name(case)
        if name in objs:
            mod_arxml.compare(objs[name], case["n"], case["n"]["c"], diffs)
        else:
            diffs.append("not read: " + next((o for o in out.getvalue().splitlines() if o.startswith("    ")), ""))
        reports = [e for e in err.getvalue().splitlines() if e.endswith(f"<UNKNOWN-{ix}>")]
        if len(reports) != 1 and (reports or not path or path[-1].rsplit("}", 1)[-1] not in unwatched):
            diffs.append(f"reported {len(reports)} times")
        if diffs:
            where = "/".join(t.rsplit("}", 1)[-1] for t in path)
            fails.append((case, where, last, diffs[:3]))
    return fails


# in these only the first element counts
FIRST_COUNTS = {"INIT-VALUE", "RAM-BLOCK-INIT-VALUE", "ROM-BLOCK-INIT-VALUE", "TIMEOUT-SUBSTITUTION-VALUE", "VALUE-SPEC", "VALUE", "VG", "INNER-PORT-IREF",
                "MODE-GROUP-IREF"}
# inside wrappers and these (texts and lists of values) an unknown tag needs not be reported
UNWATCHED = {"ANNOTATION", "COMPU-CONST", "COMPU-DEFAULT-VALUE", "COMPU-INVERSE-VALUE", "DESC", "LABEL", "LONG-NAME", "SW-ARRAYSIZE"}
MIXED = {"L-1", "L-2", "L-4", "L-5", "P", "VERBATIM", "E", "TT", "IE", "SUB", "SUP", "FT", "SDGS", "ADMIN-DATA", "DISPLAY-NAME", "UNIT-DISPLAY-NAME"}


def _places(cases):
    """Where in the text of each element an unknown tag is put"""
    out = []
    for case in cases:
        doc = ar_document.Document(schema_version=51)
        doc.append(ar_element.Package("Elements"))
        with mod_arxml.silenced():
            doc.packages[0].append(mod_arxml.build(case["n"], "ctor"))
            root = next(iter(mod_arxml.roots_of(Writer().write_str(doc, False)).values()))
        found, todo = [], [(root, ())]
        while todo:
            node, path = todo.pop()
            tag = node.tag.rsplit("}", 1)[-1]
            if not len(node) or tag in MIXED:
                continue
            found.append((path, tag in FIRST_COUNTS))
            first = {}
            for child in node:
                if len(child):
                    first.setdefault(child.tag, child)
            todo += [(child, path + (child.tag,)) for child in first.values()]
        out.append(found)
    return out


def unknown_inside(check):
    mod_arxml.load(check, "fields", pairs="FALSE")
    cases = [c for c in mod_arxml.load(check, "elements", pairs=check.pick("FALSE", "TRUE")) if c["c"] != "Package"]
    seen, jobs = set(), []
    with ProcessPoolExecutor(max_workers=7) as pool:
        for part, found in zip(mod_arxml.batches(cases, 40), pool.map(_places, mod_arxml.batches(cases, 40))):
            for case, places in zip(part, found):
                for path, only in places:
                    if (case["c"], path) not in seen:
                        seen.add((case["c"], path))
                        jobs.append((case, path, only or len(jobs) % 2))
    jobs.sort(key=lambda j: (j[0]["c"], j[1]))
    # no element twice in a document
    parts = []
    for job in jobs:
        part = next((p for p in parts[-40:] if len(p) < 25 and all(j[0] is not job[0] and mod_arxml.root_name(j[0]) != mod_arxml.root_name(job[0]) for j in p)), None)
        if part is None:
            parts.append([job])
        else:
            part.append(job)
    with ProcessPoolExecutor(max_workers=7) as pool:
        for fails in pool.map(_unknown_job, [(p, 51) for p in parts], chunksize=4):
            for case, where, last, diffs in fails:
                check.violation(f"unknown:{case['c']}:{where}:{diffs[0][:40]}", {"class": case["c"], "case": case["k"], "inside": where,
                                                                              "at": "end" if last else "start", "what": diffs, "element": case["n"]})
    check.validated += len(jobs)
    check.cov["places_of_unknown_tags"] = len(jobs)


def c06(check):
    unknown_inside(check)
    _run(check, check.pick([("faults", 1, 2)], [("faults", 1, 3)]), gen_single, check.pick(400, 5000), "c06")


def _kinds_job(args):
    """Elements of every kind in one document, its packages in reverse order of their names, twice written and read"""
    cases, ver, form = args
    with mod_arxml.silenced():
        try:
            doc = ar_document.Document(schema_version=ver)
            packages = [ar_element.Package(f"P{9 - ix}") for ix in range(4)]
            for package in packages:
                doc.append(package)
            for ix, case in enumerate(cases):
                made = mod_arxml.build(case["n"], "ctor")
                (doc if isinstance(made, ar_element.Package) else packages[ix % 4]).append(made)
            with tempfile.TemporaryDirectory(prefix="vexch") as work:
                path = os.path.join(work, "doc.arxml")

                def text(what):
                    if form == "str":
                        return Writer().write_str(what, False)
                    Writer().write_file(what, path)
                    with open(path, "rb") as fp:
                        return fp.read()
                first = text(doc)
                back = Reader().read_str(first) if form == "str" else Reader().read_file(path)
                again = text(back)
        except Exception as exc:  # pylint: disable=W0703
            if len(cases) == 1:
                return [(cases[0], f"{type(exc).__name__}: {exc}"[:200])]
            half = len(cases) // 2
            return _kinds_job((cases[:half], ver, form)) + _kinds_job((cases[half:], ver, form))

    def outline(what):
        return [(p.name, [(type(e).__name__, e.name) for e in p.elements]) for p in what.packages]
    if outline(doc) == outline(back) and back.schema_version == ver and back.schema_file == SCHEMA_FILE % ver and first == again:
        return []
    if len(cases) == 1:
        diff = next(((a, b) for a, b in zip(str(first).split("\n" if form == "str" else "\\n"), str(again).split("\n" if form == "str" else "\\n")) if a != b),
                    "lengths")
        return [(cases[0], f"back: {back.schema_version} {back.schema_file} {str(outline(back))[:300]}; first difference: {str(diff)[:300]}")]
    half = len(cases) // 2
    return (_kinds_job((cases[:half], ver, form)) + _kinds_job((cases[half:], ver, form))
            or [(cases[0], f"together with {len(cases) - 1} more: {str(outline(back))[:400]}")])


SCHEMA_FILE = "AUTOSAR_%05d.xsd"


def every_kind(check):
    mod_arxml.load(check, "fields", pairs="FALSE")
    jobs, total = [], 0
    rng = random.Random(f"{SEED}-kinds")
    for ver in check.pick((48,), (48, 49, 50, 51)):
        cases = mod_arxml.load(check, f"elements_{ver}", pairs=check.pick("FALSE", "TRUE"), ver=ver)
        rng.shuffle(cases)
        total += len(cases)
        jobs += [(part, ver + (ix % 4 if check.quick else 0), ("str", "file")[ix // 4 % 2]) for ix, part in enumerate(mod_arxml.batches(cases, 12))]
    with ProcessPoolExecutor(max_workers=7) as pool:
        for (_, ver, form), fails in zip(jobs, pool.map(_kinds_job, jobs, chunksize=4)):
            for case, what in fails:
                check.violation(f"document:{case['c']}:{what[:40]}", {"class": case["c"], "case": case["k"], "schema": ver, "form": form, "what": what,
                                                                      "element": case["n"]})
    check.validated += total
    check.cov["elements_in_documents"] = total


def c07(check):
    every_kind(check)
    _run(check, check.pick([("trees", 2, 2)], [("trees", 2, 3)]), gen_cycles, check.pick(300, 4000), "c07")


def c08(check):
    _run(check, check.pick([("uses", 3, 1)], [("uses", 4, 1)]), lambda rng: gen_trace(rng, 20), check.pick(200, 3000), "c08")
    mod_alone.c08_alone(check)


CHECKS = {"C06": c06, "C07": c07, "C08": c08}
