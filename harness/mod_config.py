"""Binding of Config.tla: C13 (namespaces and configuration files) and C27 (behaviour settings)"""
import json
import os
import random
import shutil
import tempfile
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.workspace as ar_workspace
from common import SEED, replay_queries, replay_tests, record_traces, validate_traces, tlc
from mod_documents import file_text

NAMES = ["background_event_prefix", "data_receive_error_event_prefix", "data_receive_event_prefix", "init_event_prefix",
         "operation_invoked_event_prefix", "swc_mode_manager_error_event_prefix", "swc_mode_switch_event_prefix",
         "timing_event_prefix", "data_read_access_prefix", "data_receive_point_prefix", "data_send_point_prefix",
         "data_write_access_prefix", "external_triggering_point_prefix", "internal_triggering_point_prefix",
         "mode_access_point_prefix", "mode_switch_point_prefix", "parameter_access_prefix", "read_local_variable_prefix",
         "server_call_point_prefix", "wait_point_prefix", "write_local_variable_prefix"]
BUILT_IN = ["APPLICATION_DATA_TYPE", "BASE_TYPE", "COMPONENT_TYPE", "COMPU_METHOD", "DATA_CONSTRAINT",
            "IMPLEMENTATION_DATA_TYPE", "MODE_DECLARATION", "PORT_INTERFACE", "UNIT", "CONSTANT"]
CAMEL = ["ApplicationDataType", "BaseType", "ComponentType", "CompuMethod", "DataConstraint",
         "ImplementationDataType", "ModeDeclaration", "PortInterface", "Unit", "Constant"]
FAULTS = ["no ref", "no types", "empty types", "unknown type", "unknown second type", "not a class", "types number", "suffix number"]


def path_text(path):
    return ("/" if path["abs"] else "") + "/".join(path["segs"])


def role_text(role):
    return ("!" if role["user"] else "") + role["name"]


def quote(value):
    return json.dumps(value)  # texts and lists of texts are written alike in TOML


def mapping_lines(mapping):
    """A document mapping as lines of TOML, with the fault asked for"""
    fault = mapping["fault"]
    lines = []
    if fault != "no ref":
        lines.append("package_ref = " + quote("/" + "/".join(mapping["ref"])))
    types = mapping["types"]
    if fault == "empty types":
        types = []
    elif fault == "unknown type":
        types = ["NoSuchElement"]
    elif fault == "unknown second type":
        types = types + ["NoSuchElement"]
    elif fault == "not a class":
        types = ["ar_enum"]
    if fault == "types number":
        lines.append("element_types = 5")
    elif fault != "no types":
        lines.append("element_types = " + quote(types[0] if len(types) == 1 and mapping["form"] == "str" else types))
    if fault == "suffix number":
        lines.append("suffix_filters = 5")
    elif mapping["form"] != "none":
        lines.append("suffix_filters = " + quote(mapping["sfx"][0] if mapping["form"] == "str" else mapping["sfx"]))
    return lines


def toml_text(conf):
    lines = []
    for space in conf["ns"]:
        lines.append(f"[namespace.{quote(space['name'])}]")
        at = len(lines)
        lines += [f"{quote(role_text(r['role']))} = {quote(path_text(r['path']))}" for r in space["roles"]]
        if space["based"]:
            lines.insert(at + len(space["roles"]) // 2, "base_ref = " + quote(path_text(space["base"])))
    for doc in conf["docs"]:
        lines.append(f"[document.{quote(doc['file'])}]")
        refs = ["/" + "/".join(p) for p in doc["refs"]]
        if doc["form"] != "none":
            lines.append("packages = " + quote(refs[0] if doc["form"] == "str" else refs))
    for ix, mapping in enumerate(conf["maps"]):
        lines += [f"[document_mapping.m{ix}]"] + mapping_lines(mapping)
    if conf["set"]:
        lines.append("[behavior]")
        lines += [f"{quote(e['name'])} = {quote(e['v']) if e['text'] else 17}" for e in conf["set"]]
    return "\n".join(lines) + "\n"


class ConfigAdapter:
    """Performs the operations of Config.tla"""

    def __init__(self, _cfg):
        self.scratch = tempfile.mkdtemp(prefix="vconf")
        self.ws = ar_workspace.Workspace(document_root=self.scratch)
        self.dead = False
        self.fill()

    def fill(self):
        a = self.ws.make_packages("/A")
        a.append(ar_element.ApplicationSoftwareComponentType("S"))
        a.append(ar_element.SwcImplementation("S_Impl"))
        b = self.ws.make_packages("/A/B")
        b.append(ar_element.Unit("u"))
        b.append(ar_element.CompositionSwComponentType("T"))
        self.ws.make_packages("/C")
        a.append(ar_element.Unit("S_T"))

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def do(self, op):
        kind = op["op"]
        ws = self.ws
        if kind == "ns":
            space = op["ns"]
            roles = {role_text(r["role"]): path_text(r["path"]) for r in space["roles"]}
            if space["based"]:
                ws.create_namespace(space["name"], roles, base_ref=path_text(space["base"]))
            else:
                ws.create_namespace(space["name"], roles)
            return "ok"
        if kind == "doc":
            refs = ["/" + "/".join(p) for p in op["refs"]]
            if op["form"] == "none":
                ws.create_document(op["file"] + ".arxml")
            else:
                ws.create_document(op["file"] + ".arxml", refs[0] if op["form"] == "str" else refs)
            return "ok"
        if kind == "map":
            types = tuple(getattr(ar_element, t) for t in op["types"])
            types = types[0] if len(types) == 1 and op["form"] == "str" else types
            ws.create_document_mapping("/" + "/".join(op["ref"]), types, op["sfx"][0] if op["form"] == "str" else op["sfx"])
            return "ok"
        if kind == "set":
            ws.behavior_settings.set_value(op["e"]["name"], op["e"]["v"] if op["e"]["text"] else 17)
            return "ok"
        if kind == "update":
            ws.behavior_settings.update({e["name"]: e["v"] if e["text"] else None for e in op["es"]})
            return "ok"
        if kind == "load":
            path = os.path.join(self.scratch, "config.toml")
            with open(path, "w", encoding="utf-8") as fp:
                fp.write(toml_text(op["f"]))
            try:
                if op["how"] == "new":
                    self.ws = ar_workspace.Workspace(path, self.scratch)
                    self.fill()
                else:
                    ws.load_config(path)
            except Exception:
                self.dead = True
                raise
            finally:
                os.unlink(path)
            return "ok"
        if kind == "role":
            role = op["role"]["name"] if op["role"]["user"] else ar_enum.PackageRole[op["role"]["name"]]
            return str(ws.get_package_ref_by_role(op["n"], role))
        if kind == "has":
            return "ok" if ws.get_namespace(op["n"]) is not None else "none"
        if kind == "get":
            value = ws.behavior_settings.get_value(op["n"])
            return "=" + value if isinstance(value, str) else repr(value)
        try:
            ws.write_documents()
            return "; ".join(f"{name} {file_text(os.path.join(self.scratch, name))}" for name in sorted(os.listdir(self.scratch)))
        finally:
            for name in os.listdir(self.scratch):
                os.unlink(os.path.join(self.scratch, name))

    def proj(self):
        if self.dead:
            return ["dead"]
        lines = []
        for name in NAMES:
            value = getattr(self.ws.behavior_settings, name)
            lines.append(f"{name} " + ("\tnone" if value is None else str(value)))
        return lines


MC_CFG = """SPECIFICATION Spec
VIEW SeenAs
CHECK_DEADLOCK FALSE
CONSTANTS Part = "%s" Depth = %d Chosen = {%s}
INVARIANTS Normal LastValue EmitQueries
"""
TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS TInit <- ConfInit TStep <- ConfStep TProj <- ConfProj
"""
SEGS = ["T", "U", "X", "Y", "..", ".", "", "Z z", "A"]


def gen_path(rng, safe=False):
    segs = [rng.choice(SEGS[:4] if safe else SEGS) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    if segs[0] == "" or all(s in ("", ".", "..") for s in segs):
        segs[0] = "T"
    if segs.count("..") > segs.count("T"):
        segs = ["T"] + segs
    return {"abs": rng.random() < 0.5, "segs": segs}


def gen_space(rng):
    roles, seen = [], set()
    for _ in range(rng.randrange(0, 5)):
        pick = rng.random()
        if pick < 0.4:
            role = {"user": False, "name": rng.choice(BUILT_IN)}
        elif pick < 0.75:
            role = {"user": False, "name": rng.choice(CAMEL)}
        elif pick < 0.98:
            role = {"user": True, "name": rng.choice(["Mine", "Yours", "UNIT", "BaseType", "!x"])}
        else:
            role = {"user": False, "name": rng.choice(["Mine", "unit", "datatype", "Base Type"])}
        if role_text(role) not in seen:
            seen.add(role_text(role))
            roles.append({"role": role, "path": gen_path(rng)})
    base = gen_path(rng)
    return {"name": rng.choice(["N", "M", "Default"]), "based": rng.random() < 0.6, "base": base, "roles": roles}


def gen_doc(rng):
    refs = rng.sample([["A"], ["C"], ["A", "B"]], rng.choice([1, 1, 2]))
    form = rng.choice(["str", "list"]) if len(refs) == 1 else "list"
    if rng.random() < 0.1:
        refs, form = [], "none"
    return {"file": rng.choice(["Main", "S", "x", "u"]), "form": form, "refs": refs}


def gen_map(rng, fault=""):
    types = rng.sample(["ApplicationSoftwareComponentType", "CompositionSwComponentType", "Unit", "SwcImplementation", "SwComponentType", "ARElement",
                        "AtomicSoftwareComponentType"], rng.choice([1, 1, 2]))
    form = rng.choice(["str", "list", "list", "none"])
    sfx = [] if form == "none" else rng.sample(["_Impl", "_T", "", "x"], 1 if form == "str" else rng.randrange(0, 4))
    return {"ref": rng.choice([["A"], ["A", "B"], ["C"], ["R"]]), "types": types, "form": form, "sfx": sfx, "fault": fault}


def gen_entry(rng, bad=0.0):
    if rng.random() < bad:
        return {"name": rng.choice(["nosuch", "update", "__doc__", "get_value", "prefix"] + NAMES[:1]), "text": False, "v": "A"}
    return {"name": rng.choice(NAMES), "text": True, "v": rng.choice(["", "A", "B", "Long_prefix", "<&>", "a b"])}


def gen_entries(rng, most):
    return list({e["name"]: e for e in (gen_entry(rng) for _ in range(rng.randrange(0, most)))}.values())


def gen_conf(rng):
    spaces = list({s["name"]: s for s in (gen_space(rng) for _ in range(rng.randrange(0, 3)))}.values())
    docs = list({d["file"]: d for d in (gen_doc(rng) for _ in range(rng.randrange(0, 3)))}.values())
    fault = rng.random() < 0.05
    maps = [gen_map(rng) for _ in range(rng.randrange(0, 3))]
    if fault:
        maps.append(gen_map(rng, rng.choice(FAULTS)))
    entries = gen_entries(rng, 6)
    if rng.random() < 0.03:
        entries.append({"name": "nosuch", "text": True, "v": "x"})
    return {"ns": spaces, "docs": docs, "maps": maps, "set": entries}


def gen_trace(rng, length, settings):
    def gen(adapter):
        for step in range(length):
            how = "new" if step == 0 and rng.random() < 0.5 else "later"
            if adapter.dead:
                return
            pick = rng.random()
            if settings:
                if pick < 0.45:
                    yield {"op": "set", "e": gen_entry(rng, 0.15)}
                elif pick < 0.65:
                    yield {"op": "update", "es": gen_entries(rng, 5)}
                elif pick < 0.7:
                    yield {"op": "update", "es": [gen_entry(rng, 1.0)]}
                elif pick < 0.8:
                    yield {"op": "load", "f": {"ns": [], "docs": [], "maps": [], "set": gen_entries(rng, 12)}, "how": how}
                else:
                    yield {"op": "get", "n": rng.choice(NAMES + ["nosuch", "set_value", "__dict__"])}
            elif pick < 0.2:
                yield {"op": "ns", "ns": gen_space(rng)}
            elif pick < 0.28:
                yield {"op": "doc", **gen_doc(rng)}
            elif pick < 0.36:
                mapping = gen_map(rng)
                if mapping["form"] == "none":
                    mapping["form"] = "list"
                del mapping["fault"]
                yield {"op": "map", **mapping}
            elif pick < 0.5:
                yield {"op": "load", "f": gen_conf(rng), "how": how}
            elif pick < 0.6:
                yield {"op": "files"}
            elif pick < 0.85:
                yield {"op": "role", "n": rng.choice(["N", "M", "Default", "Q"]), "role": {"user": False, "name": rng.choice(BUILT_IN)}}
            else:
                yield {"op": "role", "n": rng.choice(["N", "M", "Default"]), "role": {"user": True, "name": rng.choice(["Mine", "Yours", "UNIT", "BaseType", "!x"])}}
    return gen


def _run(check, parts, settings, salt):
    for part, depth, chosen in parts:
        res = tlc("ConfigMC", MC_CFG % (part, depth, ", ".join(f'"{n}"' for n in chosen)), workers=6)
        check.add_tlc(res, f"ConfigMC {part} depth={depth}")
        replay_tests(check, ConfigAdapter, [r for r in res.records if "q" not in r])
        replay_queries(check, ConfigAdapter, [r for r in res.records if "q" in r])
    rng = random.Random(f"{SEED}-{salt}")
    traces = record_traces(ConfigAdapter, [("", gen_trace(random.Random(rng.random()), 40, settings)) for _ in range(check.pick(600, 6000))])
    validate_traces(check, "ConfigTrace", TRACE_CFG, traces, "ConfigTrace")


def c13(check):
    _run(check, check.pick([("paths", 1, []), ("files", 2, [])], [("paths", 2, []), ("files", 3, [])]), False, "c13")


def c27(check):
    _run(check, check.pick([("settings", 1, NAMES), ("settings", 3, NAMES[3:5])], [("settings", 2, NAMES), ("settings", 5, NAMES[3:5]), ("settings", 4, NAMES[-3:])]),
         True, "c27")


CHECKS = {"C13": c13, "C27": c27}
