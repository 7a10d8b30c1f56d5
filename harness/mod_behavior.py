"""Binding of Behavior.tla: C18 (events), C19 (port accesses), C20 (runnables, exclusive areas, port API options)"""
import copy
import random
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_reference
import autosar.xml.workspace as ar_workspace
from common import SEED, replay_queries, replay_tests, record_traces, validate_traces, tlc

PREFIXES = {"background": "background_event_prefix", "error": "data_receive_error_event_prefix", "received": "data_receive_event_prefix",
            "init": "init_event_prefix", "invoked": "operation_invoked_event_prefix", "manager": "swc_mode_manager_error_event_prefix",
            "switch": "swc_mode_switch_event_prefix", "timing": "timing_event_prefix", "read": "data_read_access_prefix",
            "receive": "data_receive_point_prefix", "send": "data_send_point_prefix", "write": "data_write_access_prefix",
            "access": "mode_access_point_prefix", "point": "mode_switch_point_prefix", "param": "parameter_access_prefix", "call": "server_call_point_prefix"}
LISTS = [("read", "data_read_access"), ("arg", "data_receive_point_by_argument"), ("val", "data_receive_point_by_value"), ("send", "data_send_point"),
         ("write", "data_write_access"), ("mode", "mode_access_point"), ("switch", "mode_switch_point"), ("param", "parameter_access"),
         ("async", "server_call_point"), ("sync", "server_call_point")]
OTHER_LISTS = ["argument", "async_server_call_result_point", "external_triggering_point", "internal_triggering_point", "read_local_variable",
               "write_local_variable", "wait_point"]
EVENTS = {"background": ar_element.BackgroundEvent, "error": ar_element.DataReceiveErrorEvent, "received": ar_element.DataReceivedEvent,
          "init": ar_element.InitEvent, "invoked": ar_element.OperationInvokedEvent, "manager": ar_element.SwcModeManagerErrorEvent,
          "switch": ar_element.SwcModeSwitchEvent, "timing": ar_element.TimingEvent}
ENUMS = {"activation": ar_enum.ModeActivationKind, "scope": ar_enum.VariableAccessScope, "rvp": ar_enum.RteApiReturnValueProvision,
         "errors": ar_enum.DataTransformationErrorHandling, "fwd": ar_enum.DataTransformationStatusForwarding, "lock": ar_enum.SupportBufferLocking}
PORTS = {"P": ar_element.ProvidePortPrototype, "R": ar_element.RequirePortPrototype, "PR": ar_element.PRPortPrototype}
ARGS = {"cat": "category", "period": "period", "offset": "offset", "activation": "activation", "scope": "scope", "rvp": "return_value_provision",
        "timeout": "timeout", "area": "called_from_within_exclusive_area", "conc": "can_be_invoked_concurrently", "msi": "minimum_start_interval",
        "inside": "runs_insides", "addr": "enable_take_address", "indirect": "indirect_api", "errors": "error_handling", "args": "port_arg_values",
        "lock": "supported_features", "fwd": "transformer_status_forwarding"}


VARIABLE, PARAMETER = ar_enum.IdentifiableSubTypes.VARIABLE_DATA_PROTOTYPE, ar_enum.IdentifiableSubTypes.PARAMETER_DATA_PROTOTYPE
OPERATION, GROUP = ar_enum.IdentifiableSubTypes.CLIENT_SERVER_OPERATION, ar_enum.IdentifiableSubTypes.MODE_DECLARATION_GROUP_PROTOTYPE


class NotSupported:
    """A value no setting takes"""


def value_of(key, text):
    if text == "bad":
        return NotSupported()
    if key in ENUMS:
        value = ENUMS[key][text.upper().replace("-", "_")]
        return ar_element.CommunicationBufferLocking(value) if key == "lock" else value
    if key in ("conc", "addr", "indirect"):
        return text == "true"
    if key in ("period", "offset", "timeout", "msi"):
        return float(text)
    if key == "area":
        return ar_reference.ExclusiveAreaNestingOrderRef(text)
    if key == "args":
        return [ar_element.PortDefinedArgumentValue(ar_element.ValueSpecification.make_value(int(x)), "/T/V") for x in text.split(",")]
    return text


def text_of(value):
    if isinstance(value, bool):
        return "true" if value else "false"
    for enum in ENUMS.values():
        if isinstance(value, enum):
            return value.name.lower().replace("_", "-")
    return str(value)


def settings(x):
    return {ARGS.get(s["k"], s["k"]): value_of(s["k"], s["v"]) for s in x}


def shown(obj, keys):
    out = ""
    for key in keys:
        value = getattr(obj, ARGS[key], None)
        if value is not None:
            out += f" {key}={text_of(value)}"
    return out


class BehaviorAdapter:
    """Builds up the internal behaviour of a component"""

    def __init__(self, cfg):
        self.ws = ar_workspace.Workspace()
        modes = ar_element.ModeDeclarationGroup("G")
        for mode in cfg["modes"]:
            modes.create_mode_declaration(mode)
        for name in cfg["trans"]:
            modes.append_mode_transition(ar_element.ModeTransition(name))
        self.ws.make_packages("/Modes").append(modes)
        package = self.ws.make_packages("/If")
        ifs = []
        for itf in cfg["ifs"]:
            if itf["kind"] == "gone":  # ports refer to it, but there is no such interface
                ifs.append(ar_reference.PortInterfaceRef(f"/If/{itf['n']}", ar_enum.IdentifiableSubTypes.SENDER_RECEIVER_INTERFACE))
                continue
            made = self._interface(itf)
            package.append(made)
            ifs.append(made.ref())
        self.dests = {}
        for itf in cfg["ifs"]:
            for el in itf["els"]:
                self.dests[f"/If/{itf['n']}/{el}"] = {"sr": VARIABLE, "nv": VARIABLE, "cs": OPERATION, "ms": GROUP, "par": PARAMETER}.get(itf["kind"])
        self.comp = ar_element.ApplicationSoftwareComponentType("Comp")
        self.ws.make_packages("/Comps").append(self.comp)
        for port in cfg["ports"]:
            self.comp.append_port(PORTS[port["side"]](port["n"], ifs[port["i"] - 1]))
        for key, value in cfg["prefix"].items():
            if value:
                self.ws.behavior_settings.set_value(PREFIXES[key], value)
        self.behavior = self.comp.create_internal_behavior()
        for run in cfg["runs"]:
            self.behavior.create_runnable(run)

    @staticmethod
    def _interface(itf):
        kind, els = itf["kind"], itf["els"]
        factory, add = {"sr": (ar_element.SenderReceiverInterface, "create_data_element"), "nv": (ar_element.NvDataInterface, "create_data_element"),
                        "cs": (ar_element.ClientServerInterface, "create_operation"), "ms": (ar_element.ModeSwitchInterface, "create_mode_group"),
                        "par": (ar_element.ParameterInterface, "create_parameter")}[kind]
        made = factory(itf["n"])
        for el in els:
            args = [ar_reference.ModeDeclarationGroupRef("/Modes/G" if itf["g"] else "/Modes/Gone")] if kind == "ms" else []
            getattr(made, add)(el, *args)
        return made

    # -- operations

    def do(self, op):
        return getattr(self, "_" + op["op"])(op)

    def _event(self, op):
        kind, behavior = op["k"], self.behavior
        create = {"background": behavior.create_background_event, "error": behavior.create_data_receive_error_event,
                  "received": behavior.create_data_received_event, "init": behavior.create_init_event,
                  "invoked": behavior.create_operation_invoked_event, "manager": behavior.create_swc_mode_manager_error_event,
                  "switch": behavior.create_swc_mode_mode_switch_event, "timing": behavior.create_timing_event}[kind]
        paths = ["/".join(at) for at in op["at"]]
        args = [op["run"]]
        if kind not in ("background", "init", "timing"):
            args.append(paths[0] if op["form"] == "one" else 5 if op["form"] == "number" else (paths[0], 5) if op["form"] == "mixed" else tuple(paths) if op["form"] == "tuple" else list(paths))
        kwargs = settings(op["x"])
        if op["n"]:
            kwargs["event_name"] = op["n"]
        event = create(*args, **kwargs)
        return "ok" if event is behavior.events[-1] else "not the last event"

    def _access(self, op):
        runnable = self.behavior.find_runnable(op["run"])
        items = []
        for item in op["items"]:
            text = "/".join(item["at"])
            if item["pre"]:
                text = (item["pre"].lower() if item["low"] else item["pre"]) + ":" + item["sp"] + text
            args = settings(item["x"])
            if item["n"]:
                args["name"] = item["n"]
            items.append((text, args) if args else text)
        before = copy.copy([(i[0], dict(i[1])) if isinstance(i, tuple) else i for i in items])
        try:
            runnable.create_port_access(items if op["list"] or len(items) != 1 else items[0])
        finally:
            if [(i[0], dict(i[1])) if isinstance(i, tuple) else i for i in items] != before:
                return "request changed"  # pylint: disable=W0150
        return "ok"

    def _prefix(self, op):
        self.ws.behavior_settings.set_value(PREFIXES[op["k"]], op["v"])
        return "ok"

    def _area(self, op):
        made = self.behavior.create_exclusive_area(op["n"])
        return "ok" if made is self.behavior.exclusive_areas[-1] else "not the new area"

    def _run(self, op):
        entries = [ar_reference.ExclusiveAreaRef(e["n"]) if e["ref"] else e["n"] for e in op["enter"]]
        kwargs = settings(op["x"])
        if op["sym"]:
            kwargs["symbol"] = None if op["sym"] == "none" else op["sym"]
        if op["form"] != "none":
            kwargs["can_enter_leave"] = entries[0] if op["form"] == "one" else entries
        before = list(entries)
        made = self.behavior.create_runnable(op["n"], **kwargs)
        if entries != before:
            return "request changed"
        return "ok" if made is self.behavior.runnables[-1] else "not the new runnable"

    def _opts(self, op):
        if op["form"] == "thing":
            self.behavior.append_port_api_option(NotSupported())
            return "ok"
        if op["form"] == "object":
            self.behavior.append_port_api_option(ar_element.PortApiOption(self.comp.find(op["names"][0]).ref(), **settings(op["x"])))
            return "ok"
        names = op["names"][0] if op["form"] == "one" else list(op["names"]) if op["form"] == "list" else 5 if op["form"] == "number" else "*"
        self.behavior.create_port_api_options(names, **settings(op["x"]))
        return "ok"

    def _extend(self, op):
        option = self.behavior.port_api_options.get(op["p"])
        if option is None:
            return "none"
        value = value_of(op["k"], op["v"])
        if op["k"] == "args":
            option.append_port_arg_value(value[0] if op["v"] != "bad" else value)
        else:
            option.append_supported_feature(value)
        return "ok"

    def _find(self, op):
        found = self.behavior.find_runnable(op["n"])
        return "none" if found is None else f"runnable {[r is found for r in self.behavior.runnables].index(True) + 1}"

    query = do

    # -- what can be seen

    def _rel(self, ref, to):
        text = str(ref)
        return text[len(to) + 1:] if ref is not None and text.startswith(to + "/") else f"?{ref}"

    def _target(self, iref, port, data):
        """'port Interface.element' for an instance reference, which has to name existing objects by their kind"""
        if iref is None:
            return "?none"
        port_ref, data_ref = getattr(iref, port), getattr(iref, data)
        shown_port = self._rel(port_ref, "/Comps/Comp")
        found = self.comp.find(shown_port)
        if found is None or str(found.ref()) != str(port_ref) or found.ref().dest is not port_ref.dest:
            shown_port = "?" + shown_port
        ok = self.dests.get(str(data_ref)) is not None and data_ref.dest is self.dests[str(data_ref)]
        return f"{shown_port} {'' if ok else '?'}{self._rel(data_ref, '/If').replace('/', '.')}"

    def _mode_target(self, iref):
        target = self._target(iref, "context_port", "context_mode_declaration_group_prototype")
        mode = self.ws.find(iref.target_mode_declaration)
        ok = isinstance(mode, ar_element.ModeDeclaration)
        return f"{target} {'' if ok else '?'}{self._rel(iref.target_mode_declaration, '/Modes/G')}"

    def _event_line(self, event):
        kinds = [k for k, v in EVENTS.items() if type(event) is v]  # pylint: disable=C0123
        kind = kinds[0] if kinds else f"?{type(event).__name__}"
        target = ""
        if kind in ("error", "received"):
            target = self._target(event.data, "context_port", "target_data_element")
        elif kind == "invoked":
            target = self._target(event.operation, "context_port", "target_provided_operation")
        elif kind == "manager":
            target = self._target(event.mode_group, "context_port", "target_mode_group")
        elif kind == "switch":
            modes = event.mode if isinstance(event.mode, tuple) else (event.mode,)
            target = " | ".join(self._mode_target(m) for m in modes)
        start = self._rel(event.start_on_event, f"/Comps/Comp/{self.behavior.name}")
        ok = event.parent is self.behavior and str(event.ref()) == f"/Comps/Comp/{self.behavior.name}/{event.name}"
        return f"{kind} {'' if ok else '?'}{event.name} -> {start}" + (f" [{target}]" if target else "") + shown(event, ["cat", "activation", "period", "offset"])

    def _access_line(self, kind, runnable, access):
        keys = ["cat", "scope", "rvp", "timeout", "area"]
        name, source = getattr(access, "name", "?"), access
        if kind in ("read", "arg", "val", "send", "write"):
            target = self._target(access.accessed_variable.ar_variable_iref, "port_prototype_ref", "target_data_prototype_ref")
        elif kind == "mode":
            name, source = ("-", None) if access.ident is None else (access.ident.name, access.ident)
            target = self._target(access.mode_group, "context_port", "target_mode_group")
        elif kind == "switch":
            target = self._target(access.mode_group, "context_port", "target_mode_group")
        elif kind == "param":
            target = self._target(access.accessed_parameter.autosar_parameter, "port_prototype", "target_data_prototype")
        else:
            target = self._target(access.operation, "context_port", "target_required_operation")
        if kind != "mode" and access.parent is not runnable:
            name = "?" + name
        return f"  {kind} {name} -> {target}" + ("" if source is None else shown(source, keys))

    def _runnable_lines(self, runnable):
        behavior = self.behavior
        areas = [a.name for a in behavior.exclusive_areas]
        refs = [str(getattr(e, "exclusive_area", "?")) for e in runnable.can_enter_leave]
        root = f"/Comps/Comp/{behavior.name}/"
        own = [r[len(root):] if r.startswith(root) and r[len(root):] in areas else None for r in refs]
        entered = [a for area in areas for a in own if a == area] + [r for r, a in zip(refs, own) if a is None]
        inside = [str(getattr(e, "exclusive_area", "?")) for e in runnable.runs_insides]
        text = "" if runnable.symbol is None else f"sym={runnable.symbol}"
        text += shown(runnable, ["conc", "msi", "cat"]) + "".join(f" inside={i}" for i in inside)
        lost = [name for name in OTHER_LISTS if getattr(runnable, name)]
        ok = runnable.parent is behavior and str(runnable.ref()) == root + runnable.name and not lost
        lines = [f"run {'' if ok else '?'}{runnable.name} {text} [{','.join(entered)}]"]
        for kind, attr in LISTS:
            for access in getattr(runnable, attr):
                if kind in ("async", "sync"):
                    cls = {"async": ar_element.AsynchronousServerCallPoint, "sync": ar_element.SynchronousServerCallPoint}[kind]
                    if type(access) is not cls:  # pylint: disable=C0123
                        continue
                lines.append(self._access_line(kind, runnable, access))
        return lines

    def _option_line(self, key, option):
        text = f"option {key}" if str(option.port) == f"/Comps/Comp/{key}" and option.port.dest is self.comp.find(key).ref().dest else f"option ?{option.port}"
        text += shown(option, ["addr", "indirect", "errors"])
        if option.port_arg_values:
            text += " args=" + ",".join(str(v.value.value) for v in option.port_arg_values)
        if option.supported_features:
            text += " lock=" + ",".join(text_of(f.support_buffer_locking) for f in option.supported_features)
        return text + shown(option, ["fwd"])

    def proj(self):
        lines = []
        for runnable in self.behavior.runnables:
            lines += self._runnable_lines(runnable)
        lines += [self._event_line(e) for e in self.behavior.events]
        options = dict(self.behavior.port_api_options)
        for port in self.comp.ports:
            if port.name in options:
                lines.append(self._option_line(port.name, options.pop(port.name)))
        lines += [f"?option {key}" for key in options]
        return lines + ["areas " + ",".join(a.name for a in self.behavior.exclusive_areas)]


MC_CFG = """SPECIFICATION Spec
VIEW SeenAs
CHECK_DEADLOCK FALSE
CONSTANTS Part = "%s" Depth = %d
INVARIANTS EventNamesDistinct AccessNamesDistinct OneOptionPerPort AreasKnown EmitAsking
PROPERTY Stable
"""
TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS TInit <- BInit TStep <- BStep TProj <- BProj
"""
EL_NAMES = ["a", "b", "A", "a_b"]
PRES = ["ARGUMENT", "ARG", "VALUE", "VAL", "READ", "WRITE", "SEND", "ASYNC", "SYNC", "ACCESS", "SWITCH"]


def gen_world(rng, missing):
    ifs = []
    for ix in range(rng.randrange(3, 8)):
        kind = rng.choice(["sr", "sr", "nv", "cs", "ms", "ms", "par", "gone"] if ix else ["sr", "ms"])
        count = rng.choice([1, 1, 1, 0]) if kind == "ms" else rng.choice([0, 1, 1, 2, 3])
        ifs.append({"n": f"I{ix}", "kind": kind, "els": rng.sample(EL_NAMES, count), "g": rng.random() < 0.9})
    names = rng.sample(["p", "q", "r", "s", "Zp", "a", "p_a", "P", "B", "c1"], rng.randrange(3, 9))
    ports = [{"n": n, "side": rng.choice(["P", "P", "R", "R", "PR"]), "i": rng.randrange(len(ifs)) + 1} for n in names]
    value = {k: "" if rng.random() < missing else rng.choice(["Ev", "Ev", "a", "x_0", "Q+"]) for k in PREFIXES}
    return {"ifs": ifs, "ports": ports, "modes": rng.sample(["On", "Off", "on", "a"], rng.randrange(1, 4)), "trans": rng.sample(["T1", "T2"], rng.randrange(0, 3)),
            "prefix": value, "runs": rng.sample(["R", "R_0", "r", "Main", "a"], rng.randrange(0, 4))}


class Gen:
    """Random requests, most of them sensible"""

    def __init__(self, rng, cfg, focus):
        self.rng, self.cfg, self.focus = rng, cfg, focus
        self.runs = list(cfg["runs"])
        self.areas = []
        self.names = ["N", "N_0", "Ev_R", "Ev_R_0", "Ev_R_1", "Ev_Main_2", "x.y", "xay", "N_7", "n", "ev_r"]

    def sets(self, keys):
        values = {"cat": ["c", "d"], "period": ["0.5", "2.0"], "offset": ["0.25", "0.0"], "activation": ["on-entry", "on-exit", "on-transition"],
                  "scope": ["communication-inter-ecu", "communication-intra-partition"], "rvp": ["return-value-provided", "no-return-value-provided"],
                  "timeout": ["0.5", "1.0"], "area": ["/X/Order"], "conc": ["true", "false"], "msi": ["0.5", "1.0"], "inside": ["/X/Y"], "addr": ["true", "false"],
                  "indirect": ["true", "false"], "errors": ["no-transformer-error-handling", "transformer-error-handling"], "args": ["1", "2,3"],
                  "lock": ["supports-buffer-locking"], "fwd": ["transformer-status-forwarding"]}
        return [{"k": k, "v": self.rng.choice(values[k])} for k in keys]

    def run_name(self):
        return self.rng.choice(self.runs) if self.runs and self.rng.random() < 0.93 else "zz"

    def path(self, sides, kinds, last=None):
        """A path to an element behind a port, mostly of the given sides and interface kinds"""
        rng, ports = self.rng, self.cfg["ports"]
        good = [p for p in ports if p["side"] in sides and self.cfg["ifs"][p["i"] - 1]["kind"] in kinds and self.cfg["ifs"][p["i"] - 1]["els"]]
        port = rng.choice(good) if good and rng.random() < 0.85 else rng.choice(ports)
        name = port["n"] if rng.random() < 0.97 else "zz"
        els = self.cfg["ifs"][port["i"] - 1]["els"]
        if last is not None:
            return [name] + ([rng.choice(last)] if rng.random() < 0.95 else [])
        if len(els) == 1 and rng.random() < 0.5:
            return [name]
        return [name, rng.choice(els) if els and rng.random() < 0.93 else rng.choice(["zz", "a"])] if rng.random() < 0.95 else [name]

    def event(self):
        rng = self.rng
        kind = rng.choice(list(EVENTS))
        form, at, keys = "one", [], []
        if kind in ("error", "received"):
            at = [self.path(["R", "PR"], ["sr"])]
        elif kind == "invoked":
            at = [self.path(["P", "PR"], ["cs"])]
        elif kind == "manager":
            at = [self.path(["P", "PR"], ["ms"])[:1]]
        elif kind == "switch":
            form = rng.choice(["one", "one", "tuple", "list"])
            modes = self.cfg["modes"] * 3 + self.cfg["trans"] + ["zz"]
            at = [self.path(["R", "PR"], ["ms"], modes) for _ in range(1 if form == "one" else 2 if rng.random() < 0.95 else 3)]
            keys = [k for k in ["activation"] if rng.random() < 0.5]
        elif kind == "timing":
            keys = [k for k in ["period", "offset"] if rng.random() < 0.6]
        if rng.random() < 0.2:
            keys.append("cat")
        x = self.sets(keys)
        if rng.random() < 0.03:
            x.append({"k": "junk", "v": "1"})
        return {"op": "event", "k": kind, "run": self.run_name(), "at": at, "form": form, "n": rng.choice(self.names) if rng.random() < 0.35 else "", "x": x}

    def request(self):
        rng = self.rng
        at = self.path(["P", "R", "PR"], ["sr", "nv", "cs", "ms", "par"])
        port = next((p for p in self.cfg["ports"] if p["n"] == at[0]), None)
        itf = self.cfg["ifs"][port["i"] - 1] if port else None
        pool = PRES
        if port and rng.random() < 0.9:
            pool = {"sr": {"R": PRES[:5], "P": PRES[5:7]}, "nv": {"R": PRES[:5], "P": PRES[5:7]}, "ms": {"R": ["ACCESS"], "P": ["ACCESS", "SWITCH"]},
                    "cs": {"R": PRES[7:9], "PR": PRES[7:9]}}.get(itf["kind"], {}).get(port["side"], [""])
        pre = rng.choice(pool) if rng.random() < 0.7 else ""
        if rng.random() < 0.02:
            pre = "CALL"
        plain_mode = itf is not None and itf["kind"] == "ms" and pre == ""
        keys = [k for k in ["cat", "rvp" if itf and itf["kind"] in ("cs", "ms", "par") else "scope"] if rng.random() < 0.25]
        if itf and itf["kind"] == "cs":
            keys += [k for k in ["timeout", "area"] if rng.random() < (0.3 if k == "timeout" or pre != "ASYNC" else 0.05)]
        x = [] if plain_mode else self.sets(keys)
        if not plain_mode and rng.random() < 0.02:
            x.append({"k": rng.choice(["junk", "timeout", "scope"]), "v": "bad"})
        return {"pre": pre, "at": at, "n": rng.choice(self.names) if not plain_mode and rng.random() < 0.3 else "", "x": x,
                "low": rng.random() < 0.3, "sp": rng.choice(["", "", " ", "  "])}

    def build(self):
        rng = self.rng
        kind = rng.choice(["area", "run", "run", "opts", "opts", "prefix", "extend"])
        if kind == "extend":
            k = rng.choice(["args", "args", "lock"])
            return {"op": "extend", "p": rng.choice(self.cfg["ports"])["n"], "k": k, "v": "bad" if rng.random() < 0.03 else self.sets([k])[0]["v"].split(",")[0]}
        if kind == "area":
            fresh = [n for n in ["A", "B", "b", "a", "AB"] if n not in self.areas]
            if fresh:
                self.areas.append(rng.choice(fresh))
                return {"op": "area", "n": self.areas[-1]}
        if kind == "prefix":
            return {"op": "prefix", "k": rng.choice(list(PREFIXES)), "v": rng.choice(["Ev", "New", "N"])}
        if kind == "run":
            fresh = [n for n in ["R", "R_0", "r", "Main", "a", "b", "B"] if n not in self.runs]
            if fresh:
                name = rng.choice(fresh)
                form = rng.choice(["none", "one", "list", "list"])
                count = {"none": 0, "one": 1}.get(form, rng.randrange(0, 4))
                enter = []
                for _ in range(count):
                    if rng.random() < 0.25:
                        enter.append({"ref": True, "n": rng.choice(["/X/Y", "/X/Z"])})
                    else:
                        enter.append({"ref": False, "n": rng.choice(self.areas) if self.areas and rng.random() < 0.9 else "zz"})
                x = self.sets([k for k in ["conc", "msi", "cat", "inside"] if rng.random() < 0.3])
                if all(e["ref"] or e["n"] in self.areas for e in enter):
                    self.runs.append(name)
                return {"op": "run", "n": name, "sym": rng.choice(["", "", "none", "S_1"]), "enter": enter, "x": x, "form": form}
        form = rng.choice(["one", "list", "list", "star", "object"])
        ports = [p["n"] for p in self.cfg["ports"]]
        names = {"one": [rng.choice(ports)], "object": [rng.choice(ports)], "star": []}.get(form, [rng.choice(ports) for _ in range(rng.randrange(0, 4))])
        if form not in ("star", "object") and names and rng.random() < 0.1:
            names[rng.randrange(len(names))] = "zz"
        x = self.sets([k for k in ["addr", "indirect", "errors", "args", "lock", "fwd"] if rng.random() < 0.4])
        if rng.random() < 0.03:
            x.append({"k": "errors", "v": "bad"}) if not any(s["k"] == "errors" for s in x) else None
        return {"op": "opts", "form": form, "names": names, "x": x}

    def __call__(self, _adapter):
        rng, ops = self.rng, []
        for _ in range(rng.randrange(3, 16)):
            kind = self.focus if rng.random() < 0.75 else rng.choice(["event", "access", "build", "find"])
            if kind == "find":
                ops.append({"op": "find", "n": self.run_name()})
            elif kind == "build":
                ops.append(self.build())
            elif rng.random() < 0.08:
                ops.append({"op": "prefix", "k": rng.choice(list(PREFIXES)), "v": rng.choice(["Ev", "New", "N"])})
            elif kind == "event":
                ops.append(self.event())
            else:
                items = [self.request() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                ops.append({"op": "access", "run": self.run_name(), "items": items, "list": len(items) != 1 or rng.random() < 0.3})
        return ops


def key_of(op):
    if op["op"] == "event":
        return "event " + op["k"]
    return op["op"]


def check_behavior(check, focus, parts):
    for part, depth in parts:
        res = tlc("BehaviorMC", MC_CFG % (part, depth))
        check.add_tlc(res, f"behavior-{part}")
        replay_tests(check, BehaviorAdapter, [r for r in res.records if "r" in r], key=key_of)
        replay_queries(check, BehaviorAdapter, [r for r in res.records if "q" in r])
    rng = random.Random(SEED + len(focus))
    plan = []
    for _ in range(check.pick(400, 4000)):
        cfg = gen_world(rng, 0.1)
        if focus != "build" and not cfg["runs"]:
            cfg["runs"] = ["R"]
        plan.append((cfg, Gen(rng, cfg, focus)))
    validate_traces(check, "BehaviorTrace", TRACE_CFG, record_traces(BehaviorAdapter, plan), "BehaviorTrace", key=key_of)


def check_events(check):
    check_behavior(check, "event", [("event", 1), ("names", check.pick(4, 5))])


def check_accesses(check):
    check_behavior(check, "access", [("access", 1), ("accesses", check.pick(3, 4))])


def check_build(check):
    check_behavior(check, "build", [("build", check.pick(3, 4))])


CHECKS = {"C18": check_events, "C19": check_accesses, "C20": check_build}
