"""
C30 creating by convenience: every creator and the elements it can be asked for, enumerated by spec/Creates.tla
"""
from concurrent.futures import ProcessPoolExecutor
import mod_arxml as arxml
from common import tlc, silenced
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element
import autosar.xml.workspace as ar_workspace

CFG = """CONSTANTS
Base = {base}
Mark = ""
SPECIFICATION Spec
INVARIANTS EmitCase Told
CHECK_DEADLOCK FALSE
"""
OWNERS = {}


def world():
    """A workspace with an interface of each kind and a component that has ports with them"""
    space = ar_workspace.Workspace()
    pkg = space.create_package("World")
    modes = ar_element.ModeDeclarationGroup("Modes", mode_declarations=["OFF", "ON"])
    pkg.append(modes)
    data = ar_element.SenderReceiverInterface("Data")
    pkg.append(data)
    data.create_data_element("E1")
    server = ar_element.ClientServerInterface("Server")
    pkg.append(server)
    server.create_operation("Op1")
    mode = ar_element.ModeSwitchInterface("Mode")
    pkg.append(mode)
    mode.create_mode_group("Group", modes.ref())
    swc = ar_element.ApplicationSoftwareComponentType("Swc")
    pkg.append(swc)
    swc.create_r_port("RData", data)
    swc.create_p_port("PServer", server)
    swc.create_p_port("PMode", mode)
    swc.create_r_port("RMode", mode)
    behavior = swc.create_internal_behavior()
    behavior.create_runnable("Run")
    return space, pkg


def owner_of(rec):
    """The owner whose method is called, and things of its world"""
    space, pkg = world()
    things = {"%iface": pkg.find("Data"), "%swc": pkg.find("Swc")}
    if rec["o"] == "":
        return arxml.py_class(rec["c"]), things
    if rec["o"] == "Document":
        return space, things
    if rec["o"] == "SwcInternalBehavior":
        return pkg.find("Swc").internal_behavior, things
    owner = arxml.build(OWNERS[rec["i"]])
    if isinstance(owner, ar_element.Package):
        space.append(owner)
    elif isinstance(owner, ar_element.CollectableElement):
        pkg.append(owner)
    return owner, things


def argument(arg):
    vals = [arxml.value_of(v, arg["f"]) for v in arg["v"]]
    if not vals:
        return None
    return vals[0] if arg["p"] == "paragraph" else arxml.shaped(arg["f"], vals)


class Odd:
    """Something no method can know"""

    def __repr__(self):
        return "Odd()"


def call(rec, owner, things, again=False, instead=None):
    """instead: (position in the call, value): an argument to be given otherwise"""
    args = [things.get(x, x) for x in rec["first"]]
    kwargs = {}
    for ix, arg in enumerate(rec["call"], 1):
        if again and arg["p"] == "name":
            val = "Again"
        elif instead and ix == instead[0]:
            val = instead[1]
        else:
            val = argument(arg)
        if arg["pos"] == "1":
            args.append(val)
        else:
            kwargs[arg["p"]] = val
    if rec["m"].endswith("_event"):
        kwargs["event_name"] = "Again" if again else "Event"
    if again and rec["m"].endswith("_port"):
        args[0] = "Again"
    return getattr(owner, rec["m"])(*args, **kwargs)


def differences(rec, made):
    out = []
    arxml.compare(made, rec["n"], rec["n"]["c"], out)
    return [d for d in out if not any(d.startswith(f"{rec['c']}.{name}") for name in rec["free"])]


def judge(rec):
    """None, or (kind, detail) of what is wrong"""
    try:
        with silenced():
            owner, things = owner_of(rec)
            before = arxml.listed(getattr(owner, rec["a"] if rec["o"] != "Document" else "packages")) if rec["a"] else []
            made = call(rec, owner, things)
            if rec["a"] == "":
                diffs = differences(rec, made)
                return (diffs[0].split(":")[0], {"differences": diffs[:5]}) if diffs else None
            diffs = differences(rec, made)
            if diffs:
                return diffs[0].split(":")[0], {"differences": diffs[:5]}
            held = arxml.listed(getattr(owner, rec["a"]))
            single = not isinstance(getattr(owner, rec["a"]), list)
            if len(held) != (1 if single else len(before) + 1) or held[-1] is not made:
                return "not held", {"held": [type(h).__name__ for h in held][-5:]}
            if isinstance(made, ar_element.ARElement) or hasattr(made, "ref"):
                if made.parent is not owner and rec["o"] != "Document":
                    return "not owned", {"owner": str(made.parent)}
            if single:
                return None
            second = call(rec, owner, things, again=True)
            held = arxml.listed(getattr(owner, rec["a"]))
            if second is made or len(held) != len(before) + 2 or held[-1] is not second or held[-2] is not made:
                return "second not held", {"held": [type(h).__name__ for h in held][-5:]}
            diffs = differences(rec, made)
            if diffs:
                return "changed by second: " + diffs[0].split(":")[0], {"differences": diffs[:5]}
    except Exception as exc:  # pylint: disable=W0703
        return type(exc).__name__, {"error": f"{type(exc).__name__}: {exc}"[:300]}
    return None


def seen(obj, val, depth=3):
    """Does obj hold val itself, somewhere"""
    if obj is val:
        return True
    if isinstance(obj, (list, tuple)):
        return any(seen(o, val, depth) for o in obj)
    if depth and isinstance(obj, ar_element.ARObject):
        return any(seen(v, val, depth - 1) for k, v in vars(obj).items() if k != "parent")
    return False


def judge_other(rec, other):
    """The same call with an argument given otherwise: done as said, or refused with the owner left alone"""
    arg = rec["call"][other["at"] - 1]
    val = Odd() if other["way"] == "odd" else arg["v"][0]["x"]
    where = f"{arg['p']}:{other['way']}"
    with silenced():
        owner, things = owner_of(rec)
        held = lambda: arxml.listed(getattr(owner, rec["a"] if rec["o"] != "Document" else "packages")) if rec["a"] else []  # noqa: E731
        before = held()
        try:
            made = call(rec, owner, things, instead=(other["at"], val))
        except Exception as exc:  # pylint: disable=W0703
            if len(held()) != len(before) or any(a is not b for a, b in zip(held(), before)):
                return f"{where}:held though refused", {"error": f"{type(exc).__name__}: {exc}"[:300]}
            return (f"{where}:refused", {"error": f"{type(exc).__name__}: {exc}"[:300]}) if other["due"] == "kept" else None
        if other["due"] == "err":
            return f"{where}:not refused", {}
        if other["way"] == "odd":
            return None if seen(made, val) else (f"{where}:ignored", {})
        try:
            diffs = differences(rec, made)
        except Exception as exc:  # pylint: disable=W0703
            diffs = [f"{type(exc).__name__}: {exc}"]
        return (f"{where}:{diffs[0].split(':')[0]}", {"differences": diffs[:5]}) if diffs else None


def _job(recs):
    out = [(rec, *bad) for rec in recs for bad in [judge(rec)] if bad]
    return out + [(rec, *bad) for rec in recs for other in rec["others"] for bad in [judge_other(rec, other)] if bad]


def c30(check):
    total = {}
    arxml.load(check, "fields", pairs="FALSE")
    for base in (3,) if check.quick else (3, 1117, 5003, 7919, 104729):
        res = tlc("CreatesMC", CFG.format(base=base), workers=6)
        check.add_tlc(res, f"creates_{base}")
        cases = []
        for rec in res.records:
            if rec["k"] == 0:
                OWNERS[rec["i"]] = rec["on"]
            else:
                cases.append(rec)
        cases.sort(key=lambda r: (r["i"], r["k"]))
        parts = [cases[lo:lo + 60] for lo in range(0, len(cases), 60)]
        with ProcessPoolExecutor(max_workers=7) as pool:
            for fails in pool.map(_job, parts, chunksize=2):
                for rec, key, detail in fails:
                    check.violation(f"{rec['o']}.{rec['m']}:{rec['c']}:{key}",
                                    {"owner": rec["o"], "method": rec["m"], "creates": rec["c"], "style": rec["style"],
                                     **detail, "arguments": [[a["p"], a["v"]] for a in rec["call"]], "element": rec["n"]})
        for rec in cases:
            name = f"{rec['o']}.{rec['m']}" if rec["o"] else f"{rec['c']}.{rec['m']}"
            total[name] = total.get(name, 0) + 1
        check.validated += len(cases) + sum(len(rec["others"]) for rec in cases)
        for rec in cases:
            for other in rec["others"]:
                total["given by path" if other["way"] == "text" else "given something odd"] = \
                    total.get("given by path" if other["way"] == "text" else "given something odd", 0) + 1
        mid = cases[len(cases) // 2]
        check.sample({k: mid[k] for k in ("o", "m", "c", "style", "first")} | {"arguments": [a["p"] for a in mid["call"]]})
    check.cov["calls_by_creator"] = total


CHECKS = {"C30": c30}
