#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix commits of /repo and the table below (run by hand, never by a check)"""
import json
import os
import subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"more than two modes": "C28",   # a word of the commit's title -> properties
    "create_package raises": "C09", "find returns None": "C09", "sub-elements of implementation": "C26 C09", "appending something": "C26 C11",
    "write the UUID": "C01 C03", "identifiable elements accept": "C01", "SERVICE-KIND": "C01 C04", "escape markup": "C02", "write annotations": "C03",
    "MAY-BE-UNCONNECTED": "C03", "language paragraphs": "C26 C01", "PRPortPrototype": "C01 C16", "unit name": "C01", "mixed content": "C01",
    "validity of scale": "C01", "rational functions": "C01", "ARRAY-IMPL-POLICY": "C04", "numbers of any": "C05", "check every reference": "C15",
    "every sub-element": "C26 C15 C17", "code descriptors": "C26", "configured documents": "C11", "document mappings leave": "C12",
    "relative base path": "C13", "element types": "C13", "no settings but": "C27", "reader does not": "C08", "malformed element": "C06",
    "writer does not": "C08", "unsupported events": "C06", "only component": "C06", "single com-spec": "C16", "named com-specs": "C16",
    "connectors join": "C17", "names made unique": "C18", "refused event": "C18", "requests can be": "C19", "does not offer": "C19",
    "unknown port add": "C20", "by reference are kept": "C20", "mode switch events": "C18", "default pattern": "C21", "absent limit": "C22",
    "default values": "C22", "model sources": "C23 C24", "outside of packages": "C23", "type emitter": "C23 C24", "array properties": "C23",
    "one dimension": "C23 C25", "pointer types": "C24 C25", "linkage": "C25", "use the symbol": "C25 C24", "unsupported tags inside": "C06", "parts of the admin data": "C06",
    "of unknown type are refused": "C28",
    "instructions do not cut": "C29", "whatever encoding it": "C29",
    "every AUTOSAR notation": "C33", "upper-case prefix": "C33 C05"}
path = os.path.join(VERIF, "known_findings.json")
known = json.load(open(path, encoding="utf-8"))["known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True, check=True).stdout
fixed = []
for line in log.splitlines():
    commit, title = line.split(" ", 1)
    props = [p for key, p in PROPS.items() if key in title]
    if len(props) != 1:
        print("??", line, props)
        continue
    fixed += [f"fixed: property={p} {commit} {title[5:]}" for p in props[0].split()]
json.dump({"known": known, "fixed": fixed}, open(path, "w", encoding="utf-8"), indent=1)
print(len(fixed), "entries")
