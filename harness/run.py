"""Entry point of every check: run.py <property id>"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Check  # noqa E402

MODULES = {
    "C01": "mod_arxml", "C02": "mod_arxml", "C03": "mod_arxml", "C04": "mod_enums", "C05": "mod_numbers", "C15": "mod_enums",
    "C26": "mod_containers", "C28": "mod_shortforms", "C29": "mod_xmlforms",
    "C30": "mod_creates", "C31": "mod_alone", "C32": "mod_views", "C33": "mod_numberforms",
    "C11": "mod_documents", "C12": "mod_documents", "C13": "mod_config", "C14": "mod_templates",
    "C06": "mod_exchange", "C07": "mod_exchange", "C08": "mod_exchange", "C27": "mod_config",
    "C18": "mod_behavior", "C19": "mod_behavior", "C20": "mod_behavior",
    "C21": "mod_values", "C22": "mod_limits", "C23": "mod_types", "C24": "mod_types", "C25": "mod_types",
    "C16": "mod_ports", "C17": "mod_composition",
    "C09": "mod_packages", "C10": "mod_packages",
}


ODD = (AttributeError, TypeError, LookupError, AssertionError, NotImplementedError, UnboundLocalError)


def main():
    prop = sys.argv[1]
    try:
        module = importlib.import_module(MODULES[prop])
        check = Check(prop)
        try:
            module.CHECKS[prop](check)
        except ODD as exc:  # the library raised, or gave something no specified step gives, outside a replayed step
            check.violation(f"unexpected:{type(exc).__name__}", {"error": str(exc)[:300], "where": traceback.format_exc()[-1500:]})
        return check.finish()
    except Exception:  # pylint: disable=W0703
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
