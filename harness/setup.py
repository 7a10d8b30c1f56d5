"""Checks that the tools the framework needs are there (nothing has to be built)"""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa E402

import autosar.xml  # noqa E402 F401
for jar in common.TLA_JARS.split(":"):
    assert os.path.exists(jar), jar
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
print("ok: library from", os.path.dirname(autosar.xml.__file__))
