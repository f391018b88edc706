"""setup_cmd: nothing to build; verify that the tools the checks need are there."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import numpy  # noqa: E402
import z3  # noqa: E402
from symx import loader  # noqa: E402

loader.install()
import simplemseed  # noqa: E402,F401

subprocess.run(["/opt/venv/bin/python", "-B", "-c", "import numpy, crc32c, jsonpointer"],
               check=True, env={"PYTHONPATH": loader.SRC, "PYTHONDONTWRITEBYTECODE": "1"})
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("ok z3", z3.get_version_string(), "numpy", numpy.__version__)
