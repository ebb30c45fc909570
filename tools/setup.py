"""setup_cmd: nothing has to be built (Python code under test, monitors in Python); verify that the pieces are there."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import memo      # noqa: E402
import cases     # noqa: E402

assert len(cases.POOL) > 50 and os.path.exists(memo.PATH if hasattr(memo, "PATH") else os.path.join(HERE, "data", "memo.bin"))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
subprocess.run([sys.executable, "-c", "import sympy, numpy, ikbtbasics.kin_cl"], check=True, cwd="/tmp",
               env=dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1"))
print("setup ok")
