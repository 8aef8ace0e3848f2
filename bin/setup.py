#!/usr/bin/env python3
"""offline set-up: nothing is built; check that both interpreters and the pieces they need are there"""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
r1 = subprocess.run(["python3-vt", "-c", "import z3; print(z3.get_version_string())"])
r2 = subprocess.run(["/opt/venv/bin/python", "-c", "import graphblas, networkx; print(graphblas.__version__, networkx.__version__)"])
sys.exit(r1.returncode or r2.returncode)
