#!/usr/bin/env python3
"""checks that the tools the checks need are there; nothing is built (Python only)"""
import subprocess
import sys
for cmd in (["python3-vt", "-c", "import z3, cvc5; print('z3', z3.get_version_string())"],
            ["/opt/venv/bin/python", "-c", "import numpy, pandas, h5py, scipy, sasmodels, mcsas3"]):
    if subprocess.run(cmd).returncode:
        sys.exit(1)
