#!/usr/bin/env python3
"""Makes harness/long_table.h (reference midstates of a very long message), or with --check compares the table's
digests with Python's hashlib and hmac over the whole message (about ten minutes; done when the table was made)."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(ROOT + "/build", exist_ok=True)
exe = ROOT + "/build/longgen"
subprocess.check_call(["/usr/bin/clang++", "-std=c++17", "-O2", "-pthread", "-o", exe, ROOT + "/harness/longgen.cpp", ROOT + "/harness/ref.cpp"])
t = subprocess.check_output([exe], text=True)
if "--check" in sys.argv:
    sys.exit(0 if open(ROOT + "/harness/long_table.h").read() == t else "long_table.h is stale")
open(ROOT + "/harness/long_table.h", "w").write(t)
