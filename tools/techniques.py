DIFF = "property-based testing: generated inputs, differential against an independent reference implementation"
HIST = "model-based property testing: generated operation histories compared with a reference model, shrunk to a minimal history"
TECH = {i: DIFF for i in "H01 H03 M01 O01 O02 B01 F01 F02".split()}
TECH.update({i: HIST for i in "H07 M02 O03 O04 B04 F03 E01 E02 U03".split()})
TECH["H02"] = "property-based testing: generated splits and entry points (metamorphic), against a reference implementation"
TECH["H04"] = "model-based property testing: generated squeeze histories against the reference output stream"
TECH["H05"] = "property-based testing with giant generated messages against precomputed reference midstates"
TECH["H06"] = "property-based testing: generated streams (files, buffering, pipes) against a reference implementation"
TECH["B02"] = "property-based testing: round trip of generated byte strings"
TECH["B03"] = "metamorphic property-based testing: generated spellings of the same text must decode alike"
TECH["B05"] = "concurrent property-based testing: generated thread programs on a shared object, results against a model, data races by ThreadSanitizer"
TECH["U01"] = "property-based testing: round trip and reference model of hexadecimal text"
TECH["U02"] = "property-based testing: generated texts against a reference model, idempotence"
TECH["U04"] = "property-based testing: names and look-alikes, cross-checking of all size sources"
TECH["X01"] = "property-based testing with guard pages, canaries and AddressSanitizer around every generated buffer"
TECH["X02"] = "metamorphic property-based testing: generated schedules of several computations against their solo runs, ThreadSanitizer"
TECH["X03"] = "metamorphic property-based testing: the same generated history over different prior memory contents"
TECH["X04"] = "property-based testing by generated programs: random multi-file C and C++ programs are compiled, linked and run against expected results"
TECH["X05"] = "property-based testing: the generators, models and reference implementations of all other properties, run in 32-bit, unsigned-char, unoptimised and size-optimised builds"
TECH["X06"] = "metamorphic property-based testing: generated jobs are scaled in one dimension, and their counted work (instrumented build) must scale at most alike"
TECH["X07"] = "stateful model-based property testing: histories on pools of objects used and destroyed through generated base classes, against the reference model and the balance of allocations"
TECH["X08"] = "property-based testing: generated chains of calls whose outputs overlap their inputs, against reference implementations"
TECH["X09"] = "metamorphic property-based testing: the same generated history in plain and in generated surroundings; generated computations while a process or thread ends"
TECH["X10"] = "property-based testing with generated concurrent readers, results against reference implementations, read-only pages, ThreadSanitizer"
TECH["D01"] = "model-based property testing (Hypothesis): generated installation histories against a model of the directory"
TECH["D02"] = "property-based testing (Hypothesis): generated project files, expected versions, idempotence"
TECH["D03"] = "property-based testing (Hypothesis): generated source trees against a model, idempotence"
TECH["D04"] = "property-based testing (Hypothesis): generated build configurations, real builds, results of the built library against Python's hashlib, hmac and base64"
TECH["A01"] = "fault injection into generated histories: the k-th allocation fails, against a model"
NOTE = {"*": "No counterexample among the generated cases counted in the evidence (fixed counts, seeded by VERIF_SEED; failures are shrunk and replayable). "
             "Trusts the reference implementations of harness/ref.cpp (compared with Python's hashlib, hmac and base64 by tools/selftest.py), the generators' reach "
             "(labels in the evidence) and, for memory faults, AddressSanitizer."}
NOTE["X04"] = NOTE["*"].replace("and, for memory faults, AddressSanitizer", "and gcc 13 and clang 18 with libstdc++ (other compilers are not run)")
NOTE["X05"] = NOTE["*"] + " 32-bit builds use clang's runtime, the 32-bit glibc and libstdc++ of the sandbox and 64-bit headers; big-endian machines are out of scope (README)."
NOTE["X06"] = ("No counterexample among the generated pairs of jobs counted in the evidence. Work is counted, not timed: basic blocks (clang's trace-pc-guard), bytes touched by memory and string functions, bytes "
               "allocated; other functions of the C library count only as calls. A growth by three times the factor is allowed.")
NOTE.update({i: "No counterexample among the generated cases counted in the evidence (seeded by VERIF_SEED; failures are shrunk by Hypothesis and replayable). The scripts and make "
                "targets run as an unprivileged user on a scratch copy, with a stand-in for cmake; trusts GNU make, the coreutils and Python." for i in ("D01", "D02", "D03")})
NOTE["D04"] = ("No counterexample among the generated configurations counted in the evidence (seeded by VERIF_SEED; failures are shrunk by Hypothesis for a while, and replayable). Only the compilers and tools of the sandbox "
              "are run (gcc 13, clang 18, GNU ld, lld, CMake, Ninja, GNU make); the Android and mold toolchain files need tools that are not there.")
