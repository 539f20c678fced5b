#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
sys.dont_write_bytecode = True
import jobs as J
T = "symbolic execution of the compiled LLVM IR of the real code, branches and assertions decided by Z3"
NOTE = ("Every path within the bounds that the evidence file lists per job is decided (all inputs, shapes, random "
        "numbers symbolic); nothing is claimed beyond them. Trusted: rustc's IR generation, the IR executor in "
        "engine/ (sampled paths are replayed natively and compared on every run), Z3, the reference functions in "
        "harness/. Counterexamples are reported only after they reproduce natively. ")
checks, na = [], []
for p in J.PROPS:
    if p in globals().get("NA", {}):
        na.append(dict(property=p, reason=NA[p]))
    elif hasattr(J, p):
        checks.append(dict(property=p, quick_cmd="bin/check %s quick" % p, thorough_cmd="bin/check %s thorough" % p,
                           technique=T, level="model_checking", level_note=NOTE + (getattr(J, p).__doc__ or "").strip()))
    else:
        na.append(dict(property=p, reason="its check is not built yet"))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harness crate uses the public API only.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
