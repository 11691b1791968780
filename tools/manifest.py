#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import props
TR = "TLA+ specification; TLC validates traces recorded from the real code (one action per call)"
# closed models of the design checked by TLC within the check
M = {"C01": "SchemeMC", "C02": "SchemeMC, FrameMC", "C03": "SeedTreeMC", "C04": "SeedTreeMC", "C05": "SeedTreeMC", "C06": "ChallengeMC",
     "C10": "RrefMC", "C11": "CanonMC", "C12": "MonoMC", "C13": "MonoMC", "C14": "RrefMC", "C15": "FrameMC", "C16": "FrameMC",
     "C20": "FieldMC", "C21": "SamplerMC", "C22": "IsolationMC"}
# models whose behaviours are also executed by the code
B = {"C07": "LessHist", "C22": "LessHist", "C19": "SpongeMC", "C24": "DrbgMC"}
def technique(pid):
    t = TR
    if pid in M: t += "; TLC checks the property on the closed design model " + M[pid]
    if pid in B: t += "; behaviours enumerated by TLC from module " + B[pid] + " are replayed into the code"
    if pid == "C22": t += "; concurrent openings under ThreadSanitizer"
    return t
BOUND = "Trusted: TLC, the Java operator overrides (cross-checked against the pure TLA+ definitions, see DESIGN.md), the driver, gcc. "
N = {
 "default": "Every recorded call is decided by TLC against the executable specification; the inputs are enumerated on tiny parameter sets and structured or random on the standard ones. "
            "Tiny sets are compiled from the same sources through the LESS_VERIF_PARAMS_H hook. NEON code runs through emulated intrinsics. ",
}
checks = []
for pid in sorted(props.PROPS):
    fn, level, ass = props.PROPS[pid]
    checks.append(dict(property=pid, quick_cmd=f"python3 run.py {pid}", thorough_cmd=f"python3 run.py {pid} --tier thorough",
                       technique=technique(pid), level=level, level_note=N.get(pid, N["default"]) + BOUND + " ".join(a[0].upper() + a[1:] + "." for a in ass)))
na = {"C27": "Running time is not part of the state a TLA+ or Quint specification of this system describes, and traces of calls carry none of it; deciding it needs timing or taint analysis of machine code, a different technique."}
m = dict(version=1, setup_cmd="python3 run.py setup",
         hooks=dict(guard="LESS_VERIF_PARAMS_H", enable="-DLESS_VERIF_PARAMS_H='\"less_toy_params.h\"' -I<folder of the generated header> (lib/build.py); without it the headers are as before",
                    source_commits=["20be2d3"]),
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(na.items()) if p not in props.PROPS])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
