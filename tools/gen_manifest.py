#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per harness present, the rest not_applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXH = "exhaustive enumeration of bounded "
T = {
 "C01": (EXH + "call sequences of the real modeler against an explicit protocol state machine", "all call sequences up to a depth over an alphabet of well- and ill-formed calls"),
 "C02": (EXH + "histories with rejected calls; every later output compared with the history without them", "all placements of rejected calls in the enumerated strokes"),
 "C03": (EXH + "Save/Restore/Update/Predict histories against a tree-of-streams model", "all operation sequences up to a depth and all placements of Save and Restore in longer strokes"),
 "C04": (EXH + "placements of Predict in histories; every output compared with the history without them", "all subsets of predict points up to the bound"),
 "C05": (EXH + "sequences of strokes on one modeler; every output compared with that of a new modeler", "all sequences of strokes and interruptions from the alphabet up to a depth"),
 "C06": (EXH + "interleavings of calls to several modelers against solo runs; pairs of call sequences under ThreadSanitizer for shared memory", "all interleavings (merge orders) of the enumerated call sequences"),
 "C07": (EXH + "input sequences of the real modeler; invariants and the sample-count formula checked on every one", "all strokes over the timing and position alphabets up to a depth"),
 "C08": (EXH + "strokes; an executable model of the documented spring and drag equations is replayed against every real result", "all strokes over the alphabets up to a depth, with a float and a double run of the model bounding rounding"),
 "C09": (EXH + "stroke endings; an executable model of the catch-up iteration is replayed against every real result", "all combinations of ending state, stopping distance, iteration cap, rate"),
 "C10": (EXH + "strokes and predict points; Predict compared with the Up it stands for on the real code", "all strokes over the alphabet up to a depth, at every prefix"),
 "C11": (EXH + "strokes and Kalman parameters; an executable model of the documented filter is replayed against every real prediction", "all strokes over the alphabets, at every prefix, with a float and a double run of the model bounding rounding"),
 "C12": (EXH + "strokes and stylus signals; an executable model of window, projection and interpolation is replayed against every real result", "all strokes over the alphabets up to a depth, incl. every pattern of unknown values"),
 "C13": (EXH + "strokes; an executable model of the smoother is replayed against the real modeler, whose spring is made transparent", "all strokes over the timing and position alphabets up to a depth"),
 "C14": (EXH + "strokes and mitigation parameters; an executable model of the blend is replayed against every real result", "all strokes over the alphabets up to a depth"),
 "C15": (EXH + "parameter sets (boundary values, all pairs of fields) against an explicit predicate", "all values of the alphabet for every field, and all pairs of fields"),
 "C16": (EXH + "strokes and transformations; the transformed execution compared with the original one on the real code", "all strokes of the alphabet under all transformations listed"),
 "C17": (EXH + "call sequences over extreme values under address and undefined-behaviour sanitizers", "all call sequences up to a depth over the extreme-value alphabet, for every configuration listed"),
 "C18": (EXH + "operand tuples of the value types against an independent oracle", "all pairs and triples of the value grid"),
 "C19": (EXH + "histories and contents of the results vector; every appended result compared with the plain history", "all choices of vector contents and handling before every call up to a depth"),
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "harness", p.lower() + ".cc")):
        checks.append(dict(property=p, quick_cmd="python3 check.py " + p,
            thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
            evidence_file="evidence/%s.json" % p, technique=T[p][0],
            level="model_checking",
            level_note="Explores, on the real code built from the working tree, " + T[p][1] +
              "; bounds, counts and assumptions are in the evidence file and in DESIGN.md. Nothing is sampled; nothing is claimed beyond the bounds."))
    else:
        na.append(dict(property=p, reason="the check is not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
