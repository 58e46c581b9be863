#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
PY = {"C25", "C26", "C27", "C29"}
TECH = {
 "C01": "property-based testing: generated cut histories, sampled and extremal kept points tested for membership (proptest)",
 "C02": "property-based testing: volume invariant over generated cut histories, reference determinants (proptest)",
 "C03": "property-based testing: optimality oracle (KKT of the minimum-volume ellipsoid) and differential routes (proptest)",
 "C04": "property-based testing: exact verdict oracle on generated cuts, state comparison after refusals (proptest)",
 "C05": "property-based testing: differential execution of three representations over generated histories (proptest)",
 "C06": "property-based testing: state invariants over generated histories (proptest)",
 "C07": "property-based testing: metamorphic relations over scalings, linear maps and translations (proptest)",
 "C08": "model-based testing: generated oracle/space scripts against a reference driver (proptest)",
 "C09": "model-based testing: generated oracle/space scripts against a reference driver (proptest)",
 "C10": "model-based testing: generated oracle/space scripts against a reference driver (proptest)",
 "C11": "model-based testing: generated bisection scripts and real feasibility problems against a bracket model (proptest)",
 "C12": "property-based testing: planted feasible and infeasible problems with theoretical round bounds (proptest)",
 "C13": "property-based testing: generated convex problems with closed-form optima (proptest)",
 "C14": "property-based testing: exactly factorable and planted-spectrum matrices, witness equations, reuse histories (proptest)",
 "C15": "property-based testing: planted matrix inequalities, differential oracles, cut validity on sampled feasible points (proptest)",
 "C16": "property-based testing: generated masks against an independent spectral model, end-to-end design (proptest)",
 "C17": "property-based testing: generated economies against a closed-form profit model, cut validity, end-to-end optimum (proptest)",
 "C18": "model-based testing: query/retry histories against exhaustive enumeration of whole-unit plans (proptest)",
 "C19": "property-based testing: generated data sets against a margin model, planted separable problems (proptest)",
 "C20": "property-based testing: generated graphs against exhaustive max-cut enumeration (proptest)",
 "C21": "property-based testing: generated queries against the analytic problem, end-to-end optimum (proptest)",
 "C22": "property-based testing: differential against a flat reference model, rejection tests (proptest)",
 "C23": "property-based testing: planted-spectrum systems against a textbook CG reference (proptest)",
 "C24": "property-based testing: planted-spectrum matrices, Rayleigh-quotient invariant (proptest)",
 "C25": "model-based testing: generated oracle/space scripts against a reference driver (hypothesis)",
 "C26": "stateful property-based testing: cut sequences against a bookkeeping model (hypothesis)",
 "C27": "property-based testing: generated pencils and economies against eigenvalue and closed-form oracles (hypothesis)",
 "C29": "property-based testing: generated offsets, dimensions and units against a verdict model, differential routes, unit metamorphism (hypothesis)",
 "C28": "property-based testing: generated errors, message round-trips and field-wise equality (proptest)",
}
NOTE = {
 "C18": "cuts that exclude a better whole-unit plan with the signature of known finding transport-sign are reported as KNOWN-FINDING; any other exclusion is a violation",
 "C25": "the drivers crash with the port's own ellipsoid (known finding driver-calls-xc); everything else is decided with scripted spaces",
}
DEF = "random structured search with shrinking; explores generated inputs within the stated bounds, no exhaustiveness claimed"
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "technique": TECH[i], "level": "exploration", "level_note": NOTE.get(i, DEF)})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
