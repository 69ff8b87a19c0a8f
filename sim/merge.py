"""Merges the evidence of one property's runs in several builds into one file."""
import json
import sys

out, parts = sys.argv[1], sys.argv[2:]
docs = [json.load(open(p)) for p in parts]
m = docs[0]
cov = m["coverage"]


def add(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


builds = {}
for d in docs:
    c = d["coverage"]
    builds[d["label"] + ": " + c["build"]] = {
        "runs": c["simulated_runs"], "nontrivial": c["nontrivial_runs"],
        "judgements": c["judgements"], "digest": c["digest"],
    }
for d in docs[1:]:
    c = d["coverage"]
    for k in ("evaluations", "simulated_runs", "nontrivial_runs", "simulated_seconds", "real_steps",
              "scalar_operations", "judgements", "runs_repeated_for_determinism"):
        cov[k] += c[k]
    # C16 runs the same seeds in every build: the largest number is a lower bound
    cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], c["distinct_nontrivial"])
    for k in ("faults_fired", "environment_events", "number_systems", "storage", "configurations", "inconclusive_runs"):
        add(cov[k], c[k])
    m["violations"] += d["violations"]
    m["violation_details"] += d["violation_details"]
    m["wall_s"] = round(m["wall_s"] + d["wall_s"], 1)
for k in ("runs_per_hour", "seeds_per_hour"):
    cov[k] = round(cov["simulated_runs"] / max(m["wall_s"], 0.1) * 3600)
cov["build"] = "all builds listed in builds"
cov["builds"] = builds
m["label"] = "merged"
json.dump(m, open(out, "w"), indent=1)
