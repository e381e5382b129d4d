"""Generates MANIFEST.json from properties.jsonl and the modules present in mc/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("bounded exhaustive exploration of update histories of the real search spaces", "every history of cuts of the bounded alphabet is executed on the real code; containment of the kept cap is decided on each transition"),
 "C02": ("bounded exhaustive exploration of update histories with a volume oracle", "volume factor and minimality are judged on every transition of the bounded histories"),
 "C03": ("bounded exhaustive exploration of update histories against a status model", "status, unchangedness and tsq are judged against an explicit outcome model on every transition"),
 "C04": ("lockstep exploration of four implementation variants", "four variants run every bounded history side by side and are compared after each step"),
 "C05": ("bounded exhaustive metamorphic exploration", "every reachable state x cut x equivalent representation is executed and compared"),
 "C06": ("exhaustive enumeration of a dense argument grid against optimality conditions", "every formula is evaluated on every grid point and compared with an independent minimisation"),
 "C07": ("exhaustive exploration of scripted environments (all answer sequences up to the depth)", "all oracle answers, statuses and widths up to the iteration bound drive the real loop; traces are compared with a reference state machine"),
 "C08": ("exhaustive exploration of scripted environments (all answer sequences up to the depth)", "all oracle answers, statuses and widths up to the iteration bound drive the real loop; traces are compared with a reference state machine"),
 "C09": ("exhaustive exploration of scripted environments (all answer sequences up to the depth)", "all oracle answers, statuses and widths up to the iteration bound drive the real loop; traces are compared with a reference state machine"),
 "C10": ("exhaustive exploration of all answer trees and integer brackets", "every boolean answer sequence and every small integer bracket and threshold drive the real search"),
 "C11": ("exhaustive exploration of probe sequences", "every sequence of probe values and sub-search outcomes up to the bound, on scripted and on real spaces"),
 "C12": ("exhaustive enumeration of small convex problems and oracle schedules, run to completion", "each enumerated problem is solved by the real code and judged against its planted ball / exact optimum"),
 "C13": ("exhaustive enumeration of small matrices and factorization histories", "all symmetric matrices over small integer sets, alone and in sequence on one manager, against exact rational arithmetic"),
 "C14": ("exhaustive enumeration of small LMIs, points and query histories", "every cut is checked against every grid point whose matrix is exactly semidefinite"),
 "C15": ("exhaustive enumeration of parameters and query histories", "every cut is checked against every better feasible grid point; robust variants against all corner scenarios"),
 "C16": ("exhaustive exploration of query/retry histories", "every history of queries and retries up to the bound, cuts judged against all better discrete points"),
 "C17": ("exhaustive exploration of query histories", "round-robin scan state explored over all query histories, cuts judged against all feasible grid filters"),
 "C18": ("exhaustive enumeration of small systems", "all small positive definite integer systems x right-hand sides x guesses x limits"),
 "C19": ("exhaustive enumeration of small filters", "all filters with roots on a grid inside the unit circle, and all small invalid sequences"),
 "C20": ("exhaustive interleaving exploration under a controlled scheduler", "all operation interleavings and all line-level thread schedules up to the preemption bound, against solo runs"),
 "C22": ("exhaustive enumeration of problem instances and configurations, each run to completion", "every enumerated instance x start x space variant is solved by the real searches and oracles and compared with its known optimum"),
 "C21": ("exhaustive enumeration of small matrices and factorization histories", "all symmetric matrices over small integer sets against exact rational arithmetic"),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc/props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check.sh %s --tier quick" % i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
