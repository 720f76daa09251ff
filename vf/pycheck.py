"""Glue for checks decided by the Python symbolic executor."""
import importlib
import os

from . import explore, sx


def run(modname, tasks, budget, bounds, stubs=(), assumptions=(), scope=None):
    total, errors, per = explore.run_tasks(modname, tasks, budget)
    viol = []
    for msg, (h, params, inputs) in total.viol.items():
        viol.append(dict(msg="%s %r: %s; inputs %s" % (h, params, msg, show(inputs)), key=None, harness=h, params=params,
                         inputs=inputs, why=msg))
    for m in total.mismatch[:3]:
        # the interpreter and the real code disagree on a value that no check covers
        total.unsupported["translation mismatch"] = total.unsupported.get("translation mismatch", 0) + 1
        if os.environ.get("VF_DEBUG"):
            print("MISMATCH", m)
    inconclusive = dict(total.unsupported)
    for k, n in total.unreproduced.items():
        inconclusive["not reproduced: " + k] = n
    if total.paths == 0:
        errors.append("no path was explored")
    funcs = sorted(f for f in total.functions if scope is None or any(f.startswith(s) for s in scope))
    cov = {
        "states": total.paths,
        "transitions": total.branches,
        "traces_validated_against_impl": total.replayed,
        "samples": total.samples[:4] or ["none"],
        "solver_queries": total.queries,
        "solver_unknown": total.unknown,
        "solver_seconds": round(total.solver_s, 2),
        "infeasible_paths": total.infeasible,
        "incomplete_paths": total.incomplete,
        "exhaustive": total.incomplete == 0 and not errors,
        "inconclusive": inconclusive,
        "assertions_reached": total.covered,
        "harness_paths_and_queries": per,
        "functions_encoded": funcs,
        "bounds": bounds,
        "stubs": list(stubs),
        "explanation": "states = complete execution paths of the real code under symbolic inputs; transitions = "
                       "solver-decided branches on those paths; each path's model was executed on the "
                       "un-instrumented code and its result compared with the symbolic one",
    }
    return dict(level="model_checking", coverage=cov, assumptions=list(assumptions), violations=viol, errors=errors)


def merge(r, other, module):
    """The result of one check with the one of another module's tasks joined to it."""
    r["violations"] += [dict(v, module=module) for v in other["violations"]]
    r["errors"] += other["errors"]
    r["assumptions"] = list(dict.fromkeys(r["assumptions"] + other["assumptions"]))
    a, b = r["coverage"], other["coverage"]
    for k in ("states", "transitions", "traces_validated_against_impl", "solver_queries", "solver_unknown", "infeasible_paths", "incomplete_paths"):
        a[k] += b[k]
    a["solver_seconds"] = round(a["solver_seconds"] + b["solver_seconds"], 2)
    a["exhaustive"] = a["exhaustive"] and b["exhaustive"]
    for k in ("inconclusive", "assertions_reached", "harness_paths_and_queries"):
        if isinstance(a[k], dict):
            a[k] = dict(b[k], **a[k])
        else:
            a[k] = list(a[k]) + [x for x in b[k] if x not in a[k]]
    a["functions_encoded"] = sorted(set(a["functions_encoded"]) | set(b["functions_encoded"]))
    a["bounds"] += "; " + b["bounds"]
    a["stubs"] = list(dict.fromkeys(a["stubs"] + b["stubs"]))
    return r


def show(inputs):
    out = []
    for k, (kind, v) in inputs.items():
        if kind == "str":
            v = "".join(map(chr, v))
        elif kind == "bytes":
            v = bytes(v)
        elif kind == "real":
            v = v[0] / v[1]
        out.append("%s=%s" % (k, ascii(v)))
    return ", ".join(out)[:600]


def replay(item):
    mod = importlib.import_module(item["module"])
    factory = getattr(mod, "world", explore.default_world)
    w = factory(False)
    h = explore.harness_of(w, mod.HARNESS, item["harness"])
    got, _ = explore.run_concrete(h, w, item["params"], item["inputs"])
    return got
