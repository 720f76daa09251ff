"""Runs one check: explores, reports, writes evidence and replays."""
import hashlib
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def known_findings(pid):
    """Lines  known: property=<id> key=<json string> <what fails>."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                dec = json.JSONDecoder()
                key, end = dec.raw_decode(rest[len("key="):])
                out.append((key, rest[len("key=") + end:].strip()))
    return out


def write_evidence(pid, level, coverage, wall, violations, assumptions):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": pid,
        "tier": tier(),
        "seed": seed(),
        "level": level,
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    tmp = os.path.join(d, ".%s.tmp" % pid)
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, ensure_ascii=True, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, pid + ".json"))


def write_replay(pid, mod, item):
    d = os.path.join(HERE, "out")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(dict(module=mod), **dict(item, property=pid)), sort_keys=True, ensure_ascii=True, indent=1)
    path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256(body.encode()).hexdigest()[:10]))
    with open(path, "w", encoding="utf-8") as f:
        f.write(body + "\n")
    return path


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    mod = importlib.import_module("checks." + pid.lower())
    t0 = time.time()
    try:
        out = mod.run(tier())
    except Exception:
        import traceback
        traceback.print_exc()
        print("ERROR property=%s the check itself failed" % pid)
        return 2
    # out: dict(level, coverage, assumptions, violations=[dict(msg, key, ...)], errors=[...])
    known = known_findings(pid)
    fresh = []
    for v in out["violations"]:
        hit = [w for k, w in known if k == v.get("key")]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
        else:
            fresh.append(v)
    write_evidence(pid, out["level"], out["coverage"], time.time() - t0, len(fresh), out["assumptions"])
    for v in fresh[:10]:
        path = write_replay(pid, mod.__name__, v)
        print("  %s" % v.get("msg", "")[:400])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for e in out["errors"][:5]:
        print("ERROR", e[:2000])
    c = out["coverage"]
    print("%s: %s %.1fs" % (pid, " ".join("%s=%s" % (k, c[k]) for k in c
                                         if isinstance(c[k], (int, float))), time.time() - t0))
    for k, n in (c.get("inconclusive") or {}).items():
        print("  inconclusive: %s x%s" % (k, n))
    if fresh:
        return 1
    if out["errors"]:
        return 2
    return 0


def replay(path):
    item = json.load(open(path, encoding="utf-8"))
    mod = importlib.import_module(item["module"])
    got = mod.replay(item)
    print("replay:", got)
    return 1 if got else 0
