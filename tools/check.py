#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current working tree.

A check is a list of parts: model checking of specifications, and batches of executions of the real code whose
recorded traces TLC is asked to accept.  Exit 0: held on everything explored.  Exit 1: VIOLATION line.
Anything else: the check itself could not work."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build, tlc
from props import CHECKS
ROOT = build.ROOT
EVID = os.path.join(ROOT, "evidence")
REPLAY = os.path.join(ROOT, "build", "replay")

def known_findings(prop):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k["status"] == "known"]

def matches(finding, trace):
    """A finding is identified by the exact cause field(s) the harness recorded for the failing execution."""
    m = finding.get("match", {})
    return m.get("harness") == trace.get("harness") and m.get("fam") == trace.get("fam") and m.get("sig") is not None \
        and m["sig"] == trace.get("sig")

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    t0 = time.time()
    budget = 780 if tier == "thorough" else 600
    tmp = tempfile.mkdtemp(prefix="check-%s-" % prop, dir=os.environ.get("VERIF_TMP"))
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "parts": []}
    violations = []
    known_hit = []
    try:
        for part in c["parts"]:
            t1 = time.time()
            if part["kind"] == "model":
                consts = part.get(tier, part.get("quick"))
                r = tlc.model_check(part["module"], consts and cfg_with(part["module"], consts), timeout=max(60, budget - (time.time() - t0)))
                cov["states"] += r["states"]; cov["transitions"] += r["transitions"]
                cov["parts"].append({"model": part["module"], "constants": consts or "as in the cfg", "states": r["states"],
                                     "transitions": r["transitions"], "wall_s": round(time.time() - t1, 1)})
                continue
            exe = build.build(part["harness"])
            n = part[tier] if tier in part else part["quick"]
            base = (seed - 1) * 10000000
            done = 0
            batch = part.get("batch", 2000)
            nacc = 0
            events = 0
            shapes = set()
            g = d = 0
            while done < n and time.time() - t0 < budget and not violations:
                k = min(batch, n - done)
                out = os.path.join(tmp, "tr.json")
                env = dict(os.environ); env.update(part.get("env", {}))
                # scratch only: nothing the code under test does may reach outside
                r = subprocess.run([exe, part["fam"], str(base + done), str(base + done + k), out, "8"], cwd=tmp, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=880)
                if r.returncode:
                    raise SystemExit("harness %s failed with %d:\n%s" % (part["harness"], r.returncode, r.stdout[-2000:]))
                traces = {}
                prep = part.get("prep")
                with open(out) as f:
                    for line in f:
                        t = json.loads(line)
                        t["harness"] = part["harness"]
                        traces[t["id"]] = t
                if len(traces) != k:
                    raise SystemExit("harness %s produced %d of %d traces" % (part["harness"], len(traces), k))
                raw = traces
                if prep:
                    traces = {i: prep(t) for i, t in traces.items()}
                with open(out, "w") as f:
                    for t in traces.values():
                        f.write(json.dumps({"id": t["id"], "ev": t["ev"], **{k: t[k] for k in part.get("keep", ())}}, separators=(",", ":")) + "\n")
                for t in traces.values():
                    events += len(t["ev"])
                    shapes.add(hashlib.md5(json.dumps(t["ev"]).encode()).digest()[:8])
                cfg = trace_cfg(part)
                acc, gg, dd = tlc.validate(part["trace"], out, cfg, timeout=880)
                g += gg; d += dd
                nacc += len(acc)
                rej = sorted(i for i in traces if i not in acc)
                if not cov["samples"] or len(cov["samples"]) < 3:
                    s = min(traces.values(), key=lambda t: (abs(len(t["ev"]) - 25), t["id"]))
                    cov["samples"].append({"harness": part["harness"], "family": part["fam"], "seed": s["id"], "events": s["ev"][:30]})
                for i in rej:
                    t = raw[i]
                    kf = next((k for k in known_findings(prop) if matches(k, t)), None)
                    if kf:
                        known_hit.append(kf["id"])
                        continue
                    if len(violations) < 3:
                        violations.append(report(prop, part, t, traces[i], cfg))
                done += k
            if done < n and not violations:
                cov["parts"].append({"note": "time budget reached", "family": part["fam"], "planned": n})
            cov["traces_validated_against_impl"] += nacc
            cov["states"] += d; cov["transitions"] += g
            cov["parts"].append({"harness": part["harness"], "family": part["fam"], "trace_spec": part["trace"], "executions": done,
                                 "accepted": nacc, "distinct_traces": len(shapes), "events": events, "spec_states": d, "wall_s": round(time.time() - t1, 1)})
            if violations: break
    except tlc.TlcError as e:
        sys.stderr.write("check %s: %s\n" % (prop, e))
        shutil.rmtree(tmp, ignore_errors=True)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for kf in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c.get("level", "model_checking"), "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    if known_hit: cov["known_findings_seen"] = {k: known_hit.count(k) for k in set(known_hit)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in violations:
        print("VIOLATION property=%s replay=%s" % (prop, v))
    return 1 if violations else 0

def cfg_with(module, consts):
    text = open(os.path.join(tlc.SPEC, module + ".cfg")).read()
    out = []
    for line in text.split("\n"):
        name = line.split("=")[0].strip()
        if "=" in line and name in consts:
            line = "  %s = %s" % (name, consts[name])
        out.append(line)
    return "\n".join(out)

def trace_cfg(part):
    return cfg_with(part["trace"], part.get("constants", {}))

def report(prop, part, raw, trace, cfg):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, "%s-%s-%s-%d.json" % (prop, part["harness"], part["fam"], raw["id"]))
    try:
        pos = tlc.locate(part["trace"], trace, cfg, timeout=120)
    except Exception as e:
        pos = None
    ev = trace["ev"]
    with open(p, "w") as f:
        json.dump({"property": prop, "harness": part["harness"], "family": part["fam"], "seed": raw["id"],
                   "trace_spec": part["trace"], "first_unexplained_event": pos,
                   "event": ev[pos - 1] if pos and pos <= len(ev) else None,
                   "rerun": "python3 tools/build.py %s && build/%s %s %d %d OUT.json 1" % (part["harness"], part["harness"], part["fam"], raw["id"], raw["id"] + 1),
                   "trace": ev, "raw": raw if raw is not trace else None}, f, indent=1)
    sys.stderr.write("%s: execution %s/%s seed %d is not a behaviour of %s; first unexplained event %s: %s\n" % (
        prop, part["harness"], part["fam"], raw["id"], part["trace"], pos, json.dumps(ev[pos - 1]) if pos and pos <= len(ev) else "end"))
    return p

if __name__ == "__main__":
    sys.exit(main())
