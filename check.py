#!/usr/bin/env python3
"""Decides one property of /repo by static analysis.

  check.py C07            exit 0: every decided obligation holds
                          exit 1: VIOLATION line, replay file
                          exit 2: the analysis itself is broken
"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(40000)
REPO = os.environ.get("SPAFE_ROOT", "/repo")


def worker(conn, env, ob):
    import resource
    import threading
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    threading.stack_size(512 << 20)
    out = []

    def body():
        from rules.base import Broken
        from sa.terms import Blowup
        try:
            out.append(dict(ob.run(env)))
        except Broken as e:
            out.append({"status": "broken", "why": str(e)})
        except Blowup as e:
            out.append({"status": "undecided", "why": "decision diagram too large: %s" % e})
        except (RecursionError, MemoryError) as e:
            out.append({"status": "undecided", "why": type(e).__name__})
        except Exception:
            out.append({"status": "undecided", "why": "analyser: " + traceback.format_exc(limit=-4)})
    t = threading.Thread(target=body)
    t.start()
    t.join()
    try:
        conn.send(json.dumps(out[0] if out else {"status": "undecided", "why": "no result"}, default=str))
    finally:
        conn.close()
        os._exit(0)


def run_all(env, obs, limit, total, jobs, stop):
    """one process per obligation"""
    t_end = time.time() + total
    results = [None] * len(obs)
    order = sorted(range(len(obs)), key=lambda k: -obs[k].weight)
    live = {}
    while order or live:
        while order and len(live) < jobs:
            k = order.pop(0)
            if time.time() > t_end:
                results[k] = {"status": "undecided", "why": "time budget of the check used up", "wall": 0}
                continue
            a, b = mp.Pipe(duplex=False)
            p = mp.Process(target=worker, args=(b, env, obs[k]))
            p.start()
            b.close()
            live[k] = (p, a, time.time())
        if not live:
            continue
        mp.connection.wait([c for _, c, _ in live.values()], timeout=0.5)
        for k, (p, c, t0) in list(live.items()):
            r = None
            if c.poll():
                try:
                    r = json.loads(c.recv())
                except EOFError:
                    r = {"status": "undecided", "why": "analysis process ended"}
            elif time.time() - t0 > limit or time.time() > t_end + 20:
                p.kill()
                r = {"status": "undecided", "why": "time limit of one obligation (%d s)" % limit}
            elif not p.is_alive():
                r = {"status": "undecided", "why": "analysis process ended"}
            if r is not None:
                r["wall"] = round(time.time() - t0, 2)
                results[k] = r
                if r["status"] == "refuted" and stop(obs[k]):
                    t_end = 0            # one counterexample decides the property
                p.join(5)
                if p.is_alive():
                    p.kill()
                c.close()
                del live[k]
    return results


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                key, _, text = ln.split(" ", 2)[2].partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def main():
    pid = sys.argv[1]
    verbose = "-v" in sys.argv
    only = [a[2:] for a in sys.argv[2:] if a.startswith("-k")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from sa import program
    from rules import base
    import rules
    rules.load()
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    prog = program.Program(REPO)
    if prog.errors:
        print("analysis broken: " + "; ".join(prog.errors))
        return 2
    base.add_specs(prog)
    env = base.Env(prog, tier, seed)
    try:
        obs = [o for b in base.OBS.get(pid, []) for o in b(env)]
        floor = rules.FLOOR.get(pid, 1)
        if len(obs) < floor:
            raise base.Broken("only %d obligations were found, %d expected" % (len(obs), floor))
    except base.Broken as e:
        print("analysis broken: %s" % e)
        return 2
    if only:
        obs = [o for o in obs if any(s in o.name for s in only)]
    limit, total = (200, 600) if tier == "quick" else (900, 6 * 3600)
    limit = int(os.environ.get("SA_LIMIT", limit))
    finds = known_findings(pid)
    res = run_all(env, obs, limit, total, int(os.environ.get("SA_JOBS", "8")),
                  lambda o: not verbose and o.name not in [k for k, _ in finds])
    count = {}
    for r in res:
        count[r["status"]] = count.get(r["status"], 0) + 1
    if count.get("broken"):
        for o, r in zip(obs, res):
            if r["status"] == "broken":
                print("analysis broken: %s: %s" % (o.name, r["why"]))
        return 2
    viol, known = [], []
    for o, r in zip(obs, res):
        if r["status"] != "refuted":
            continue
        hit = [t for k, t in finds if k == o.name]
        (known if hit else viol).append((o, r, hit[0] if hit else ""))
    if verbose:
        for o, r in zip(obs, res):
            print("%-9s %6.1fs %s %s" % (r["status"], r["wall"], o.name, "" if r["status"] == "proved" else "\n      " + json.dumps({k: v for k, v in r.items() if k not in ("status", "wall", "funcs")}, default=str)[:int(os.environ.get("SA_W", "1500"))]))
    funcs = sorted({f for r in res for f in r.get("funcs", [])})
    rep = None
    if viol:
        rep = os.path.join(HERE, "evidence", pid + ".violation.json")
        with open(rep, "w") as f:
            json.dump([{"obligation": o.name, "where": site(env, o), "report": r} for o, r, _ in viol], f, indent=1, default=str)
    from rules.base import OBS
    n = len(obs)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": rules.EXPLAIN.get(pid, "") + " Decided by abstract interpretation of the source; no library code was executed.",
            "obligations": n, "discharged": count.get("proved", 0),
            "refuted": count.get("refuted", 0), "undecided": count.get("undecided", 0),
            "functions_analysed": len(funcs), "functions": funcs[:200],
            "call_sites_resolved": sum(r.get("calls", 0) for r in res),
            "scalar_slots_compared": sum(r.get("slots", 0) for r in res if isinstance(r.get("slots", 0), int)),
            "rules": sorted({o.name for o in obs})[:400],
            "undecided_obligations": [{"obligation": o.name, "why": r.get("why", "")[:300]} for o, r in zip(obs, res) if r["status"] == "undecided"],
            "modules_parsed": len([m for m in prog.modules if m.startswith("spafe")]),
        },
        "assumptions": rules.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for o, r, text in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, text or o.name))
    print("%s: %d obligations, %d proved, %d refuted, %d undecided (%.1f s)" % (
        pid, n, count.get("proved", 0), count.get("refuted", 0), count.get("undecided", 0), time.time() - t0))
    if viol:
        for o, r, _ in viol:
            print("  %s\n    rule: %s\n    %s" % (site(env, o), o.name, r.get("why", "")))
            if r.get("point"):
                print("    separating point: %s" % (json.dumps(r["point"], default=str)[:700],))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


def site(env, o):
    try:
        return env.where(o.where) if "." in o.where and ":" not in o.where else o.where
    except Exception:
        return o.where


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
