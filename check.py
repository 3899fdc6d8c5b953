#!/usr/bin/env python3
"""check.py <PROPERTY> : decides one property of /repo's current working tree by static analysis.
exit 0: no violation; exit 1 and `VIOLATION property=<id> replay=<path>`: violated; exit 2: could not analyse."""
import os, sys, json, time, hashlib, threading, multiprocessing, resource, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
UNIT_SECONDS = 240 if TIER == "quick" else 700

def codehash():
    fs = []
    for d in ("engine", "rules"):
        fs += [os.path.join(HERE, d, f) for f in os.listdir(os.path.join(HERE, d)) if f.endswith(".py")]
    return build.filehash(fs)

# ------------------------------------------------------------------ workers
_D = {}
def load(path):
    from engine import mir
    if path not in _D: _D[path] = mir.Dump(path)
    return _D[path]
def unit_job(job):
    """one analysed slice, in its own process"""
    kind, path, name, part = job
    res = {}
    def go():
        sys.setrecursionlimit(1000000)
        try:
            if kind in ("program", "errors"):
                from rules import unit, program
                d = load(path)
                names = [v["n"] for v in d.T(d.find_adt("RewardsInstruction"))["v"]]
                u = unit.Unit(d, names, name, part)
                res["obs"] = program.run(u, kind == "errors")
                res["stats"] = {"events": len(u.I.events), "loops": len(u.I.loopinfo), "giveups": len(u.I.giveups), "unknown": len(u.I.unknown),
                                "functions": len({w[1] for e in u.I.events for w in e["where"]}), "steps": getattr(u.I, "steps", 0), "success": u.ok is not unit.FALSE}
                res["why"] = [str(g)[:200] for g in u.I.giveups][:5] + [str(k)[:120] for k in list(u.I.unknown)[:5]]
            else:
                from rules import client
                res["obs"], res["stats"] = client.unit(load(path), name, part); res["why"] = []
        except MemoryError: res["error"] = "out of memory"
        except Exception as e: res["error"] = "%s: %s" % (type(e).__name__, str(e)[:200]); res["tb"] = traceback.format_exc()[-1500:]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGALRM, lambda *a: os._exit(17))
    signal.alarm(UNIT_SECONDS)
    threading.stack_size(512 << 20)
    t = threading.Thread(target=go); t.start(); t.join()
    return res
def child(job, out):
    try:
        r = unit_job(job)
        with open(out + ".tmp", "w") as f: json.dump(r, f)
        os.rename(out + ".tmp", out)
    finally: os._exit(0)
def run_jobs(jobs, key):
    """run the jobs on all cores (one fresh process each); results keep the jobs' order"""
    cache = os.path.join(build.B, "cache-" + key); os.makedirs(cache, exist_ok=True)
    for o in os.listdir(build.B):
        if o.startswith("cache-") and o != "cache-" + key:
            import shutil; shutil.rmtree(os.path.join(build.B, o), ignore_errors=True)
    outs = [os.path.join(cache, hashlib.sha1(repr((k, os.path.basename(w), n, p)).encode()).hexdigest()[:20] + ".json") for k, w, n, p in jobs]
    todo = [i for i in range(len(jobs)) if not os.path.exists(outs[i])]
    ctx = multiprocessing.get_context("fork")
    for j in {jobs[i][1] for i in todo}: load(j)
    running = {}; fail = {}
    n = os.cpu_count() or 4
    todo.reverse()
    while todo or running:
        while todo and len(running) < n:
            i = todo.pop()
            p = ctx.Process(target=child, args=(jobs[i], outs[i])); p.start(); running[i] = p
        for i, p in list(running.items()):
            p.join(0.01)
            if p.exitcode is not None:
                del running[i]
                if not os.path.exists(outs[i]): fail[i] = "time or memory limit (exit %s)" % p.exitcode
    res = []
    for i in range(len(jobs)):
        if i in fail: res.append({"error": fail[i]})
        else: res.append(json.load(open(outs[i])))
    for i in range(len(jobs)):          # errors are not cached
        if "error" in res[i] and os.path.exists(outs[i]): os.unlink(outs[i])
    return res

# ------------------------------------------------------------------ one property
def label(name, part):
    t = []
    for k, v in part.get("cases", {}).items(): t.append("%s=%s" % (k, v))
    for (a, b), v in part.get("same", {}).items(): t.append("%s%s%s" % (a, "==" if v else "!=", b))
    if "kind" in part: t.append(part["kind"])
    return name + ("[" + ",".join(t) + "]" if t else "")
def known():
    p = os.path.join(HERE, "known-findings.txt")
    out = {}
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("finding: "):
            body = l[len("finding: "):]
            prop, key = body.split(" ", 2)[:2]
            out[(prop.split("=", 1)[1], key.split("=", 1)[1])] = body
    return out

def main():
    prop = sys.argv[1]
    t0 = time.time()
    try: (prog, cli), h = build.dump()
    except build.BuildError as e:
        print(e); return 2
    from rules import catalog
    key = h + "-" + codehash() + "-" + TIER
    viol, und, proved, vac, notes = [], [], 0, 0, []
    units = []; stats = {}
    missing = catalog.anchors(load(prog), load(cli), prop)
    for m in missing: viol.append(("anchor:" + m[0], m[1], []))
    jobs = [] if missing else [(k, prog if w == "prog" else cli, n, p) for k, w, n, p in catalog.jobs(prop, load(prog))]
    t1 = time.time()
    obs_n = {}
    for job, r in zip(jobs, run_jobs(jobs, key)):
        nm = label(job[2], job[3]); units.append(nm)
        if "error" in r:
            und.append((nm, "unit", "analysis stopped: " + r["error"], [])); continue
        for k, v in r["stats"].items():
            if isinstance(v, int): stats[k] = stats.get(k, 0) + int(v)
        c = 0
        for p, name, status, msg, where in r["obs"]:
            if p != prop: continue
            if status == "proved": proved += 1; c += 1
            elif status == "vacuous": vac += 1
            elif status == "undecided": und.append((nm, name, msg, where or []))
            else: viol.append((nm + "/" + name, msg, where or []))
        obs_n[nm] = c
        if r.get("why"): notes.append("%s: %s" % (nm, "; ".join(r["why"])))
    if not missing:
        for name, status, msg, where in catalog.direct(prop, load(prog), load(cli), build.REPO):
            units.append(name)
            if status == "proved": proved += 1
            elif status == "undecided": und.append(("source", name, msg, where or []))
            else: viol.append((name, msg, where or []))
    kn = known()
    evd = os.path.join(HERE, "evidence"); os.makedirs(evd, exist_ok=True)
    fresh, listed = [], []
    for k, msg, where in viol:
        (listed if (prop, k) in kn else fresh).append((k, msg, where))
    for k, msg, where in listed: print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k, msg))
    for nm, name, msg, where in und[:40]: print("UNDECIDED property=%s %s/%s: %s" % (prop, nm, name, msg))
    for n in notes[:20]: print("note: " + n)
    replay = os.path.join(evd, prop + ".violations.txt")
    if os.path.exists(replay): os.unlink(replay)
    # the same construct usually breaks several slices: report each construct once, list every slice in the replay file
    if fresh:
        groups = {}
        for k, msg, where in fresh:
            w = "; ".join("%s in %s" % tuple(x) for x in (where or [])[:6])
            groups.setdefault((msg, w), []).append(k)
        with open(replay, "w") as f:
            f.write("property %s, /repo as of this run; reproduce with: python3 /verif/check.py %s\n" % (prop, prop))
            for (msg, w), ks in groups.items(): f.write("\n%s\n  at: %s\n  slices: %s\n" % (msg, w, ", ".join(ks)))
        for (msg, w), ks in list(groups.items())[:12]:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            print("  rule: %s\n  what: %s\n  where: %s%s" % (ks[0], msg, w, "" if len(ks) == 1 else "  (+%d more slices)" % (len(ks) - 1)))
    lev, expl, assume = catalog.describe(prop)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": lev,
          "coverage": {"explanation": expl, "units": len(units), "unit_names": units[:120], "obligations_proved": proved, "obligations_undecided": len(und),
                       "obligations_violated": len(fresh), "obligations_vacuous": vac, "known_findings": len(listed), "analysis": stats,
                       "undecided": ["%s/%s: %s" % x[:3] for x in und[:40]], "source_hash": h,
                       "violation_list": [{"what": "%s: %s" % (k, msg), "where": "; ".join("%s in %s" % tuple(x) for x in (w or [])[:4]), "replay": replay} for k, msg, w in fresh[:50]]},
          "assumptions": assume, "wall_s": round(time.time() - t0, 2),
          "violations": len(fresh)}
    with open(os.path.join(evd, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("property=%s units=%d proved=%d undecided=%d vacuous=%d violated=%d known=%d wall=%.1fs" % (prop, len(units), proved, len(und), vac, len(fresh), len(listed), time.time() - t0))
    return 1 if fresh else 0
if __name__ == "__main__":
    sys.exit(main())
