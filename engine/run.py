"""Entry point: python3 -m engine.run <property> [quick|thorough]"""
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("THEBOSS_REPO", "/repo")
sys.setrecursionlimit(20000)


class Timeout(Exception):
    pass


def alarm(*_):
    raise Timeout()


def work(task):
    from . import checks
    from .program import Program
    from .report import Report
    name, args, limit, deadline = task
    rep = Report()
    t = time.time()
    limit = int(min(limit, deadline - t))
    if limit < 1:
        rep.dunno("task", "%s%s" % (name, args), "time limit")
        return rep
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        prog = Program(REPO)
        getattr(checks, name)(prog, rep, *args)
    except Timeout:
        rep.dunno("task", "%s%s" % (name, args), "time limit")
    except checks.Missing as e:
        rep.dunno("task", "%s%s" % (name, args), "not present: %s" % e)
    except (MemoryError, RecursionError) as e:
        rep.dunno("task", "%s%s" % (name, args), repr(e)[:200])
    except Exception:
        rep.dunno("task", "%s%s" % (name, args), "analysis gave up: " + traceback.format_exc()[-900:])
    finally:
        signal.alarm(0)
    rep.stats["task_seconds"] = time.time() - t
    return rep


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from . import checks
    from .program import Program
    from .report import Report
    t0 = time.time()
    prog = Program(REPO)
    if not prog.classes:
        print("source under %s cannot be read" % REPO)
        return 2
    tasks = checks.tasks(prog, prop, tier)
    limit = 240 if tier == "quick" else 700
    deadline = t0 + (720 if tier == "quick" else 3000)
    tasks = [(n, a, limit, deadline) for n, a in tasks]
    rep = Report()
    ctx = multiprocessing.get_context("fork")
    jobs = min(8, max(1, len(tasks)))
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        for r in pool.imap(work, tasks, 1):
            rep.merge(r)
    checks.finish(prog, rep, prop)
    return emit(prop, tier, rep, t0, len(tasks))


def emit(prop, tier, rep, t0, ntasks):
    from . import checks
    known = known_findings(prop)
    seen, bad, listed = set(), [], []
    for o in rep.obs:
        if o.verdict != "violated":
            continue
        k = (o.rule, o.where)
        if k in seen:
            continue
        seen.add(k)
        for f in known:
            if f["rule"] == o.rule and f["construct"] == o.where:
                listed.append((f, o))
                break
        else:
            bad.append(o)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    n = {v: sum(1 for o in rep.obs if o.verdict == v) for v in ("holds", "violated", "undecided")}
    per = {}
    for o in rep.obs:
        d = per.setdefault(o.rule, {"holds": 0, "violated": 0, "undecided": 0})
        d[o.verdict] += 1
    funcs = sorted(rep.stats.pop("functions", []))
    cov = {
        "explanation": checks.RULES.get(prop, ""),
        "obligations": len(rep.obs), "decided": n["holds"] + n["violated"], "held": n["holds"],
        "violated": n["violated"], "undecided": n["undecided"],
        "obligations_by_rule": per,
        "undecided_constructs": sorted({"%s: %s (%s)" % (o.rule, o.where, o.detail[:160]) for o in rep.obs
                                        if o.verdict == "undecided"})[:80],
        "constructs": sorted({"%s: %s" % (o.rule, o.where) for o in rep.obs if o.verdict != "undecided"})[:300],
        "functions_visited": funcs,
        "statistics": rep.stats, "tasks": ntasks,
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": checks.LEVEL,
          "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": [o.as_dict() for o in bad],
          "known_findings": [f["what"] for f, _ in listed]}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, sort_keys=True)
    for f, o in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    print("%s: %d obligations, %d hold, %d undecided, %d violated (%d listed), %.1f s"
          % (prop, len(rep.obs), n["holds"], n["undecided"], n["violated"], len(listed), time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        seen = {}
        for o in rep.obs:
            k = (o.rule, o.where, o.verdict)
            seen[k] = seen.get(k, 0) + 1
            if seen[k] == 1 and (o.verdict != "holds" or os.environ["VERIF_VERBOSE"] == "2"):
                print("  ", o.verdict, o.rule, o.where, o.loc, o.detail[:400])
    if bad:
        path = os.path.join(HERE, "evidence", prop + ".violations.json")
        json.dump([o.as_dict() for o in bad], open(path, "w"), indent=1)
        for o in bad:
            print("  %s: %s at %s: %s" % (o.rule, o.where, o.loc, o.detail[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
