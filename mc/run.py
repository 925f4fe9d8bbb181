"""python -m mc.run C01 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

from . import build, core

NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def worker_main(conn, shared, modname, pkg, with_src, with_maps, only):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.environ["MPLBACKEND"] = "Agg"
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        sys.stdout = os.fdopen(1, "w", closefd=False)
        import warnings
        warnings.simplefilter("ignore")
        import numpy as np
        np.seterr(all="ignore")
        M = build.import_magpie(pkg, with_src, with_maps)
        mod = importlib.import_module(modname)
    except BaseException:
        conn.send(("dead", traceback.format_exc()))
        return
    conn.send(("ready", None))

    def progress(s):
        b = s.encode()[:4000]
        shared[0:2] = len(b).to_bytes(2, "big")
        shared[2:2 + len(b)] = b
    while True:
        try:
            sh = conn.recv()
        except EOFError:
            return
        if sh is None:
            return
        rec = core.Recorder(progress, only)
        rec.shard = sh
        try:
            mod.run(sh, rec, M)
        except BaseException as e:
            rec.fail({"shard": sh, "after": rec._key}, "exception %r" % (e,),
                     traceback=traceback.format_exc()[-1800:])
        conn.send(("done", rec.pack()))


class Worker:
    def __init__(self, args):
        self.parent, child = mp.Pipe()
        self.shared = mp.RawArray("c", 4096)
        self.proc = mp.Process(target=worker_main, args=(child, self.shared) + args)
        self.proc.start()
        child.close()
        self.shard = None
        self.ready = False
        self.done = False

    def last(self):
        raw = self.shared.raw
        n = int.from_bytes(raw[:2], "big")
        return raw[2:2 + n].decode("utf-8", "replace")


def explore(modname, shards, pkg, with_src, with_maps, only, deadline):
    """Runs every shard; returns a list of result dicts."""
    args = (modname, pkg, with_src, with_maps, only)
    todo = list(shards)
    out = []
    n = max(1, min(NPROC, len(todo)))
    ws = [Worker(args) for _ in range(n)]

    def crash(w, why):
        r = core.Recorder()
        r.shard = w.shard
        r.fail({"shard": w.shard, "last_case": w.last()}, why)
        out.append(r.pack())

    live = set(ws)
    fatal = None
    while live:
        byfd = {w.parent: w for w in live}
        left = deadline - time.time()
        ready, _, _ = select.select(list(byfd), [], [], max(0.1, min(left, 5.)))
        if not ready and left <= 0:
            for w in live:
                w.proc.kill()
                crash(w, "no answer within the time limit")
            break
        for c in ready:
            w = byfd[c]
            try:
                kind, val = c.recv()
            except (EOFError, ConnectionError):
                w.proc.join()
                crash(w, "the process died (exit code %s) while running this case"
                      % w.proc.exitcode)
                live.discard(w)
                if todo:
                    w2 = Worker(args)
                    ws.append(w2)
                    live.add(w2)
                continue
            if kind == "dead":
                fatal = val
                live.discard(w)
                w.proc.join()
                continue
            if kind == "done":
                out.append(val)
            if todo:
                w.shard = todo.pop(0)
                w.last_reset = True
                c.send(w.shard)
            else:
                w.shard = None
                c.send(None)
                w.proc.join()
                live.discard(w)
    if fatal is not None:
        r = core.Recorder()
        r.fail({"import": True}, "the code cannot be imported", traceback=fatal)
        out.append(r.pack())
    return out


def merge(results):
    tot = {"states": set(), "outcomes": set(), "calls": 0, "valid": 0, "samples": [],
           "violations": [], "nviol": 0, "findings": {}, "skipped": 0, "counters": {}}
    for r in results:
        tot["states"] |= r["states"]
        tot["outcomes"] |= r["outcomes"]
        for k in ("calls", "valid", "nviol", "skipped"):
            tot[k] += r[k]
        for k, v in r["counters"].items():
            tot["counters"][k] = tot["counters"].get(k, 0) + v
        tot["samples"] += r["samples"]
        tot["violations"] += r["violations"]
        for k, v in r["findings"].items():
            tot["findings"].setdefault(k, v)
    return tot


def child(path):
    """Runs one environment variant (fresh process, its own malloc settings)."""
    with open(path, "rb") as f:
        a = pickle.load(f)
    res = explore(a["mod"], a["shards"], a["pkg"], a["src"], a["maps"], a["only"], a["deadline"])
    with open(path + ".out", "wb") as f:
        pickle.dump(res, f)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--child":
        return child(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    o = ap.parse_args()
    tier = o.tier if o.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    limit = 780. if tier == "quick" else 6*3600.
    prop = o.prop
    modname = "mc.checks." + prop.lower()
    sys.dont_write_bytecode = True
    mod = importlib.import_module(modname)
    with_src = getattr(mod, "SRC", False)
    with_maps = getattr(mod, "MAPS", False)
    shards = mod.shards(tier)
    only = None
    if o.replay:
        with open(o.replay) as f:
            rp = json.load(f)
        shards = [rp["shard"]] if rp.get("shard") is not None else shards
        tier = rp.get("tier", tier)
    if o.shard is not None:
        shards = [shards[o.shard]]
    results = []
    base = build.make_scratch()
    err = ""
    try:
        pkg = build.copy_tree(base)
        if with_src:
            err = build.build_fortran(pkg, getattr(mod, "FFLAGS", {}).get(tier))
    except Exception:
        err = traceback.format_exc()
    if err:
        r = core.Recorder()
        r.fail({"build": True}, "the code cannot be built", log=err)
        results.append(r.pack())
    else:
        groups = {}
        for s in shards:
            groups.setdefault(json.dumps(s.get("env", {}), sort_keys=True), []).append(s)
        for i, (e, group) in enumerate(sorted(groups.items())):
            env = json.loads(e)
            if not env:
                results += explore(modname, group, pkg, with_src, with_maps, only, t0 + limit)
                continue
            path = os.path.join(base, "child%d" % i)
            with open(path, "wb") as f:
                pickle.dump({"mod": modname, "shards": group, "pkg": pkg, "src": with_src,
                             "maps": with_maps, "only": only, "deadline": t0 + limit}, f)
            en = dict(os.environ)
            en.update(env)
            p = subprocess.run([sys.executable, "-B", "-m", "mc.run", "--child", path],
                               env=en, cwd=core.VERIF)
            if os.path.exists(path + ".out"):
                with open(path + ".out", "rb") as f:
                    results += pickle.load(f)
            else:
                r = core.Recorder()
                r.fail({"env": env}, "the process group died (exit %s)" % p.returncode)
                results.append(r.pack())
    tot = merge(results)
    if hasattr(mod, "finish") and not tot["nviol"]:
        rec = core.Recorder()
        mod.finish(tot, rec, tier)
        tot = merge([tot, rec.pack()])
    # known findings
    known = {k["id"]: k for k in core.known_findings()["findings"] if k["property"] == prop}
    lines = []
    for ident, f in sorted(tot["findings"].items()):
        if ident in known:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, known[ident]["what"]))
        else:
            tot["nviol"] += 1
            tot["violations"].append({"key": f["key"], "what": f["what"], "detail": {"finding": ident},
                                      "shard": f["shard"]})
    cov = {"states": len(tot["states"]), "transitions": tot["calls"],
           "traces_validated_against_impl": tot["valid"],
           "distinct_outcomes": len(tot["outcomes"]),
           "shards": len(shards),
           "samples": tot["samples"][:6],
           "exhaustive": True,
           "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS}
    if tot["counters"]:
        cov["counters"] = tot["counters"]
    if tot["skipped"]:
        cov["skipped_ambiguous"] = tot["skipped"]
    if tot["nviol"]:
        cov["exhaustive"] = False
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": list(mod.ASSUMPTIONS),
          "wall_s": round(time.time() - t0, 2), "violations": tot["nviol"]}
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    if not o.replay and o.shard is None:
        with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s tier=%s states=%d transitions=%d validated=%d outcomes=%d skipped=%d violations=%d %.1fs"
          % (prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
             cov["distinct_outcomes"], tot["skipped"], tot["nviol"], time.time() - t0))
    for ln in lines:
        print(ln)
    if tot["nviol"]:
        rdir = os.path.join(core.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        vs = sorted(tot["violations"], key=lambda v: len(core.dump(v["key"])))
        # the shortest of every kind of failure first
        kinds = []
        for v in vs:
            if v["what"] not in kinds:
                kinds.append(v["what"])
        first = [next(v for v in vs if v["what"] == k) for k in kinds]
        vs = first + [v for v in vs if not any(v is f for f in first)]
        path = os.path.join(rdir, prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "shard": vs[0]["shard"], "key": vs[0]["key"],
                       "what": vs[0]["what"], "detail": vs[0]["detail"], "others": vs[1:40],
                       "replay": "python -B -m mc.run %s --replay %s" % (prop, path)}, f, indent=1)
        for v in vs[:3]:
            print("  %s: %s %s" % (v["what"], core.dump(v["key"])[:600],
                                   core.dump(v["detail"])[-700:]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        return 1
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        prop = sys.argv[1] if len(sys.argv) > 1 else "?"
        print("VIOLATION property=%s replay=%s" % (prop, "none (the check itself failed, see above)"))
        code = 1
    sys.stdout.flush()
    sys.exit(code or 0)
