"""C37: calls that overlap in two threads answer as they do alone."""
import itertools
import os
import sys
import threading

import numpy as np

from mc.checks import c36

SRC = True
MAPS = True
BOUNDS = {
    "quick": "two threads under a scheduler that can switch at every line of the library: every public "
             "function that is not random with itself (5 pairs of argument tuples, equal arguments sharing "
             "their arrays, and each of the 5 with its like where every real argument is a little different), with every schedule of 1 switch, and of 2 for two of the pairs where these are at most 900; every remapper class with itself "
             "(4 pairs of set-ups) and 16 x 16 pairs of different functions with every single switch; "
             "in loops, switches at the first two visits of each line",
    "thorough": "9 pairs of argument tuples, all pairs of functions, two switches for classes as well",
}
ASSUMPTIONS = ["a switch inside NumPy, healpy or a compiled extension is not explored",
               "the threads use different objects and do not write the arrays they share",
               "random functions share NumPy's generator and are left out; Monte Carlo weights are drawn before"]


class Sched:
    """Runs two thunks in two threads, one line at a time."""

    def __init__(self, root):
        self.root = root

    def points(self, fn):
        """The switch points of fn run alone: the number of line events that count."""
        n = [0]
        seen = {}

        def local(frame, event, arg):
            if event == "line":
                k = (id(frame.f_code), frame.f_lineno)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= 2:
                    n[0] += 1
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.root) else None
        sys.settrace(glob)
        try:
            r = fn()
        finally:
            sys.settrace(None)
        return r, n[0]

    def run(self, fns, plan):
        """plan: list of (thread, points to run); then the rest of thread 0, then of thread 1."""
        go = [threading.Semaphore(0), threading.Semaphore(0)]
        out = [None, None]
        done = [False, False]
        main = threading.Semaphore(0)
        plan = list(plan)
        budget = [None, None]
        turn = [0]

        def nxt(me, finished):
            """Chooses who runs now; called by the running thread."""
            if finished:
                done[me] = True
            if plan:
                t, b = plan.pop(0)
                budget[t] = b
            else:
                t = 0 if not done[0] else 1
                budget[t] = None
            if done[t]:
                t = 1 - t
                budget[t] = None
            if done[0] and done[1]:
                main.release()
                return
            turn[0] = t
            if t != me or finished:
                go[t].release()
                if not finished and not go[me].acquire(timeout=60):
                    raise RuntimeError("the schedule does not end")

        def body(me):
            seen = {}

            def local(frame, event, arg):
                if event == "line":
                    k = (id(frame.f_code), frame.f_lineno)
                    seen[k] = seen.get(k, 0) + 1
                    if seen[k] <= 2 and budget[me] is not None:
                        budget[me] -= 1
                        if budget[me] < 0:
                            nxt(me, False)
                return local

            def glob(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(self.root) else None
            go[me].acquire()
            sys.settrace(glob)
            try:
                out[me] = fns[me]()
            except BaseException as e:
                out[me] = "refused: " + type(e).__name__
            finally:
                sys.settrace(None)
            nxt(me, True)
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        t, b = plan.pop(0)
        budget[t] = b
        go[t].release()
        if not main.acquire(timeout=120):
            raise RuntimeError("the schedule does not end")
        for t in ts:
            t.join(60)
        return out


def shards(tier):
    t = tier == "thorough"
    out = [{"kind": "fn", "part": i, "of": 24, "t": t} for i in range(24)]
    out += [{"kind": "class", "cls": c, "pair": i, "t": t} for c in c36.CLS for i in range(4)]
    out += [{"kind": "cross", "part": i, "of": 24, "t": t} for i in range(24)]
    return out


def thunk(M, case, share):
    """A call as a function without arguments, ready to run."""
    name, fn, a, k, det = case
    if isinstance(fn, str):
        def f():
            try:
                return c36.scenario(M, fn, c36.newobj(M, fn), *a, **k)
            except Exception as e:
                return "refused: " + type(e).__name__
        return f
    if not share:
        a, k = c36.copy(a), c36.copy(k)

    def g():
        try:
            return fn(*a, **k)
        except Exception as e:
            return "refused: " + type(e).__name__
    return g


def prepared(M, case):
    """Monte Carlo: set up and weighted beforehand, the thread asks only."""
    c, s, t, opt = case[1], case[2][0], case[2][1], dict(case[2][2])
    np.random.seed(3)
    o = c36.newobj(M, c)
    c36.scenario(M, c, o, s, t, opt)
    n = {"B2R": lambda: (s[5], s[2]), "C2S": lambda: (s[5], s[2], s[8])}.get(c[1:], lambda: (12*s[0]**2,))()
    f = (3*np.cos(np.arange(np.prod(n))*1.7)).reshape(n)

    def g():
        try:
            r = [o.remap(f, verbose=False), o.remap(f, w=f**2, verbose=False)]
            if c[1:] in ("B2R", "H2R"):
                fp = np.cos(np.arange(r[0].size)*1.3).reshape(r[0].shape)
                r += list(o.polar2radial(fp, sigma=np.abs(fp) + 0.1))
            return r
        except Exception as e:
            return "refused: " + type(e).__name__
    return g


def moved(case):
    """The same call with every real argument a little different."""
    def mv(x):
        if isinstance(x, (float, np.floating)):
            return x*1.01 + 0.003
        if isinstance(x, np.ndarray) and x.dtype.kind == "f":
            return x*1.01 + 0.003
        if isinstance(x, list) and all(isinstance(v, (float, np.ndarray, list)) for v in x):
            return [mv(v) for v in x]
        return x
    name, fn, a, k, det = case
    return name, fn, tuple(mv(x) for x in a), {q: mv(x) for q, x in k.items()}, det


def explore(rec, S, M, a, b, switches, limit):
    key = {"threads": [c36.describe(a), c36.describe(b)], "switches": switches}
    with rec.case(key):
        mc = [isinstance(q[1], str) and q[1][0] == "m" for q in (a, b)]
        share = a is b
        fns = [prepared(M, q) if m else thunk(M, q, share) for q, m in zip((a, b), mc)]
        np.random.seed(3)
        want, n = [], []
        for f in fns:
            r, k = S.points(f)
            want.append(c36.plain(r))
            n.append(k)
        plans = [[(0, k), (1, 10**9)] for k in range(n[0])]
        if switches > 1 and n[0]*n[1] <= limit:
            plans += [[(0, k), (1, m), (0, 10**9)] for k in range(n[0]) for m in range(n[1])]
        rec.count("schedules", len(plans))
        for p in plans:
            got = S.run(fns, p)
            rec.calls += 2
            rec.state({"threads": key["threads"], "schedule": p})
            for i in (0, 1):
                if not rec.check(c36.equal(c36.plain(got[i]), want[i]), {**key, "schedule": p},
                                 "an answer changes when another call overlaps", thread=i, got=got[i],
                                 want=want[i]):
                    return
        for x in want[0]:
            if not isinstance(x, str):
                rec.outcome(x)


def run(sh, rec, M):
    root = os.path.dirname(os.path.abspath(M.__file__))
    S = Sched(root)
    per = 9 if sh["t"] else 5
    if sh["kind"] == "class":
        cs = c36.setups(sh["cls"])
        pick = [cs[0], cs[0], cs[1], cs[len(cs)//2], cs[-1]]
        i = sh["pair"]
        explore(rec, S, M, pick[i], pick[(i + 1) % 5] if i else pick[1], 2 if sh["t"] else 1,
                1e5)
        return
    gs = {n: c for n, c in c36.groups(M, per).items() if c[0][4]}
    names = sorted(gs)
    if sh["kind"] == "fn":
        rec.count("functions", len(names) if sh["part"] == 0 else 0)
        for name in names[sh["part"]::sh["of"]]:
            cs = gs[name]
            for i, a in enumerate(cs):
                explore(rec, S, M, a, a, 2 if i == 0 else 1, 1e6 if sh["t"] else 900)
                explore(rec, S, M, a, cs[(i + 1) % len(cs)], 2 if i == 0 else 1, 1e6 if sh["t"] else 900)
                explore(rec, S, M, a, moved(a), 1, 0)
    else:
        reps = [gs[n][len(gs[n])//2] for n in names] + [c36.setups(c)[0] for c in c36.CLS]
        if not sh["t"]:
            reps = reps[::max(1, len(reps)//16)]
        for i, j in itertools.permutations(range(len(reps)), 2):
            if (i*len(reps) + j) % sh["of"] == sh["part"]:
                explore(rec, S, M, reps[i], reps[j], 1, 0)
