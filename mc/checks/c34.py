"""C34: progress output."""
import io
import itertools
import os
import re
import sys
import tempfile

import numpy as np

from mc.core import close

SRC = False
MAPS = True
PI, TWO = np.pi, 2*np.pi
BOUNDS = {
    "quick": "the bar of every loop of 1..130, 199, 200, 250, 997 and 1000 steps at every step, with "
             "8 refresh rates, 4 widths, 4 kinds of markers and edges, with and without text and index; "
             "results and silence of every remapper and operation with progress on and off, "
             "on grids of 1..60 rows",
    "thorough": "every loop of 1..400 steps",
}
ASSUMPTIONS = ["where the filled part is a whole number of markers, rounding may show one less, "
               "except at the end"]


class Capture:
    """Everything written to file descriptor 1 or sys.stdout."""

    def __enter__(self):
        sys.stdout.flush()
        self.file = tempfile.TemporaryFile()
        self.saved = os.dup(1)
        os.dup2(self.file.fileno(), 1)
        self.text = ""
        self.pos = 0
        return self

    def new(self):
        """Text since the last call."""
        sys.stdout.flush()
        self.file.seek(self.pos)
        b = self.file.read()
        self.pos += len(b)
        return b.decode()

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.saved, 1)
        os.close(self.saved)
        self.file.close()
        return False


STYLES = [{}, {"marker_done": "=", "marker_undone": ".", "bar_edges": "!"},
          {"marker_done": "*", "marker_undone": " ", "bar_edge_left": "[", "bar_edge_right": "]"},
          {"bar_edges": "/", "bar_edge_left": "<"}]


def shards(tier):
    ns = list(range(1, 401 if tier == "thorough" else 131)) + [199, 200, 250, 997, 1000]
    out = [{"kind": "bar", "lengths": ns[k::16]} for k in range(16)]
    for c in ("dB2R", "mB2R", "dC2S", "mC2S", "dH2R", "mH2R", "dH2P", "mH2P", "dH2O"):
        out.append({"kind": "verbose", "cls": c})
    return out


def run(sh, rec, M):
    if sh["kind"] == "bar":
        bars(sh, rec, M)
    else:
        verbose(sh, rec, M)


def bars(sh, rec, M):
    fn = M.utils.progress_bar
    for n in sh["lengths"]:
        full = n <= 60 or n in (100, 128, 997, 1000)
        for i, (style, width, ref) in enumerate(itertools.product(
                STYLES, (50, 1, 7, 30), (50, 1, 2, 3, 7, 10, 100, 1000) if full else (50, 3))):
            if not full and (i % 8) > 1:
                continue
            if n > 200 and i % 9:
                continue
            text = None if i % 2 else "Some: work"
            index = bool(i % 3 == 0)
            kw = dict(style)
            if width != 50 or i % 5:
                kw["bar_length"] = width
            if ref != 50:
                kw["num_refresh"] = ref
            if text is not None:
                kw["explanation"] = text
            if index:
                kw["indexing"] = True
            key = {"length": n, "options": kw}
            done, undone = style.get("marker_done", "#"), style.get("marker_undone", "_")
            e = style.get("bar_edges", "|")
            left, right = style.get("bar_edge_left", e), style.get("bar_edge_right", e)
            pat = re.compile(re.escape((text + " : " if text else "") + left) + "(" + re.escape(done) +
                             "*)(" + re.escape(undone) + "*)" + re.escape(right) + r" +(\d+)% ?" +
                             (r"\[(\d+)/(\d+)\]" if index else "") + r"\s*\Z")
            with rec.case(key), Capture() as cap:
                out = []
                for k in range(n):
                    rec.call(fn, k, n, **kw)
                    if n <= 60:
                        out.append(cap.new())
                if n > 60:
                    judge_all(rec, key, cap.new(), n, width, ref, pat, index)
                    continue
                aligned(rec, key, "".join(out))
                lines, last = 0, -1
                for k, t in enumerate(out):
                    if t == "":
                        rec.check(k < n - 1, key, "no bar at the end")
                        continue
                    ok = t.startswith("\r") and ("\n" in t) == (k == n - 1)
                    if k == n - 1:
                        ok = ok and t.endswith("\n") and t.count("\n") == 1
                    rec.check(ok, key, "line ends", step=k, got=t)
                    for ln in t.split("\r")[1:]:
                        lines += 1
                        last = one(rec, key, ln, k, n, width, pat, index, last, style)
                want = min(ref, n)
                rec.check(want <= lines <= 2*want + 2, key, "number of refreshes", got=lines)
                rec.outcome(lines, last)


def aligned(rec, key, text):
    """Every bar covers the one before it."""
    w = {len(re.sub(r"\[\d+/\d+\]", "", ln).rstrip()) for ln in text.split("\r")[1:]}
    rec.check(len(w) <= 1, key, "the lines have different lengths", got=sorted(w))


def one(rec, key, ln, k, n, width, pat, index, last, style):
    m = pat.match(ln)
    if not rec.check(m is not None, key, "form of the bar", step=k, got=ln):
        return last
    d, u, pc = len(m.group(1)), len(m.group(2)), int(m.group(3))
    rec.check(d + u == width, key, "width of the bar", step=k, got=ln)
    ex, rest = divmod((k + 1)*width, n)
    rec.check(d == ex or (rest == 0 and d == ex - 1 and k + 1 < n), key, "filled part", step=k, got=ln)
    ex, rest = divmod((k + 1)*100, n)
    rec.check(pc == ex or (rest == 0 and pc == ex - 1 and k + 1 < n), key, "percentage", step=k, got=ln)
    rec.check(pc >= last, key, "the bar runs backwards", step=k, got=ln)
    if index:
        rec.check((int(m.group(4)), int(m.group(5))) == (k + 1, n), key, "index", step=k, got=ln)
    return pc


def judge_all(rec, key, text, n, width, ref, pat, index):
    """Long loops: the whole output at once; the step of a line is the one that fits."""
    ok = text.startswith("\r") and text.endswith("\n") and text.count("\n") == 1
    rec.check(ok, key, "line ends", got=text[-200:])
    lines = text.split("\r")[1:]
    aligned(rec, key, text)
    want = min(ref, n)
    rec.check(want <= len(lines) <= 2*want + 2, key, "number of refreshes", got=len(lines))
    last = -1
    for i, ln in enumerate(lines):
        m = pat.match(ln)
        if not rec.check(m is not None, key, "form of the bar", got=ln):
            return
        d, u, pc = len(m.group(1)), len(m.group(2)), int(m.group(3))
        rec.check(d + u == width, key, "width of the bar", got=ln)
        rec.check(pc >= last, key, "the bar runs backwards", got=ln)
        last = pc
        if index:
            k = int(m.group(4))
            ex, rest = divmod(k*width, n)
            rec.check(d == ex or (rest == 0 and d == ex - 1 and k < n), key, "filled part", got=ln)
        rec.check(abs(d*100./width - pc) <= 100./width + 2, key, "filled part and percentage differ", got=ln)
    rec.check(d == width and pc == 100, key, "the bar does not end full", got=lines[-1])
    rec.outcome(len(lines))


def build(M, c, rows):
    mod = M.densegrid if c[0] == "d" else M.montecarlo
    k = c[1:]
    o = getattr(mod, {"B2R": "Box2Ring", "C2S": "Cube2Shell", "H2R": "Heal2Ring", "H2P": "Heal2Polar",
                      "H2O": "Heal2Ortho"}[k])()
    if k == "B2R":
        o.setup_box(-1., 1., 3, -1., 1., 3)
        (o.setup_polar if c[0] == "d" else o.setup_polar_lin)(0.1, 1.2, 2, rows)
        return o, (3, 3), (rows, 2)
    if k == "C2S":
        o.setup_cube(-1., 1., 2, -1., 1., 2, -1., 1., 2)
        (o.setup_polar if c[0] == "d" else o.setup_polar_lin)(0.1, 1., min(rows, 3), 1)
        return o, (2, 2, 2), None
    o.setup_map(1)
    if k == "H2R":
        o.setup_polar_cap(0., 1., 2, rows)
        return o, (12,), (rows, 2)
    o.setup_box(1., 1, y_grid=rows)
    return o, (12,), None


def verbose(sh, rec, M):
    c = sh["cls"]
    for rows in list(range(1, 13)) + [20, 49, 51, 60]:
        key = {"class": c, "rows": rows}
        with rec.case(key):
            res = {}
            for v in (True, False):
                with Capture() as cap:
                    o, shp, pol = build(M, c, rows)
                    rec.check(cap.new() == "", key, "set-up writes output")
                    said = {}

                    def ask(name, fn):
                        r = rec.call(fn)
                        said[name] = cap.new()
                        res[v, name] = [np.array(x, dtype=float) for x in
                                        (r if isinstance(r, (tuple, list)) else [r])] \
                            if r is not None else []
                    if c[0] == "m":
                        np.random.seed(5)
                        ask("weights", lambda: o.get_weights(mc_size=7, verbose=v))
                        res[v, "state"] = [np.random.random_sample(2)]
                    n = int(np.prod(shp))
                    f = (np.arange(n)*1.5 + 1.).reshape(shp)
                    ask("remap", lambda: o.remap(f, verbose=v))
                    if c != "dC2S":
                        ask("weighted", lambda: o.remap(f, w=f, verbose=v))
                    if c[1:] == "B2R":
                        ask("mask", lambda: o.get_mask_in_bound(verbose=v))
                        res[v, "mask"] = [np.array(o.mask_in_bound)]
                        o2 = build(M, c, rows)[0]
                        if c[0] == "m":
                            np.random.seed(5)
                            rec.call(o2.get_weights, mc_size=7, verbose=False)
                        cap.new()
                        o = o2
                    if pol:
                        g = np.ones(pol)
                        ask("radial", lambda: o.polar2radial(g, sigma=g, verbose=v))
                        ask("radial again", lambda: o.polar2radial(g, w=g, verbose=v))
                    texts = dict(said)
                for name, t in texts.items():
                    if not v:
                        rec.check(t == "", key, "output although switched off: " + name, got=t)
                    else:
                        rec.check(t == "" or t.endswith("\n"), key, "output without line end: " + name, got=t)
                        if (c[0] == "m" or c == "dC2S") and name in ("weights", "remap", "weighted"):
                            rec.check("100%" in t, key, "no full bar for " + name, got=t)
            for k in [q[1] for q in res if q[0]]:
                a, b = res[True, k], res[False, k]
                for x in a:
                    rec.outcome(x)
                rec.check(len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True)
                                                   for x, y in zip(a, b)), key,
                          "progress output changes the result of " + k)
