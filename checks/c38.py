"""C38: plots show exactly the data they are given, where their definition puts it."""
import os, tempfile
import numpy as np

RULE = ("random sets of points (one to several sets, one to six dimensions, single points, duplicates, constant columns, negative and huge values) are handed to every plot class with random options "
        "(bounds, reversal, normalisation, order, labels, styles, drawing mode, own axes, more than one drawing); the artists on every axes are read back - positions of markers, lines, polygons, images, "
        "ticks and texts - and compared with the definition of the plot evaluated on copies of the data; landscapes are compared with evaluations of their problem; distinct states are different (plot, options, data)")
REQUIRED = ["scatter", "pairwise", "three_d", "lines", "pcp", "heatmap", "ordered", "petal", "radar", "radviz", "star", "landscape", "surface", "own_axes", "again", "saved", "labels", "points", "inputs_unchanged",
            "wrong_input", "closed", "animated", "reversed", "problem_surface"]
ASSUMPTIONS = ["matplotlib's Agg backend: what is compared is the content of the figure, not its pixels", "values are finite; Radviz gets non-negative rows which are not all zero"]


def cases(tier, seed):
    rng = np.random.default_rng([seed, 138])
    out = []
    n = 1 if tier == "quick" else 20
    for rep in range(n):
        for kind, k in (("scatter", 30), ("pcp", 24), ("heatmap", 24), ("petal", 10), ("radar", 10), ("radviz", 16), ("star", 16), ("landscape", 8), ("animated", 3), ("misc", 6)):
            for _ in range(k):
                out.append(dict(kind=kind, seed=int(rng.integers(1, 10 ** 9))))
    return out


def plt_():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    return plt


def run(case, mon):
    plt = plt_()
    plt.close("all")
    rng = np.random.default_rng(case["seed"])
    try:
        globals()["do_" + case["kind"]](rng, mon, plt)
    finally:
        plt.close("all")


# ------------------------------------------------------------------ data and reading back

def data(rng, m, k=None, n=None, scale=None, positive=False):
    scale = scale or float(rng.choice([1.0, 1.0, 1e-3, 1e4]))
    sets = []
    for _ in range(k or int(rng.integers(1, 4))):
        r = n or int(rng.choice([1, 2, 5, 12]))
        F = rng.random((r, m)) * scale
        if not positive:
            F = F - float(rng.choice([0.0, 0.0, 0.5])) * scale
        if r > 2 and rng.random() < 0.3:
            F[1] = F[0]
        if rng.random() < 0.15:
            F = np.round(F / scale * 3) / 3 * scale
        if positive:
            F = F + 1e-3 * scale
        sets.append(F)
    return sets


def offsets(ax):
    return [np.array(c.get_offsets(), float) for c in ax.collections if type(c).__name__ == "PathCollection"]


def polygons(ax):
    return [np.array(c.get_paths()[0].vertices, float) for c in ax.collections if type(c).__name__ == "PatchCollection"]


def norm(F, lo, hi):
    return (F - lo) / (hi - lo)


def bounds_for(rng, sets, how):
    A = np.vstack(sets)
    lo, hi = A.min(axis=0), A.max(axis=0)
    if how == "pair":
        return [float(A.min() - 0.1 * np.ptp(A) - 1e-3), float(A.max() + 0.2 * np.ptp(A) + 1e-3)]
    return [lo - rng.random(len(lo)) * (hi - lo + 1e-3), hi + (0.05 + rng.random(len(lo))) * (hi - lo + 1e-3)]


def full(b, m):
    b = np.array(b, float)
    return (np.full(m, b[0]), np.full(m, b[1])) if b.ndim == 1 else (b[0], b[1])


def add_all(plot, sets, rng, mon, **kw):
    """add in the different forms; returns copies"""
    keep = [s.copy() for s in sets]
    if len(sets) > 1 and len({len(s) for s in sets}) == 1 and rng.random() < 0.5:
        plot.add(np.array(sets), **kw)
    else:
        for s in sets:
            plot.add(s[0] if len(s) == 1 and rng.random() < 0.5 else s, **kw)
    if rng.random() < 0.2:
        plot.add(None)
    return keep


def unchanged(mon, name, sets, keep):
    for a, b in zip(sets, keep):
        mon.eq(a, b, f"input:{name}", "the data handed to the plot was changed")
    mon.ev("inputs_unchanged")


def own_axes(rng, plt, mon):
    """Sometimes the user's axes, not being the current ones."""
    if rng.random() < 0.35:
        fig, ax = plt.subplots()
        other, oax = plt.subplots()
        mon.ev("own_axes")
        return dict(fig=fig, ax=ax), oax
    return {}, None


def nothing_on(mon, oax, name):
    if oax is not None:
        k = len(oax.lines) + len(oax.collections) + len(oax.images)
        mon.check(k == 0, f"wrong-axes:{name}", f"{k} artists were drawn on axes which are not those given to the plot")


def check_labels(mon, name, got, want):
    mon.check(list(got) == list(want), f"labels:{name}", f"labels {list(got)} instead of {list(want)}")
    mon.ev("labels")


def labels_for(rng, m):
    w = int(rng.integers(3))
    if w == 0:
        return {}, [f"$f_{{{i}}}$" for i in range(1, m + 1)]
    if w == 1:
        return dict(labels="g"), [f"$g_{{{i}}}$" for i in range(1, m + 1)]
    L = [f"label {i}" for i in range(m)]
    return dict(labels=list(L)), L


def draw(plot, rng, mon):
    """do/show/save/get_figure: the ways to have it drawn."""
    w = int(rng.integers(4))
    if w == 0:
        plot.do()
    elif w == 1:
        plot.show()
    elif w == 2:
        plot.get_figure()
    else:
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "a.png")
            plot.save(f, dpi=20)
            mon.check(os.path.getsize(f) > 100, "saved", "the saved file is empty")
            mon.ev("saved")
    return plot


# ------------------------------------------------------------------ the plots

def do_scatter(rng, mon, plt):
    from pymoo.visualization.scatter import Scatter
    m = int(rng.choice([1, 2, 2, 3, 3, 4, 5]))
    mode = [None, "scatter", "line", "plot"][int(rng.integers(4))] if m > 1 else None
    sets = data(rng, m)
    lk, labels = labels_for(rng, m)
    flat = m == 3 and rng.random() < 0.4
    kw, oax = own_axes(rng, plt, mon) if m <= 2 else ({}, None)
    s = Scatter(plot_3d=not flat, **lk, **kw, title="T", legend=bool(rng.random() < 0.3))
    opt = {}
    if mode in ("scatter", "plot"):
        opt["mode"] = mode
    elif mode == "line":
        opt["plot_type"] = "line"
    lines = mode in ("line", "plot")
    if lines and (flat or m > 3):
        opt, lines = {}, False      # (the diagonal of pairwise plots is drawn with marker sizes)
    keep = add_all(s, sets, rng, mon, **opt, **({"label": "a"} if rng.random() < 0.5 else {}))
    draw(s, rng, mon)
    for again in range(2):
        where = "again" if again else "first"
        if m == 1:
            O = offsets(s.ax)
            mon.check(len(O) == len(keep), f"scatter:sets:{where}", f"{len(O)} sets drawn instead of {len(keep)}")
            for o, F in zip(O, keep):
                mon.eq(o, np.column_stack([F[:, 0], np.zeros(len(F))]), f"scatter:1d:{where}", "positions")
            check_labels(mon, "scatter", [s.ax.get_xlabel()], labels)
        elif m == 2:
            O = [np.array(l.get_xydata(), float) for l in s.ax.lines] if lines else offsets(s.ax)
            mon.check(len(O) == len(keep), f"scatter:sets:{where}", f"{len(O)} sets drawn instead of {len(keep)}")
            for o, F in zip(O, keep):
                mon.eq(o, F, f"scatter:2d:{where}", "positions")
            check_labels(mon, "scatter", [s.ax.get_xlabel(), s.ax.get_ylabel()], labels)
        elif m == 3 and not flat:
            if lines:
                O = [np.column_stack([np.array(v, float) for v in l.get_data_3d()]) for l in s.ax.lines]
                mon.ev("lines")
            else:
                O = [np.column_stack([np.array(v, float) for v in c._offsets3d]) for c in s.ax.collections if hasattr(c, "_offsets3d")]
            mon.check(len(O) == len(keep), f"scatter:sets:{where}", f"{len(O)} sets drawn instead of {len(keep)}")
            for o, F in zip(O, keep):
                # (matplotlib may change the order of the markers with their depth)
                mon.eq(np.array(sorted(o.tolist())), np.array(sorted(F.tolist())), f"scatter:3d:{where}", "positions")
            check_labels(mon, "scatter", [s.ax.get_xlabel(), s.ax.get_ylabel(), s.ax.get_zlabel()], labels)
            mon.ev("three_d")
        else:
            mon.check(np.shape(s.ax) == (m, m), f"scatter:grid:{where}", f"a grid of {np.shape(s.ax)} axes for {m} objectives")
            for i in range(m):
                for j in range(m):
                    if i == j:
                        mon.check(labels[i] in [t.get_text() for t in s.ax[i, j].texts], f"scatter:diagonal:{where}", f"no label {labels[i]}")
                        continue
                    O = offsets(s.ax[i, j])
                    mon.check(len(O) == len(keep), f"scatter:sets:{where}", f"{len(O)} sets drawn instead of {len(keep)}")
                    for o, F in zip(O, keep):
                        mon.eq(o, F[:, [i, j]], f"scatter:pairwise:{where}", f"positions in panel {i}, {j}")
                    check_labels(mon, "scatter", [s.ax[i, j].get_xlabel(), s.ax[i, j].get_ylabel()], [labels[i], labels[j]])
            mon.ev("pairwise")
        mon.ev("lines" if lines else "scatter")
        mon.ev("points", sum(len(F) for F in keep))
        nothing_on(mon, oax, "scatter")
        if again or kw:
            break
        s.reset()
        if rng.random() < 0.3:
            extra = data(rng, m, k=1)[0]
            s.add(extra, **opt)
            keep.append(extra.copy())
        s.do()
        mon.ev("again")
    unchanged(mon, "scatter", sets, keep)
    mon.state("scatter", m, str(mode), keep[0])


def do_pcp(rng, mon, plt):
    from pymoo.visualization.pcp import PCP
    m = int(rng.integers(2, 7))
    sets = data(rng, m)
    lk, labels = labels_for(rng, m)
    how = str(rng.choice(["none", "pair", "each", "overall"]))
    A = np.vstack(sets)
    if how == "none" and np.any(np.ptp(A, axis=0) == 0):
        how = "each"
    if how == "overall" and np.ptp(A) == 0:
        how = "pair"
    b = bounds_for(rng, sets, how) if how in ("pair", "each") else None
    kw, oax = own_axes(rng, plt, mon)
    show = bool(rng.random() < 0.7)
    ticks = [None, 3, 5][int(rng.integers(3))]
    p = PCP(bounds=b, normalize_each_axis=how != "overall", show_bounds=show, n_ticks=ticks, bbox=bool(rng.random() < 0.3), func_number_to_text=lambda v: f"<{v:.6g}>", **lk, **kw)
    keep = add_all(p, sets, rng, mon, **({"color": "grey"} if rng.random() < 0.5 else {}))
    draw(p, rng, mon)
    lo, hi = (A.min(axis=0), A.max(axis=0)) if how == "none" else (np.full(m, A.min()), np.full(m, A.max())) if how == "overall" else full(b, m)
    L = [np.array(l.get_xydata(), float) for l in p.ax.lines]
    P = [l for l in L if len(l) == m and np.array_equal(l[:, 0], np.arange(m))]
    V = [l for l in L if len(l) == 2 and l[0, 0] == l[1, 0]]
    want = [r for F in keep for r in norm(F, lo, hi)]
    if mon.check(len(P) == len(want), "pcp:lines", f"{len(P)} lines were drawn for {len(want)} solutions"):
        mon.eq(np.array([l[:, 1] for l in P]), np.array(want), "pcp:values", "heights of the lines", rtol=1e-9, atol=1e-12)
    mon.eq(np.sort([v[0, 0] for v in V]), np.arange(m), "pcp:axes", "positions of the axes")
    t = [x.get_text() for x in p.ax.texts]
    wt = [f"<{v:.6g}>" for i in range(m) for v in (lo[i], hi[i])] if show else []
    mon.check(t == wt, "pcp:bounds", f"bounds shown {t} instead of {wt}")
    check_labels(mon, "pcp", [x.get_text() for x in p.ax.get_xticklabels()], labels)
    nothing_on(mon, oax, "pcp")
    unchanged(mon, "pcp", sets, keep)
    mon.ev("pcp")
    mon.ev("points", len(want))
    mon.state("pcp", how, keep[0])


def do_heatmap(rng, mon, plt):
    from pymoo.visualization.heatmap import Heatmap
    m = int(rng.integers(2, 6))
    sets = data(rng, m, k=1, n=int(rng.choice([2, 3, 6, 12])))
    F = sets[0]
    lk, labels = labels_for(rng, m)
    how = str(rng.choice(["none", "pair", "each"]))
    if how == "none" and np.any(np.ptp(F, axis=0) == 0):
        how = "each"
    b = bounds_for(rng, sets, how) if how != "none" else None
    rev = [None, True, False][int(rng.integers(3))]
    order = [False, int(rng.integers(m)), [int(i) for i in rng.permutation(m)], 0][int(rng.integers(4))]
    sl = [True, None, False, [f"s{i}" for i in range(len(F))]][int(rng.integers(4))]
    kw, oax = own_axes(rng, plt, mon)
    h = Heatmap(bounds=b, order_by_objectives=order, solution_labels=sl, **({} if rev is None else dict(reverse=rev)), **lk, **kw)
    keep = add_all(h, sets, rng, mon)
    draw(h, rng, mon)
    lo, hi = (F.min(axis=0), F.max(axis=0)) if how == "none" else full(b, m)
    N = norm(F, lo, hi)
    if rev is not False:
        N = 1 - N
        mon.ev("reversed")
    if not mon.check(len(h.ax.images) == 1, "heatmap:image", f"{len(h.ax.images)} images"):
        return
    D = np.array(h.ax.images[0].get_array(), float)
    if not mon.check(D.shape == N.shape, "heatmap:shape", f"{D.shape} instead of {N.shape}"):
        return
    if order is False:
        mon.eq(D, N, "heatmap:values", "values", rtol=1e-9, atol=1e-12)
        perm = np.arange(len(N))
    else:
        cols = order if isinstance(order, list) else [order] + [i for i in range(m) if i != order]
        perm = np.array(sorted(range(len(N)), key=lambda i: tuple(N[i, cols])))
        mon.eq(D, N[perm], "heatmap:order", f"values ordered by {cols}", rtol=1e-9, atol=1e-12)
        mon.ev("ordered")
    got = [t.get_text() for t in h.ax.get_yticklabels()]
    if sl is None or sl is False:
        mon.check(len(got) == 0 or all(g == "" for g in got), "heatmap:no-labels", f"labels {got} although none were wanted")
    else:
        names = [str(i + 1) for i in range(len(F))] if sl is True else sl
        # rows being equal may come in any order
        if len({tuple(r) for r in N.tolist()}) == len(N):
            mon.check(got == [names[i] for i in perm], "heatmap:solution-labels", f"labels {got} instead of {[names[i] for i in perm]}")
    check_labels(mon, "heatmap", [x.get_text() for x in h.ax.get_xticklabels()], labels)
    nothing_on(mon, oax, "heatmap")
    unchanged(mon, "heatmap", sets, keep)
    mon.ev("heatmap")
    mon.ev("points", F.size)
    mon.state("heatmap", str(order), N)


def circle(n):
    t = 2 * np.pi * np.arange(n) / n
    return np.column_stack([np.cos(t), np.sin(t)])


def outline(ax, radius=1.0):
    """Is there a closed line of the given radius around the centre on these axes?"""
    for l in ax.lines:
        d = np.array(l.get_xydata(), float)
        if len(d) > 100 and np.allclose(np.hypot(d[:, 0], d[:, 1]), radius, atol=1e-6):
            return True
    return False


def do_petal(rng, mon, plt):
    from pymoo.visualization.petal import Petal
    m = int(rng.integers(2, 7))
    sets = data(rng, m, k=int(rng.integers(1, 3)), n=int(rng.integers(1, 4)))
    lk, labels = labels_for(rng, m)
    b = bounds_for(rng, sets, str(rng.choice(["pair", "each"])))
    rev = bool(rng.random() < 0.5)
    p = Petal(bounds=b, reverse=rev, **lk, title=[f"t{i}" for i in range(sum(len(s) for s in sets))] if len(sets) == 1 else "T")
    keep = add_all(p, sets, rng, mon)
    draw(p, rng, mon)
    lo, hi = full(b, m)
    for k, F in enumerate(keep):
        for j, r in enumerate(norm(F, lo, hi)):
            r = 1 - r if rev else r
            ax = p.ax[k, j]
            Q = polygons(ax)
            if not mon.check(len(Q) == m, "petal:count", f"{len(Q)} petals for {m} objectives"):
                continue
            for i, q in enumerate(Q):
                d = np.hypot(q[:, 0], q[:, 1])
                mon.eq(d.max(), abs(r[i]), "petal:radius", f"radius of petal {i}", rtol=1e-6, atol=1e-9)
                if r[i] > 1e-6:
                    t = np.arctan2(q[:, 1], q[:, 0])[d > 0.5 * r[i]] % (2 * np.pi)
                    mid = np.angle(np.mean(np.exp(1j * t[:-1]))) % (2 * np.pi)
                    w = 2 * np.pi * (i + 0.5) / m
                    if m > 2:
                        mon.check(abs((mid - w + np.pi) % (2 * np.pi) - np.pi) < 0.2, "petal:sector", f"petal {i} lies at {mid:.3f} instead of {w:.3f}")
                mon.ev("points")
            mon.check(outline(ax), "petal:circle", "the outer circle is missing in a panel")
            check_labels(mon, "petal", [t.get_text() for t in ax.texts], labels)
    if rev:
        mon.ev("reversed")
    unchanged(mon, "petal", sets, keep)
    mon.ev("petal")
    mon.state("petal", rev, keep[0])


def do_radar(rng, mon, plt):
    from pymoo.visualization.radar import Radar
    m = int(rng.integers(3, 7))
    each = bool(rng.random() < 0.6)
    sets = data(rng, m, k=int(rng.integers(1, 3)), n=int(rng.integers(1, 4)), positive=not each, scale=1.0 if not each else None)
    lk, labels = labels_for(rng, m)
    A = np.vstack(sets)
    b = bounds_for(rng, sets, "each")
    if not each:
        b = [A.min(axis=0) * 0.5, A.max(axis=0) * (1.1 + rng.random(m))]
    rev = bool(rng.random() < 0.5)
    p = Radar(bounds=b, reverse=rev, normalize_each_objective=each, **lk)
    keep = add_all(p, sets, rng, mon)
    draw(p, rng, mon)
    lo, hi = full(b, m)
    V = circle(m)
    inner = np.zeros((m, 2)) if each else lo[:, None] * V
    outer = V if each else hi[:, None] * V / hi.max()
    for k, F in enumerate(keep):
        for j, r in enumerate(norm(F, lo, hi)):
            r = 1 - r if rev else r
            ax = p.ax[k, j]
            want = inner + r[:, None] * (outer - inner)
            O = offsets(ax)
            mon.check(len(O) == 1, "radar:points", f"{len(O)} sets of points in a panel")
            mon.eq(O[0], want, "radar:values", "positions", rtol=1e-9, atol=1e-9)
            Q = polygons(ax)
            mon.check(any(len(q) >= m and np.allclose(q[:m], want, atol=1e-9) for q in Q), "radar:polygon", "no polygon connects the points")
            L = [np.array(l.get_xydata(), float) for l in ax.lines]
            ring = np.vstack([outer, outer[:1]])
            mon.check(any(len(l) == m + 1 and np.allclose(l, ring, atol=1e-9) for l in L), "radar:ring", "the outer line is missing in a panel")
            mon.check(sum(len(l) == 2 and np.allclose(l[0], 0) for l in L) == m, "radar:axes", f"the panel does not have {m} axis lines")
            check_labels(mon, "radar", [t.get_text() for t in ax.texts], labels)
            mon.ev("points", m)
    if rev:
        mon.ev("reversed")
    unchanged(mon, "radar", sets, keep)
    mon.ev("radar")
    mon.state("radar", rev, each, keep[0])


def do_radviz(rng, mon, plt):
    from pymoo.visualization.radviz import Radviz
    m = int(rng.integers(2, 7))
    sets = data(rng, m, positive=True)
    lk, labels = labels_for(rng, m)
    kw, oax = own_axes(rng, plt, mon)
    p = Radviz(**lk, **kw)
    keep = add_all(p, sets, rng, mon, **({"color": "grey", "s": 20} if rng.random() < 0.5 else {}))
    draw(p, rng, mon)
    V = circle(m)
    O = offsets(p.ax)
    mon.check(len(O) == 1 + len(keep), "radviz:sets", f"{len(O) - 1} sets drawn instead of {len(keep)}")
    mon.eq(O[0], V, "radviz:endpoints", "positions of the objectives", rtol=1e-9, atol=1e-9)
    for o, F in zip(O[1:], keep):
        mon.eq(o, (F / F.sum(axis=1, keepdims=True)) @ V, "radviz:values", "positions", rtol=1e-7, atol=1e-9)
        mon.ev("points", len(F))
    mon.check(outline(p.ax), "radviz:circle", "the outer circle is missing")
    check_labels(mon, "radviz", [t.get_text() for t in p.ax.texts], labels)
    nothing_on(mon, oax, "radviz")
    unchanged(mon, "radviz", sets, keep)
    mon.ev("radviz")
    mon.state("radviz", keep[0])


def do_star(rng, mon, plt):
    from pymoo.visualization.star_coordinate import StarCoordinate
    m = int(rng.integers(2, 7))
    sets = data(rng, m)
    A = np.vstack(sets)
    lk, labels = labels_for(rng, m)
    how = str(rng.choice(["none", "pair", "each"]))
    if how == "none" and np.any(np.ptp(A, axis=0) == 0):
        how = "each"
    b = bounds_for(rng, sets, how) if how != "none" else None
    kw, oax = own_axes(rng, plt, mon)
    p = StarCoordinate(bounds=b, axis_extension=float(rng.choice([1.0, 1.03, 1.5])), **lk, **kw)
    keep = add_all(p, sets, rng, mon)
    draw(p, rng, mon)
    lo, hi = (A.min(axis=0), A.max(axis=0)) if how == "none" else full(b, m)
    O = offsets(p.ax)
    mon.check(len(O) == len(keep), "star:sets", f"{len(O)} sets drawn instead of {len(keep)}")
    for o, F in zip(O, keep):
        mon.eq(o, norm(F, lo, hi) @ circle(m), "star:values", "positions", rtol=1e-7, atol=1e-9)
        mon.ev("points", len(F))
    check_labels(mon, "star", [t.get_text() for t in p.ax.texts], labels)
    nothing_on(mon, oax, "star")
    unchanged(mon, "star", sets, keep)
    mon.ev("star")
    mon.state("star", keep[0])


def do_landscape(rng, mon, plt):
    from pymoo.core.problem import Problem
    from pymoo.visualization.fitness_landscape import FitnessLandscape
    from pymoo.visualization.util import plot_problem_surface
    n = int(rng.choice([1, 2, 2]))
    xl = rng.uniform(-3, 0, n)
    xu = xl + rng.uniform(0.5, 4, n)
    a = rng.uniform(0.5, 2, n)

    class L(Problem):
        def __init__(self):
            super().__init__(n_var=n, n_obj=1, xl=xl, xu=xu)

        def _evaluate(self, x, out, *args, **kwargs):
            out["F"] = f(x)

    def f(x):
        return (a * x ** 2).sum(axis=1) + np.sin(3 * x[:, 0])

    def judge(pts, where):
        pts = np.asarray(pts, float)
        pts = pts[np.all(np.isfinite(pts), axis=1)]
        mon.check(len(pts) > 0, f"{where}:empty", "nothing was drawn")
        mon.eq(pts[:, n], f(pts[:, :n]), f"{where}:values", "heights drawn", rtol=1e-6, atol=1e-8)
        mon.eq(pts[:, :n].min(axis=0), xl, f"{where}:range", "lower end", rtol=1e-6, atol=1e-9)
        mon.eq(pts[:, :n].max(axis=0), xu, f"{where}:range", "upper end", rtol=1e-6, atol=1e-9)
        mon.ev("points", len(pts))

    k = int(rng.integers(5, 13))
    typ = str(rng.choice(["surface", "surface+contour"]))
    p = FitnessLandscape(L(), _type=typ, n_samples=k)
    p.do()
    if n == 1:
        pts = [np.array(l.get_xydata(), float) for l in p.ax.lines] + offsets(p.ax)
        if mon.check(len(pts) > 0, "landscape:empty", "nothing was drawn for a problem with one variable"):
            judge(np.vstack(pts), "landscape")
            mon.check(len(np.vstack(pts)) == k, "landscape:samples", f"{len(np.vstack(pts))} points instead of {k}")
    else:
        S = [c for c in p.ax.collections if type(c).__name__ == "Poly3DCollection"][0]
        judge(vertices(S), "landscape")
        mon.ev("surface")
    plt.close("all")
    # the function doing the same
    if n == 2:
        fig, ax = plot_problem_surface(L(), k, plot_type="wireframe", show=False, return_figure=True)
        seg = [np.asarray(s) for s in ax.collections[0]._segments3d]
        judge(np.vstack(seg), "problem-surface")
        mon.ev("problem_surface")
    mon.ev("landscape")
    mon.state("landscape", n, a)


def vertices(c):
    v = getattr(c, "_vec", None)
    if v is not None:
        return np.asarray(v)[:3].T
    return np.asarray(c._faces).reshape(-1, 3)


def do_animated(rng, mon, plt):
    """Animation callbacks draw in the first and in every nth generation, and hand over what they drew."""
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.optimize import minimize
    from pymoo.problems import get_problem
    from pymoo.visualization.video.callback_video import AnimationCallback, ObjectiveSpaceAnimation
    nth, gens = int(rng.integers(1, 5)), int(rng.integers(3, 10))
    drawn, rec = [], []

    class R:
        def record(self, fig=None):
            g = fig if fig is not None else plt.gcf()
            rec.append([o for ax in g.axes for o in offsets(ax)])

    class A(AnimationCallback):
        def do(self, problem, algorithm, **kw):
            drawn.append(algorithm.n_gen)
            fig, ax = plt.subplots()
            ax.scatter(*algorithm.pop.get("F").T)
            want.append(algorithm.pop.get("F").copy())
            return fig
    want = []
    minimize(get_problem("zdt1", n_var=4), NSGA2(pop_size=8), ("n_gen", gens), seed=1, callback=A(nth_gen=nth, recorder=R()))
    exp = [g for g in range(1, gens + 1) if g == 1 or g % nth == 0]
    mon.check(drawn == exp, "animated:generations", f"drawn in {drawn} instead of {exp} (nth_gen={nth})")
    mon.check(len(rec) == len(want) and all(len(r) == 1 and np.array_equal(r[0], w) for r, w in zip(rec, want)), "animated:recorded", "what was recorded is not what was drawn")
    mon.check(len(plt.get_fignums()) == 0, "animated:closed", "figures were left open")
    rec.clear()
    fronts = []

    class C(ObjectiveSpaceAnimation):
        def update(self, algorithm):
            fronts.append(algorithm.opt.get("F").copy())
            super().update(algorithm)
    minimize(get_problem("zdt1", n_var=4), NSGA2(pop_size=8), ("n_gen", 3), seed=1, callback=C(recorder=R()))
    mon.check(len(rec) == 3 and all(len(r) >= 1 and np.array_equal(r[0], w) for r, w in zip(rec, fronts)), "animated:space", "the recorded frames do not show the optimum of their generation")
    mon.ev("animated")
    mon.state("animated", nth, gens)


def do_misc(rng, mon, plt):
    """Wrong input is refused, figures are closed with their object or kept on demand."""
    from pymoo.visualization.heatmap import Heatmap
    from pymoo.visualization.petal import Petal
    from pymoo.visualization.radar import Radar
    from pymoo.visualization.scatter import Scatter

    def refused(f, what):
        try:
            f()
        except Exception:
            mon.ev("wrong_input")
            return
        mon.check(False, f"accepted:{what}", f"{what} was accepted")
    refused(lambda: Scatter().add(rng.random((3, 2))).add(rng.random((3, 3))).do(), "sets of different dimensions")
    refused(lambda: Scatter(labels=["a"]).add(rng.random((3, 2))).do(), "fewer labels than objectives")
    refused(lambda: Heatmap().add(rng.random((3, 2))).add(rng.random((3, 2))).do(), "two sets in a heatmap")
    refused(lambda: Heatmap(solution_labels=["a"]).add(rng.random((3, 2))).do(), "fewer labels than solutions")
    refused(lambda: Petal().add(rng.random((3, 2))).do(), "a petal diagram without bounds")
    refused(lambda: Radar().add(rng.random((3, 3))).do(), "a radar without bounds")
    refused(lambda: Radar(bounds=[0, 0.5]).add(np.array([[0.1, 0.7, 0.2]])).do(), "points outside of the bounds of a radar")
    plt.close("all")
    for keep in (True, False):
        s = Scatter(close_on_destroy=not keep)
        s.add(rng.random((4, 2)))
        s.do()
        n = s.fig.number
        mon.check(plt.fignum_exists(n), "closed:early", "the figure does not exist")
        del s
        mon.check(plt.fignum_exists(n) == keep, "closed", f"the figure {'was closed' if keep else 'was left open'} although close_on_destroy={not keep}")
        mon.ev("closed")
    mon.state("misc", rng.random())
