"""C28: every plotting function on every small structure or matrix; what the finished figure
shows is read back from its artists."""
import itertools

import numpy as np

import load
from checks._patch import patched

ID = "C28"
TIMEOUT = 120
ASSUMPTIONS = [
    "showing a figure closes it afterwards, as interactive backends do; what is shown is read from "
    "the images, arrows, markers and texts of the figure (not its pixels)",
    "structures have at least one latent and one measurement",
]


def prepare(tier):
    global vis, plt, FancyArrowPatch
    vis = load.full("visualize")
    import matplotlib.pyplot as plt
    from matplotlib.patches import FancyArrowPatch


LARGE = ((10, 10, 60), (11, 12, 80), (2, 25, 30), (13, 4, 32), (16, 17, 170))


def sizes(tier):
    s = [(l, m) for l in (1, 2, 3) for m in (1, 2, 3)] + [(1, 4), (2, 4)]
    return s if tier == "quick" else s + [(4, 2), (3, 4), (4, 3), (1, 5), (2, 5)]


def BOUND(tier):
    q = tier == "quick"
    return (f"all 0/1 structures of sizes (latents, measurements) {sizes(tier)}, boolean, integer and floating-point, as "
            f"graphs of {'a third of' if q else ''} them, and as observed graphs; all symmetric matrices of 2-3 measurements over "
            f"{{0, 0.33, 0.5, 1}} and selected asymmetric ones, x 4 thresholds or none, with and without printed values; structures of up to 17 latents or 25 measurements and matrices of up to 30 by pattern; samples of 1-4 "
            "measurements of 3-20, 1000, 1001, 1003, 2500 and 5000 rows")


def cases(tier):
    q = tier == "quick"
    out = []
    for l, m in sizes(tier):
        t = 1 << (l * m)
        for lo in range(0, t, 32):
            out.append(["structures", l, m, lo, min(lo + 32, t), 3 if q and l * m > 6 else 1])
    out += [["structures", l, m, 3 ** k, 3 ** k + 1, 1] for l, m, k in LARGE]
    out += [["image", m, k] for m in (5, 11, 16, 30) for k in range(3)]
    out += [["structures", 9, 9, 37 ** 11, 37 ** 11 + 2, 1], ["structures", 7, 8, 29 ** 9, 29 ** 9 + 2, 1]]
    for m in (1, 2, 3):
        t = 4 ** (m * (m - 1) // 2)
        out += [["matrix", m, lo, min(lo + 8, t)] for lo in range(0, t, 8)]
    out += [["pairs", n, m] for m in (1, 2, 3) for n in (3, 20)]
    out += [["pairs", n, 2] for n in (1000, 1001, 1003, 2500, 5000)] + [["pairs", 6, 4]]
    return out


def shown(fn, args, r, desc, **kw):
    """what the figures shown contained, one entry per show()"""
    got = []

    def show(*a, **k):
        got.extend(grab(plt.figure(n)) for n in plt.get_fignums())
        plt.close("all")

    plt.close("all")
    keep = [np.array(a, copy=True) for a in args]
    with patched(("show", show, plt)):
        ok, _ = r.call(fn, *args, _what=desc, **kw)
    plt.close("all")
    if not ok:
        return None
    for a, b in zip(args, keep):
        if not np.array_equal(a, b) or a.dtype != b.dtype:
            r.fail(f"{desc} changed its argument")
            return None
    if len(got) != 1:
        r.fail(f"{desc} showed {len(got)} figures")
        return None
    return got[0]


def grab(fig):
    axes = []
    for ax in fig.axes:
        axes.append({
            "images": [(np.asarray(i.get_array(), float), i.get_clim(), i.get_extent()) for i in ax.images],
            "texts": [(t.get_text(), tuple(map(float, t.get_position()))) for t in ax.texts],
            "arrows": [tuple(tuple(map(float, p)) for p in a._posA_posB) for a in ax.patches if isinstance(a, FancyArrowPatch)],
            "lines": [np.asarray(l.get_xydata(), float) for l in ax.lines],
            "points": [np.asarray(c.get_offsets(), float) for c in ax.collections if len(c.get_offsets())],
            "ticks": ([t.get_text() for t in ax.get_xticklabels()], [t.get_text() for t in ax.get_yticklabels()],
                      list(map(float, ax.get_xticks())), list(map(float, ax.get_yticks()))),
            "labels": (ax.get_xlabel(), ax.get_ylabel()),
        })
    return axes


def run(case, r):
    globals()["run_" + case[0]](case, r)


def run_structures(case, r):
    _, l, m, lo, hi, step = case
    for pat in range(lo, hi):
        b = np.array([[pat >> (i * m + j) & 1 for j in range(m)] for i in range(l)], bool)
        b = b.astype((bool, int, float)[pat % 3])
        adj = (b.astype(int).T @ b.astype(int)) > 0
        desc = f"structure {b.astype(int).tolist()} ({b.dtype})"
        ok, d = r.call(vis.get_dag_from_biadj, b, _what=f"get_dag_from_biadj of {desc}")
        if not ok:
            return
        want = np.zeros((l + m, l + m))
        want[:l, l:] = b
        if not np.array_equal(np.asarray(d, float), want):
            return r.fail(f"{desc}: directed graph {np.asarray(d).astype(int).tolist()}", case)
        fig = shown(vis.show_obs_adj_mat, (b,), r, f"show_obs_adj_mat of {desc}")
        if fig is None:
            return
        img = image(fig, r, case, desc)
        if img is None:
            return
        off = ~np.eye(m, dtype=bool)
        if img.shape != (m, m) or not np.array_equal((img > 0)[off], adj[off]) or not np.isin(img, (0, 1)).all():
            return r.fail(f"{desc}: observed graph shown as {img.tolist()}", case)
        if not ticks(fig, [str(i + 1) for i in range(m)], r, case, desc):
            return
        r.state((l, m, pat))
        r.trace(("structure", int(b.sum())))
        if pat % step:
            continue
        fig = shown(vis.show_dag, (b,), r, f"show_dag of {desc}")
        if fig is None or not dag(fig, b, r, case, desc):
            return
        r.trace(("dag", int(b.sum())))


def dag(fig, b, r, case, desc):
    l, m = b.shape
    ax = [a for a in fig if a["texts"]]
    if len(ax) != 1:
        return r.fail(f"{desc}: {len(ax)} drawings", case)
    ax = ax[0]
    pos = dict((p, t) for t, p in ax["texts"])
    names = sorted(t for t, _ in ax["texts"])
    want = sorted(["$L_{%d}$" % i for i in range(l)] + ["$M_{%d}$" % j for j in range(m)])
    if names != want or len(pos) != l + m:
        return r.fail(f"{desc}: nodes are labelled {names}", case)
    marks = {tuple(np.round(p, 9)) for c in ax["points"] for p in c}
    if marks != {tuple(np.round(p, 9)) for p in pos}:
        return r.fail(f"{desc}: labels at {sorted(pos)}, nodes at {sorted(marks)}", case)
    at = {tuple(np.round(p, 9)): t for p, t in pos.items()}
    edges = sorted((at.get(tuple(np.round(s, 9))), at.get(tuple(np.round(t, 9)))) for s, t in ax["arrows"])
    want = sorted(("$L_{%d}$" % i, "$M_{%d}$" % j) for i in range(l) for j in range(m) if b[i, j])
    if edges != want:
        return r.fail(f"{desc}: arrows shown are {edges}", case)
    if len(b) == 2 and m == 2 and b.sum() == 3:
        r.sample({"structure": b.astype(int).tolist(), "arrows": edges})
    return True


def image(fig, r, case, desc):
    imgs = [i for a in fig[:1] for i in a["images"]]
    if len(imgs) != 1:
        r.fail(f"{desc}: {len(imgs)} images", case)
        return None
    a, _, ext = imgs[0]
    if not (ext[0] < ext[1] and ext[2] > ext[3]):
        r.fail(f"{desc}: image is flipped ({ext})", case)
        return None
    return a


def ticks(fig, want, r, case, desc):
    xl, yl, x, y = fig[0]["ticks"]
    if xl != want or yl != want or x != list(range(len(want))) or y != list(range(len(want))):
        return r.fail(f"{desc}: axes labelled {xl} at {x} and {yl} at {y}", case)
    return True


def run_image(case, r):
    _, m, k = case
    i, j = np.arange(m)[:, None], np.arange(m)[None]
    mat = ((i * j + i + j) * (7 + k) % 101) / 100
    mat[np.eye(m, dtype=bool)] = 1
    for th in (None, 0.33, 0.5):
        for pv in (False, True):
            if not one_matrix(mat, th, pv, r, case):
                return
            r.state(("image", m, k, th, pv))


def run_matrix(case, r):
    _, m, lo, hi = case
    vals = (0.0, 0.33, 0.5, 1.0)
    iu = np.triu_indices(m, 1)
    for pat in range(lo, hi):
        d = np.eye(m)
        for k, (i, j) in enumerate(zip(*iu)):
            d[i, j] = d[j, i] = vals[pat // 4 ** k % 4]
        asym = np.where(np.tri(m, dtype=bool), d, d * 0.77)
        # printed values are rounded to 2 digits
        for mat in (d, asym, d * 0.9876 - 0.05):
            for th in (None, 0.0, 0.33, 0.5, 0.9):
                for pv in (False, True):
                    if not one_matrix(mat, th, pv, r, case):
                        return
                    r.state((m, pat, float(mat.sum()), th, pv))
                    r.trace(("matrix", th, pv))


def one_matrix(mat, th, pv, r, case):
    m = len(mat)
    desc = f"show_obs_dcor_mat of {mat.round(4).tolist() if m < 5 else f'{m} measurements'}, threshold {th}, values {pv}"
    fig = shown(vis.show_obs_dcor_mat, (mat.copy(),), r, desc, **({} if th is None else {"thresh": th}),
                **({"print_val": True} if pv else {}))
    if fig is None:
        return
    img = image(fig, r, case, desc)
    if img is None:
        return
    want = mat if th is None else (mat > th).astype(float)
    if img.shape != want.shape or np.abs(img - want).max() > 1e-12:
        return r.fail(f"{desc}: shown as {img.tolist()}", case)
    if tuple(fig[0]["images"][0][1]) != (0, 1):
        return r.fail(f"{desc}: colours range over {fig[0]['images'][0][1]}", case)
    if not ticks(fig, [f"X{i + 1}" for i in range(m)], r, case, desc):
        return
    texts = {p: t for t, p in fig[0]["texts"]}
    if not pv and texts:
        return r.fail(f"{desc}: texts {texts}", case)
    if pv:
        if len(fig[0]["texts"]) != m * m:
            return r.fail(f"{desc}: {len(fig[0]['texts'])} values printed", case)
        for i in range(m):
            for j in range(m):
                t = texts.get((float(j), float(i)))
                if t is None or abs(float(t) - want[i, j]) > 0.00501:
                    return r.fail(f"{desc}: value printed in row {i}, column {j} is {t}", case)
    return True


def run_pairs(case, r):
    _, n, m = case
    g = np.random.default_rng(n + m)
    x = g.standard_normal((n, m)) * np.arange(1, m + 1)
    desc = f"show_pairwise_plot of {n} observations of {m} measurements"
    fig = shown(vis.show_pairwise_plot, (x,), r, desc, **({"color": "C1"} if m == 3 else {}))
    if fig is None:
        return
    y = x[:1000]
    have = [a["points"][0] for a in fig if a["points"] and len(a["points"][0]) > 1]
    pairs = []
    for p in have:
        hit = [(i, j) for i in range(m) for j in range(m) if i != j and p.shape == (len(y), 2)
               and np.array_equal(p, y[:, [j, i]])]
        if not hit:
            return r.fail(f"{desc}: a panel shows {len(p)} points that aren't two measurements", case)
        pairs += hit
    if sorted({tuple(sorted(p)) for p in pairs}) != [(i, j) for i in range(m) for j in range(i + 1, m)]:
        return r.fail(f"{desc}: pairs shown are {pairs}", case)
    names = {s for a in fig for s in a["labels"] if s}
    if not names <= {f"X{i + 1}" for i in range(m)} | {"Density"}:
        return r.fail(f"{desc}: labels {sorted(names)}", case)
    r.state(("pairs", n, m))
    r.trace(("pairs", m))
