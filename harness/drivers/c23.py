"""Statistical comparison and pairwise plots, drawn on the recorder."""
import re
from common import *  # noqa: F401,F403

NAMES = ["RDST", "rocket", "Zed", "a net", "SVM 2", "1NN"]
DATA = ["Beef", "adiac", "Yoga", "CBF", "b2", "Coffee", "Car 3"]


def plan(tier):
    n = 240 if tier == "quick" else 700
    return [("compare", i) for i in range(n)] + [("plot", i) for i in range(n // 2)]


def run(job, rng, tier):
    return {"tag": job[0], "ops": [(compare if job[0] == "compare" else plot)(rng) for _ in range(2)]}


def compare(rng):
    import numpy as np
    import pandas as pd
    import scipy.stats as st
    from matplotlib import pyplot as plt
    from convst.utils import plot_utils as P
    m, n = rng.choice([3, 3, 4, 5]), rng.choice([2, 3, 5, 6, 7])
    names, data = rng.sample(NAMES, m), rng.sample(DATA, n)
    spread = rng.choice([3, 8, 60])
    acc = [[rng.randrange(spread) for _ in range(n)] for _ in range(m)]
    for a in range(m):
        while any(sorted(acc[a]) == sorted(acc[b]) for b in range(a)):      # a classifier is known by its bag of scores
            acc[a][rng.randrange(n)] = rng.randrange(spread + 2)
    has = [n] * m
    if m > 3 and rng.random() < .5:
        has[rng.randrange(m)] = rng.randint(1, n - 1)
    rows = [{"classifier_name": names[a], "dataset_name": data[d], "accuracy": acc[a][d] / 64.} for a in range(m) for d in range(n)
            if d < has[a]]
    how = rng.randrange(4)
    if how == 1:
        rng.shuffle(rows)
    elif how == 2:
        rows.sort(key=lambda r: (r["dataset_name"], r["classifier_name"]))
    elif how == 3:                                  # every classifier in an order of its own
        rows.sort(key=lambda r: (names.index(r["classifier_name"]), rng.random()))
    df = pd.DataFrame(rows)
    if rng.random() < .5:
        df = df[rng.sample(list(df.columns), 3)]
    if rng.random() < .3:
        df.index = rng.sample(range(100), len(df))
    alpha = rng.choice([500, 100, 1000])
    S = [a for a in range(m) if has[a] == n]
    k = len(S) * (len(S) - 1) // 2
    p = {}
    for a in S:
        for b in S:
            if a < b:
                near = [v for v in (alpha // q + e for q in range(1, k + 1) for e in (-1, 0, 1))
                        if all(v * q != alpha for q in range(1, k + 1) if q not in (1, 2, 4, 8))]
                p[a, b] = rng.choice([rng.randint(0, alpha), rng.randint(0, alpha // k), rng.choice(near), rng.randint(0, 9999), 1])
                while any(p[a, b] * q == alpha for q in range(1, k + 1) if q not in (1, 2, 4, 8)):
                    p[a, b] += 1
    calls = []

    def test(x, y):
        x, y = [exact(v, 64) for v in x], [exact(v, 64) for v in y]
        calls.append({"x": x, "y": y})
        for (a, b), v in p.items():
            if {tuple(sorted(x)), tuple(sorted(y))} == {tuple(sorted(acc[a])), tuple(sorted(acc[b]))}:
                return v / 10000.
        return .5
    st.HOOK["wilcoxon"] = test
    path = rng.choice([None, "/nowhere/x.png", "out.svg"])
    drawn = rng.random() < .7
    before = df.copy()
    try:
        found, ranks, nb = P._wilcoxon_holm(alpha=alpha / 10000., df_perf=df)
        given = list(calls)
        del plt.CALLS[:]
        if drawn:
            P.draw_cd_diagram(df_perf=df, alpha=alpha / 10000., title=rng.choice([None, "t"]), labels=rng.random() < .5, path=path,
                              width=rng.choice([8, 10, 12]), highlight=rng.choice([None, names[0]]))
        drawing = list(plt.CALLS)
    finally:
        st.HOOK["wilcoxon"] = None
    if not before.equals(df):
        raise RuntimeError("the table was changed")
    code = {v: a + 1 for a, v in enumerate(names)}
    bars, marks, saved = diagram(drawing, code) if drawn else ([], [], [])
    return {"op": "compare", "acc": [r[:has[a]] for a, r in enumerate(acc)], "has": has, "alpha": alpha,
            "p": [[a + 1, b + 1, v] for (a, b), v in p.items()],
            "calls": given, "found": [[code[f[0]], code[f[1]], int(round(float(f[2]) * 10000)), bool(f[3])] for f in found],
            "ranks": [[code[q], fixed(v, 10000)] for q, v in ranks.items()], "nb": int(nb), "drawn": drawn, "bars": bars, "marks": marks,
            "saved": saved, "path": path or "cd-diagram.png"}


def diagram(calls, code):
    """What the recorded drawing shows, in ranks (ten thousandths)."""
    ticks = [(float(c[2][0]), int(c[2][2])) for c in calls if c[1] == "text" and len(c[2]) > 2 and re.fullmatch(r"\d+", str(c[2][2]))
             and str(c[2][2]) not in code]
    (x0, r0), (x1, r1) = ticks[0], ticks[-1]

    def rank(x):
        return int(round((r0 + (x - x0) * (r1 - r0) / (x1 - x0)) * 10000))
    plots = [(list(map(float, c[2][0])), list(map(float, c[2][1])), c[3]) for c in calls if c[1] == "plot" and len(c[2]) >= 2]
    texts = [(float(c[2][0]), float(c[2][1]), str(c[2][2])) for c in calls if c[1] == "text" and str(c[2][2]) in code]
    bars = [sorted(rank(x) for x in xs) for xs, ys, k in plots if k.get("linewidth", 0) == 4.0 and len(xs) == 2]
    marks = []
    for xs, ys, k in plots:
        if len(xs) == 3:
            t = min(texts, key=lambda t: (abs(t[1] - ys[2]) > 1e-9, abs(t[0] - xs[2])))
            marks.append([code[t[2]], rank(xs[0])])
    return bars, marks, [str(c[2][0]) for c in calls if c[1] == "savefig"]


def plot(rng):
    import pandas as pd
    from matplotlib import pyplot as plt
    from convst.utils import plot_utils as P
    m, n = rng.choice([2, 2, 3, 4, 5, 6]), rng.randint(1, 6)
    names = rng.sample(NAMES, m)
    scores = [[rng.randrange(64) if rng.random() < .6 else 32 + rng.randint(-3, 3) for _ in range(n)] for _ in range(m)]
    data = rng.sample(DATA, n)
    df = pd.DataFrame({names[a]: [v / 64. for v in scores[a]] for a in range(m)}, index=data)
    base = rng.randrange(m)
    margin, above = rng.choice([0, 1, 2, 5]), rng.choice([8, 20, 45])
    del plt.CALLS[:]
    before = df.copy()
    P.pairwise_plot(df, names[base], margin=margin / 64., show_names_above=above / 64., max_ncols=rng.choice([1, 2, 2, 3]),
                    sns_context=rng.choice([None, "talk"]))
    if not before.equals(df):
        raise RuntimeError("the table was changed")
    axes = {}
    for who, name, a, k in plt.CALLS:
        if not who.startswith("ax"):
            continue
        d = axes.setdefault(who, {"comp": 0, "counts": [], "points": [], "names": []})
        if name == "set_xlabel":
            d["comp"] = names.index(a[0]) + 1
        elif name == "scatter":
            d["points"] += [[exact(x, 64), exact(y, 64)] for x, y in zip(a[0], a[1])]
        elif name == "text":
            d["counts"] += [int(v) for v in re.findall(r"-?\d+", str(a[2]))]
        elif name == "annotate" and str(a[0]) in data:
            d["names"].append(data.index(str(a[0])) + 1)
    return {"op": "plot", "scores": scores, "base": base + 1, "margin": margin, "above": above, "axes": [d for d in axes.values() if d["comp"]]}


def corrupt(case, rng):
    o = rng.choice(case["ops"])
    if o["op"] == "plot":
        a = rng.choice(o["axes"])
        a["counts"][rng.randrange(3)] += 1
    else:
        f = rng.choice(o["found"])
        f[3] = not f[3]
        if rng.random() < .5:
            f[3] = not f[3]
            o["ranks"][0][1] += 900
    return case
