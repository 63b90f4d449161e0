"""C35 noise metrics, histogram reduction, entropy trimming and noise-driven trimming."""
import contextlib
import io
import math
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import OptimizeResult

from pbt import Sub, close, need
from pbt import pairs

from itcl_quantization import Quantization
from itcl_quantizer.optimizers.kl_div_optimizer import KLDivergenceOptimizer
from itcl_quantizer.optimizers.scipy_optimizer import ScipyOptimizer
from itcl_quantizer.quantizer.distributions.distribution import Distribution
from itcl_quantizer.quantizer.metrics.noise import cross_entropy, kl_divergence, mse

RULE = (
    "Metrics: pairs of histograms (counts or shares, up to 600 bins, many of them empty) against their formulas. Reductions: "
    "histograms of up to 400 bins, also with whole groups of empty ones, reduced to any number of bins. Trimming: data of several "
    "shapes, with outliers and gaps, 16 to 512 bins. Non-trivial: two different histograms, a histogram with empty and filled "
    "bins, a trimming that leaves values out."
) + pairs.RULE
ASSUMPTIONS = ["entropy trimming: data with at least two distinct values; noise trimming: the search itself is scipy's; the check searches with a method of its own, or with Nelder-Mead"]


@st.composite
def counts(draw, n):
    """a histogram of n bins, given by its runs"""
    out = []
    while len(out) < n:
        out += [draw(st.sampled_from([0, 0, 1, 1, 2, 3, 7, 50, 1000, 10**6]))] * draw(st.integers(1, 1 + n // 3))
    return out[:n]


@st.composite
def metric_case(draw):
    n = draw(st.one_of(st.integers(1, 8), st.sampled_from([16, 100, 512, 600])))
    return {"p": draw(counts(n)), "q": draw(counts(n)), "norm": draw(st.booleans()), "same": draw(st.integers(0, 9)) == 0}


def check_metric(c, ctx):
    p, q = np.array(c["p"]), np.array(c["p"] if c["same"] else c["q"])
    if c["norm"]:
        p, q = p / max(p.sum(), 1), q / max(q.sum(), 1)
    p0, q0 = p.copy(), q.copy()
    got = float(kl_divergence(p, q))
    need(np.array_equal(p, p0) and np.array_equal(q, q0), "the histograms are not modified")
    a, b = [[float(v) or 1e-10 for v in h.tolist()] for h in (p, q)]
    terms = [x * math.log(x / y) - x + y for x, y in zip(a, b)]
    scale = math.fsum(abs(x * math.log(x / y)) + x + y for x, y in zip(a, b))
    need(abs(got - math.fsum(terms)) <= 1e-12 * scale + 1e-300, "KL divergence", got=got, want=math.fsum(terms))
    need(got >= -1e-12 * scale, "a divergence is not negative", got=got)
    if c["same"]:
        need(got == 0, "a histogram does not diverge from itself", got=got)
    close(mse(p, q), math.fsum((x - y) ** 2 for x, y in zip(p.tolist(), q.tolist())) / len(p), rtol=1e-12, atol=0, msg="mean squared error")
    need(mse(p, q) == mse(q, p), "the mean squared error is symmetric")
    if (q > 0).all():
        want = -math.fsum(x * math.log(y) for x, y in zip(p.tolist(), q.tolist()))
        size = math.fsum(abs(x * math.log(y)) for x, y in zip(p.tolist(), q.tolist()))
        need(abs(float(cross_entropy(p, q)) - want) <= 1e-12 * size, "cross entropy", got=cross_entropy(p, q), want=want)
    need(np.array_equal(p, p0) and np.array_equal(q, q0), "the histograms are not modified")
    ctx.nontrivial(not np.array_equal(p, q))


@st.composite
def reduce_case(draw):
    n = draw(st.one_of(st.integers(1, 24), st.sampled_from([64, 100, 256, 400])))
    return {"h": draw(counts(n)), "bins": n, "to": draw(st.one_of(st.integers(1, n), st.sampled_from([k for k in (1, 2, 4, 8, 16) if k <= n]))),
            "cut": draw(st.integers(0, n)), "np": draw(st.booleans())}


def reduced(h, bins, to):
    k = math.ceil(bins / to)
    out = []
    for g in range(0, len(h), k):
        group = h[g:g + k]
        full = sum(v > 0 for v in group)
        out += [sum(group) / full if v > 0 else 0.0 for v in group]
    return out


def check_reduce(c, ctx):
    h = c["h"][:max(1, c["cut"])] if c["cut"] else c["h"]  # of the beginning only, as the trimming uses it
    arg = np.array(h) if c["np"] else list(h)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = KLDivergenceOptimizer(c["bins"], c["to"]).reduce(arg)
    need(list(arg) == h, "the histogram is not modified")
    want = reduced(h, c["bins"], c["to"])
    need(len(got) == len(h), "as many bins", got=len(got), want=len(h))
    close(np.array(got, dtype=float), np.array(want), rtol=1e-12, atol=0, msg="a group shares its items between its filled bins")
    need(abs(math.fsum(got) - sum(h)) <= 1e-9 * sum(h), "the items are kept", got=math.fsum(got), want=sum(h))
    ctx.nontrivial(0 in h and any(h) and c["to"] < c["bins"])
    ctx.label("empty group", any(not any(want[g:g + math.ceil(c["bins"] / c["to"])]) for g in range(0, len(h), math.ceil(c["bins"] / c["to"]))))


@st.composite
def data_case(draw, bins, least=2):
    return {"seed": draw(st.integers(0, 2**31 - 1)), "n": draw(st.sampled_from([20, 100, 500, 2000])), "kind": draw(st.sampled_from(["normal", "relu", "uniform", "two", "steps"])),
            "shift": draw(st.sampled_from([0, 0, 0, -20, 5, 300])), "unit": draw(st.sampled_from([1.0, 1.0, 0.01, 50.0])), "out": draw(st.sampled_from([0, 0, 1, 3])),
            "far": draw(st.sampled_from([-10, 3, 10, 40])), "bins": draw(st.sampled_from(bins)), "f32": draw(st.booleans())}


def data(c):
    rng = np.random.RandomState(c["seed"])
    x = rng.normal(0, 3, size=c["n"])
    if c["kind"] == "relu":
        x = np.maximum(x, 0)
    elif c["kind"] == "uniform":
        x = rng.uniform(-5, 5, size=c["n"])
    elif c["kind"] == "two":
        x = np.where(rng.uniform(size=c["n"]) < 0.5, x * 0.1 - 4, x * 0.1 + 4)
    elif c["kind"] == "steps":
        x = np.round(x)
    x[:c["out"]] = c["far"] * np.linspace(3, 4, c["out"]) if c["out"] else x[:0]
    x = (x + c["shift"]) * c["unit"]
    return x.astype(np.float32) if c["f32"] else x


@st.composite
def entropy_case(draw):
    c = draw(data_case([16, 32, 64, 100, 256]))
    c["to"] = draw(st.sampled_from([k for k in (2, 4, 8, 16, 32, 128) if k < c["bins"]]))
    return c


def check_entropy(c, ctx):
    x = data(c)
    d = Distribution(x)
    before = (list(d.get_histogram()), list(d.get_bin_edges()))
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = KLDivergenceOptimizer(c["bins"], c["to"]).trim(d)
    need((list(d.get_histogram()), list(d.get_bin_edges())) == before, "trimming changed the original")
    h, e = np.histogram(x, bins=c["bins"])
    div = {}
    for i in range(c["to"], c["bins"]):
        p = h[:i].astype(np.float64)
        p[-1] += h[i:].sum()
        q = np.array(reduced(h[:i].tolist(), c["bins"], c["to"]))
        p, q = [np.where(v == 0, 1e-10, v / v.sum()) for v in (p, q)]
        div[i] = math.fsum((p * np.log(p / q) - p + q).tolist())
    best = min(div.values())
    width = float(e[1] - e[0])
    ends = [Distribution(np.sort(x), c["bins"])[:float(e[0]) + (m + 0.5) * width] for m, v in div.items() if v <= best + 1e-9]
    got = (list(t.get_histogram()), list(t.get_bin_edges()), t.get_min(), t.get_max())
    near = [k for k in ends if k.get_histogram() == got[0] and np.allclose(k.get_bin_edges(), got[1], rtol=1e-6, atol=1e-6 * width)]
    need(bool(near), "the values up to the threshold of the least divergence are kept", got=got[2:], want=[(k.get_min(), k.get_max()) for k in ends][:4])
    need((t.get_min(), t.get_max()) in [(k.get_min(), k.get_max()) for k in near], "the extremes of the kept values")
    need(t.get_min() == x.min() or h[0] < 2, "trimming is at the upper end", got=t.get_min(), want=x.min())
    ctx.nontrivial(sum(got[0]) < x.size)
    ctx.label("trimmed", sum(got[0]) < x.size)


@st.composite
def noise_case(draw):
    c = draw(data_case([16, 32, 64, 512]))
    c.update(q=draw(st.sampled_from(["int8", "int8", "uint8", "int4", "int6", "int16"])), metric=draw(st.sampled_from(["mse", "mse", "kl"])), n=min(c["n"], 500),
             points=[list(t) for t in draw(st.lists(st.one_of(st.tuples(st.floats(0, 0.4), st.floats(0.6, 1)), st.tuples(st.floats(-0.1, 1.0), st.floats(0, 1.1))), min_size=1, max_size=6))], scipy=draw(st.sampled_from([False] * 5 + [True])))
    return c


def check_noise(c, ctx):
    x = data(c)
    q = Quantization(c["q"])
    metric = {"mse": mse, "kl": kl_divergence}[c["metric"]]
    d = Distribution(x, bins=c["bins"])
    h, e = list(d.get_histogram()), list(d.get_bin_edges())
    values = np.sort(x.ravel())

    def noise(part):
        s, zp = part.quantize(q)
        codes = q.dequantize(q.quantize(values, zp, s), zp, s)
        other = np.histogram(codes, bins=np.array(e))[0]
        a, b = [np.asarray(k, dtype=np.float64) for k in (h, other)]
        return float(metric(a / a.sum(), b / b.sum()))

    points = [[e[0], e[-1]]] + [[e[0] + (e[-1] - e[0]) * u, e[0] + (e[-1] - e[0]) * v] for u, v in c["points"]]
    asked = []

    def search(fun, x0, args=(), bounds=None, **options):
        """a method for scipy.optimize.minimize: asks for the noise of the points of the case"""
        asked.append((np.array(x0), bounds))
        for p in points:
            p.append(float(fun(np.array(p[:2]))))
        best = min(points, key=lambda p: p[2] if p[2] == p[2] else math.inf)
        asked.append(best)
        return OptimizeResult(x=np.array(best[:2]), fun=best[2], success=True)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = ScipyOptimizer(q, metric, "Nelder-Mead" if c["scipy"] else search).trim(d)
        need((list(d.get_histogram()), list(d.get_bin_edges())) == (h, e), "trimming changed the original")
        if c["scipy"]:
            plain, got = noise(d), noise(t)
            need(not got > plain * (1 + 1e-9) + 1e-12, "the trimmed range has no more noise than the whole one", got=got, want=plain)
            ctx.label("scipy")
            return
        need(asked[0][0].tolist() == [e[0], e[-1]], "the search starts with the whole range", got=asked[0][0])
        for a, b, got in points:
            if a < e[0] or b > e[-1] or b - a < 1:
                need(got >= 1e6, "a range that is not part of the data, or narrower than one, is never the best", range=(a, b), got=got)
                continue
            if ((values >= a) & (values <= b)).sum() == 0:
                continue
            want = noise(d[a:b])
            ok = (not math.isfinite(want) and not math.isfinite(got)) or abs(got - want) <= 1e-9 * abs(want) + 1e-12
            if not ok and c["metric"] == "mse":  # a value on an edge may be counted in either bin
                ok = abs(got - want) <= 9 * (math.sqrt(want * len(h)) + 1 / x.size) / x.size / len(h)
            need(ok, "the noise of the range", range=(a, b), got=got, want=want)
        best = asked[1]
        if best[1] - best[0] >= d.get_bin_size() and best[2] < 1e6:
            want = d[best[0]:best[1]]
            need((t.get_min(), t.get_max()) == (want.get_min(), want.get_max()) and list(t.get_histogram()) == list(want.get_histogram()), "the best range found is kept",
                 got=(t.get_min(), t.get_max()), want=best)
            ctx.nontrivial(sum(t.get_histogram()) < x.size or len(t) < len(d))
    ctx.label(c["q"])
    ctx.label("several ranges", len([p for p in points if p[2] < 1e6]) > 1)


def subs():
    return [pairs.two(reduce_case(), check_reduce, quick=200, twist={"h": "reverse", "to": lambda c: st.integers(1, c["bins"])}),
            Sub("metrics", metric_case(), check_metric, quick=1500, thorough=30000),
            Sub("reductions", reduce_case(), check_reduce, quick=1500, thorough=30000),
            Sub("entropy", entropy_case(), check_entropy, quick=200, thorough=3000),
            Sub("noise", noise_case(), check_noise, quick=400, thorough=8000)]
