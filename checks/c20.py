"""C20 distributions: bins, extremes, slices and trimming optimizers."""
import numpy as np
from hypothesis import strategies as st

from checks.c19 import arr, datasets
from pbt import Sub, need
from pbt import pairs

from itcl_quantizer.optimizers import FixedPercentOptimizer, MinMaxOptimizer
from itcl_quantizer.quantizer.distributions.distribution import Distribution

RULE = (
    "A case is a data set (as in C19), a number of bins from 1 to 600 and value ranges, open ends or bin indexes to slice by. "
    "Bins, extremes and slice contents are compared with the sorted data. Non-trivial: the slice keeps at least one value "
    "and leaves one out."
) + pairs.RULE


def content(d):
    """values of the bins that report them, by bin"""
    return [d.get_bin(i) for i in range(len(d))]


def ulp(*v):
    return max(abs(float(x)) for x in v) * 2.0**-20 + 1e-300


@st.composite
def bins_case(draw, large=False):
    c = draw(datasets(large=large))
    c["bins"] = draw(st.one_of(st.sampled_from([1, 2, 16, 512, 512, 512]), st.integers(1, 600), *([st.sampled_from([1000, 1024, 1025, 2048])] if large else [])))
    c["neg"] = draw(st.integers(1, c["bins"]))
    return c


def check_bins(c, ctx):
    data = arr(c)
    keep = np.array(data)
    x = np.sort(np.array(c["a"], dtype=np.float64).ravel())
    if c["dt"] == "float32":
        x = np.sort(np.array(data, dtype=np.float32).ravel()).astype(np.float64)
    d = Distribution(data, bins=c["bins"]) if c["bins"] != 512 else Distribution(data)
    h, e = d.get_histogram(), d.get_bin_edges()
    need(len(d) == c["bins"] == len(h) == len(e) - 1, "number of bins", bins=len(d))
    need(sum(h) == len(x) and min(h) >= 0, "every value is counted once", total=sum(h), n=len(x))
    need(all(a < b or (a == b and x[0] == x[-1]) for a, b in zip(e, e[1:])), "edges increase")
    need(abs(d.get_bin_size() - (e[-1] - e[0]) / c["bins"]) <= 1e-3 * d.get_bin_size() + ulp(*e) * 4, "bin size", size=d.get_bin_size())
    const = x[0] == x[-1]
    if not const:
        need(d.get_min() == x[0] and d.get_max() == x[-1], "extremes of the data", got=(d.get_min(), d.get_max()), want=(x[0], x[-1]))
    else:
        need(d.get_min() <= x[0] <= d.get_max() and d.get_max() - d.get_min() <= 1 + 1e-6 + ulp(x[0]), "extremes of a constant")
    start = 0
    for i, b in enumerate(content(d)):
        want = x[start:start + h[i]]
        start += h[i]
        need(b.items == h[i], "items of the bin", bin=i)
        if h[i]:
            need(e[i] <= want[0] and want[-1] <= e[i + 1], "the values lie in the bin", bin=i, vals=want, edges=(e[i], e[i + 1]))
        if h[i] >= 2:
            need(np.array_equal(np.array(b.items_in_bin, dtype=np.float64), want), "content of the bin", bin=i)
            need(b.min == want[0] and b.max == want[-1], "extremes of the bin", bin=i)
        else:
            need(b.min == e[i] and b.max == e[i + 1], "edges of a bin with less than two values", bin=i)
    n = d.get_bin(-c["neg"])
    p = d.get_bin(c["bins"] - c["neg"])
    need((n.min, n.max, n.items) == (p.min, p.max, p.items), "negative bin index")
    norm = np.asarray(d.normalize())
    need(np.allclose(norm * len(x), h, rtol=1e-12, atol=1e-12), "normalized histogram")
    # other data: moved, of another size, or with another number of bins
    k = c["neg"] % 4
    more = np.array(data)[: max(1, len(x) // 2)] if k == 1 else np.concatenate([np.array(data)] * (3 if k == 2 else 1)) * 2
    other = Distribution(more, bins=c["bins"] + (k == 3))
    seen = []

    def cmp(a, b):
        seen.append((np.array(a), np.array(b)))
        return 7.25

    need(d.compare(other, cmp) == 7.25 and d.compare(other, cmp, norm=False) == 7.25, "result of the comparison")
    need(np.allclose(seen[0][0], norm) and np.allclose(seen[0][1], other.normalize()), "normalized histograms are compared")
    need(np.array_equal(seen[1][0], h) and sum(other.get_histogram()) == more.size and np.array_equal(seen[1][1], other.get_histogram()), "raw histograms are compared")
    need(np.array_equal(keep, np.array(data)), "the data were modified")
    ctx.nontrivial(not const and max(h) >= 2)


@st.composite
def slice_case(draw, large=False):
    c = draw(datasets(min_n=2, large=large))
    c["bins"] = draw(st.one_of(st.sampled_from([512, 512, 16, 3]), st.integers(2, 600), *([st.sampled_from([1000, 1024, 1025, 2048])] if large else [])))
    flat = sorted(np.array(c["a"]).ravel().tolist())
    pick = st.one_of(
        st.floats(0, 1, width=32).map(lambda f: flat[0] + (flat[-1] - flat[0]) * f),
        st.sampled_from(flat),
        st.integers(0, c["bins"]).map(lambda k: flat[0] + (flat[-1] - flat[0]) * k / c["bins"]),
    )
    a, b = sorted([min(max(draw(pick), flat[0]), flat[-1]) for _ in range(2)])
    c["a0"] = draw(st.sampled_from([a, a, a, None]))
    c["b0"] = draw(st.sampled_from([b, b, b, None]))
    c["partial"] = draw(st.sampled_from([True, True, True, False]))
    return c


def slice_step(d, x, lo_key, hi_key, partial, ctx=None):
    """slices d, that holds the sorted values x; returns the slice and its values (None when unknown)"""
    before = (list(d.get_histogram()), list(d.get_bin_edges()), d.get_min(), d.get_max())
    a = before[2] if lo_key is None else lo_key
    b = before[3] if hi_key is None else hi_key
    inside = x[(x >= a) & (x <= b)]
    e, h = before[1], before[0]
    small = b - a < d.get_bin_size()
    if small and len(inside) == 0:
        return None, None
    sl = d[lo_key:hi_key]
    need((list(d.get_histogram()), list(d.get_bin_edges()), d.get_min(), d.get_max()) == before, "slicing changed the original")
    se, sh = sl.get_bin_edges(), sl.get_histogram()
    need(len(sl) == len(sh) == len(se) - 1 >= 1, "number of bins of the slice")
    lo, hi = sl.get_min(), sl.get_max()
    got = []
    for bn in content(sl):
        if bn.items >= 2:
            got.extend(np.array(bn.items_in_bin, dtype=np.float64).tolist())
    vals = inside
    if small:
        need(sum(sh) == len(inside), "a slice narrower than a bin keeps exactly its values", n=sum(sh), want=len(inside))
        if len(inside) >= 2:
            need(got == inside.tolist(), "content of the narrow slice")
            need((lo, hi) == (inside[0], inside[-1]), "extremes of the narrow slice", got=(lo, hi))
    else:
        k = next((i for i in range(len(e)) if e[i:i + len(se)] == se), None)
        need(k is not None, "the edges are part of the original ones", se=se[:3])
        need(list(sh) == h[k:k + len(sh)], "the counts are the original ones")
        # the values of those bins are part of the slice
        start = sum(h[:k])
        vals = x[start:start + sum(sh)]
        need(not got or set(got) <= set(vals.tolist()), "the slice reports values of its bins")
        if partial:
            need(se[0] <= a and (se[-1] >= b), "the slice covers the range", se=(se[0], se[-1]), ab=(a, b))
            if len(inside):
                need(lo <= inside[0] and hi >= inside[-1], "every value of the range is kept", got=(lo, hi), want=(inside[0], inside[-1]))
            # no more than the bins at the ends is added
            w = d.get_bin_size() * (1 + 1e-3) + 4 * ulp(*e)
            need(se[0] >= a - w and se[-1] <= b + w, "at most one bin is added at each end", se=(se[0], se[-1]), ab=(a, b))
            need(lo >= a - w and hi <= b + w, "the extremes stay within one bin of the range", got=(lo, hi), ab=(a, b))
        elif b - a > 3.01 * d.get_bin_size() + 8 * ulp(*e):
            need(se[0] >= a and se[-1] <= b, "bins that are partly outside are left out", se=(se[0], se[-1]), ab=(a, b))
            w = 2 * d.get_bin_size() * (1 + 1e-3) + 8 * ulp(*e)
            need(se[0] <= a + w and se[-1] >= b - w, "bins inside the range are kept", se=(se[0], se[-1]), ab=(a, b))
        # a value on the last edge is counted by the next bin
        if start + sum(sh) < len(x) and x[start + sum(sh)] <= se[-1]:
            vals = None
    if ctx is not None:
        ctx.nontrivial(len(inside) > 0 and len(inside) < len(x))
        ctx.label("narrow", small)
    return sl, vals


def check_slice(c, ctx):
    data = arr(c)
    x = np.sort(np.array(data).astype(np.float64).ravel())
    if x[0] == x[-1]:
        return
    kw = {} if c["partial"] else {"include_partial_bins": False}
    d = Distribution(data, bins=c["bins"], **kw)
    slice_step(d, x, c["a0"], c["b0"], c["partial"], ctx)


@st.composite
def chain_case(draw, large=False):
    """slices of slices and trimmed slices"""
    c = draw(datasets(min_n=2, large=large))
    c["bins"] = draw(st.sampled_from([512, 512, 64, 16, 3]))
    part = st.tuples(st.just("slice"), st.floats(0, 1, width=32), st.floats(0, 1, width=32), st.sampled_from([0, 0, 0, 1, 2]))
    trim = st.tuples(st.just("trim"), st.sampled_from([0.0, 0.01, 0.05, 0.1, 0.25]), st.just(0), st.just(0))
    c["ops"] = [list(o) for o in draw(st.lists(st.one_of(part, part, trim), min_size=2, max_size=4))]
    return c


def check_chain(c, ctx):
    data = arr(c)
    x = np.sort(np.array(data).astype(np.float64).ravel())
    d = Distribution(data, bins=c["bins"])
    done = 0
    for op, u, v, open_end in c["ops"]:
        if len(x) < 2 or x[-1] - x[0] < 1e-3 * np.abs(x).max():
            break
        if op == "slice":
            a, b = sorted(min(x[0] + (x[-1] - x[0]) * f, x[-1]) for f in (u, v))
            a, b = (None if open_end == 1 else a), (None if open_end == 2 else b)
            d, x = slice_step(d, x, a, b, True)
        else:
            lo, hi = np.quantile(x, u), np.quantile(x, 1 - u)
            h = list(d.get_histogram())
            t = FixedPercentOptimizer(u).trim(d)
            need(list(d.get_histogram()) == h, "trimming changed the original")
            need(sum(t.get_histogram()) == len(x), "the values of the slice are clipped, not dropped", got=sum(t.get_histogram()), want=len(x))
            if hi - lo <= 2e-3 * max(abs(lo), abs(hi)):
                break
            eps = 1e-6 * np.abs(x).max()
            need(abs(t.get_min() - lo) <= eps and abs(t.get_max() - hi) <= eps, "the tails of the slice are clipped", got=(t.get_min(), t.get_max()), want=(lo, hi))
            d, x = t, np.clip(x, t.get_min(), t.get_max())
        if x is None:
            break
        done += 1
    ctx.nontrivial(done >= 2)


@st.composite
def bin_key(draw):
    c = draw(datasets(min_n=2))
    c["bins"] = draw(st.sampled_from([1, 2, 5, 16, 512]))
    c["k"] = draw(st.integers(-c["bins"], c["bins"] - 1))
    c["busy"] = draw(st.booleans())
    return c


def check_bin_key(c, ctx):
    data = arr(c)
    d = Distribution(data, bins=c["bins"])
    if d.get_bin_size() <= 0:  # a large constant: its bins are narrower than its precision
        return
    k = c["k"]
    if c["busy"]:  # aim at a bin with values
        k = int(np.argmax(d.get_histogram()))
    b = d.get_bin(k)
    if b.items < 2:
        return
    sl = d[k]
    need(sl.get_min() == b.min and sl.get_max() == b.max, "extremes of the sliced bin", got=(sl.get_min(), sl.get_max()), want=(b.min, b.max))
    need(sum(sl.get_histogram()) == b.items, "values of the sliced bin", got=sum(sl.get_histogram()), want=b.items)
    ctx.nontrivial(b.items < np.array(data).size)


@st.composite
def trim_case(draw, large=False):
    c = draw(datasets(min_n=2, large=large))
    c["p"] = draw(st.sampled_from([0.0, 0.01, 0.05, 0.1, 0.25, 0.4]))
    return c


def check_trim(c, ctx):
    data = arr(c)
    x = np.sort(np.array(data).astype(np.float64).ravel())
    d = Distribution(data)
    m = MinMaxOptimizer().trim(d)
    need((m.get_min(), m.get_max(), list(m.get_histogram())) == (d.get_min(), d.get_max(), list(d.get_histogram())), "MinMax keeps everything")
    if x[0] == x[-1]:
        return
    t = FixedPercentOptimizer(c["p"]).trim(d)
    p = c["p"]
    n = len(x)
    lo, hi = np.quantile(x, p), np.quantile(x, 1 - p)
    need(sum(t.get_histogram()) == n, "values are clipped, not dropped")
    eps = 1e-6 * np.abs(x).max()
    if hi - lo > 2e-3 * max(abs(lo), abs(hi)):
        need(abs(t.get_min() - lo) <= eps and abs(t.get_max() - hi) <= eps, "clipped to the percentage of each tail",
             got=(t.get_min(), t.get_max()), want=(lo, hi))
        ctx.nontrivial(p > 0 and (lo > x[0] or hi < x[-1]))


@st.composite
def ranged_case(draw):
    """histograms over a range of their own, or with their own edges"""
    c = draw(datasets(min_n=4))
    flat = sorted(np.array(c["a"]).ravel().tolist())
    lo, hi = flat[0], flat[-1]
    if lo == hi:
        hi = lo + max(abs(lo), 1.0)
    w = hi - lo
    f = st.one_of(st.sampled_from([-0.5, 0.0, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5]), st.floats(-0.5, 1.5, width=32))
    n = draw(st.sampled_from([1, 2, 3, 8, 16, 64]))
    cuts = sorted({lo + w * round(draw(f), 3) for _ in range(2)})
    if len(cuts) < 2:
        cuts = [lo + w / 4, lo + w / 2]
    c["range"] = cuts
    c["bins"] = n
    if draw(st.booleans()):
        c["edges"] = sorted({lo + w * round(draw(f), 3) for _ in range(draw(st.integers(2, 9)))} | set(cuts))
    c["cut"] = sorted(draw(st.floats(0, 1, width=32)) for _ in range(2))
    return c


def check_ranged(c, ctx):
    x = np.sort(np.array(c["a"], dtype=np.float64).ravel())
    data = np.array(c["a"], dtype=np.float64)
    uneven = "edges" in c
    d = Distribution(data, bins=c["edges"]) if uneven else Distribution(data, bins=c["bins"], range=tuple(c["range"]))
    e, h = list(d.get_bin_edges()), list(d.get_histogram())
    need(len(d) == len(h) == len(e) - 1 == (len(c["edges"]) - 1 if uneven else c["bins"]), "number of bins", n=len(d))
    if uneven:
        need(e == c["edges"], "the edges are the given ones", got=e)
    else:
        need(e[0] == c["range"][0] and e[-1] == c["range"][1], "the edges cover the given range", got=(e[0], e[-1]))
    for i, b in enumerate(content(d)):
        want = x[(x >= e[i]) & ((x < e[i + 1]) | (i == len(h) - 1) & (x == e[i + 1]))]
        need(b.items == h[i] == len(want), "items of the bin", bin=i, got=(b.items, h[i]), want=len(want))
        if len(want) >= 2:
            need(np.array_equal(np.array(b.items_in_bin, dtype=np.float64), want), "content of the bin", bin=i, got=b.items_in_bin, want=want)
            need((b.min, b.max) == (want[0], want[-1]), "extremes of the bin", bin=i)
        else:
            need((b.min, b.max) == (e[i], e[i + 1]), "edges of a bin with less than two values", bin=i)
    need(np.array_equal(data, np.array(c["a"], dtype=np.float64)), "the data were modified")
    first, last = d.get_bin(0), d.get_bin(-1)
    need((d.get_min(), d.get_max()) == (first.min, last.max), "extremes are the ones of the outer bins", got=(d.get_min(), d.get_max()))
    kept = x[(x >= e[0]) & (x <= e[-1])]
    ctx.nontrivial(2 <= len(kept) < len(x))
    ctx.label("own edges", uneven)
    if sum(h):
        need(np.allclose(np.asarray(d.normalize()) * len(kept), h, rtol=1e-12, atol=1e-12), "normalized histogram")
    if not uneven and c["bins"] > 1 and len(kept):
        a, b = (e[0] + (e[-1] - e[0]) * f for f in c["cut"])
        slice_step(d, kept, a, min(b, e[-1]), True)


def subs():
    return [pairs.two(bins_case(), check_bins, quick=200, name="two distributions at once"),
            pairs.two(chain_case(), check_chain, quick=200, name="two chains at once"),
            Sub("bins", bins_case(), check_bins, quick=1200, thorough=20000),
        Sub("slices", slice_case(), check_slice, quick=3500, thorough=60000),
        Sub("bin slices", bin_key(), check_bin_key, quick=800, thorough=10000),
        Sub("trimming", trim_case(), check_trim, quick=1500, thorough=20000),
        Sub("ranges", ranged_case(), check_ranged, quick=800, thorough=20000),
        Sub("chains", chain_case(), check_chain, quick=1000, thorough=20000),
        Sub("large chains", chain_case(large=True), check_chain, quick=60, thorough=1200),
        Sub("large bins", bins_case(large=True), check_bins, quick=60, thorough=1200),
        Sub("large slices", slice_case(large=True), check_slice, quick=100, thorough=2000),
        Sub("large trimming", trim_case(large=True), check_trim, quick=60, thorough=1200),
    ]
