"""Every (number of sources, stop, step, sort) in the bounded range is enumerated; the generated sequence is compared
with an independently written specification, for the current and the deprecated entry points, for partially consumed and
interleaved iterators."""

import itertools
import warnings

ID = "C25"
TITLE = "Pair selectors enumerate exactly the documented pairs"
BOUNDS = {"quick": "2-16 sources, stop None/0..40, step 1..19, sort", "thorough": "2-32 sources, stop None/0..80, step 1..39, sort"}
ASSUMPTIONS = []


def cases(tier):
    q = tier == "quick"
    return [{"n": n, "stops": 41 if q else 81, "steps": 20 if q else 40} for n in range(2, 17 if q else 33)]


def case_name(c):
    return "n=%d" % c["n"]


def spec_seq(n, stop, step, sort):
    out, m = [], 0
    while m < (n if stop is None else stop):
        a = m - n * (m // n)
        b = 0 if a == n - 1 else a + 1
        out.append((min(a, b), max(a, b)) if sort else (a, b))
        m += step
    return out


def spec_comb(n):
    return [(a, b) for a in range(n) for b in range(n) if a < b]


def run(case, ctx):
    from ssspy.bss import _select_pair as old
    from ssspy.utils import select_pair as new

    n = case["n"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for name, mod in (("new", new), ("deprecated", old)):
            for sort in (None, False, True):
                ks = {} if sort is None else {"sort": sort}
                got = list(mod.combination_pair_selector(n, **ks))
                ctx.step()
                ctx.state("comb", n, sort)
                ctx.check(got == spec_comb(n), "combination:%s:%s" % (name, sort), lambda: str(got))
                for stop in [None] + list(range(case["stops"])):
                    for step in [None] + list(range(1, case["steps"] + 1)):
                        kw = dict(ks)
                        if stop is not None:
                            kw["stop"] = stop
                        if step is not None:
                            kw["step"] = step
                        it = mod.sequential_pair_selector(n, **kw)
                        first = list(itertools.islice(it, 1))
                        other = list(mod.sequential_pair_selector(n, **kw))  # iterators are independent
                        got = first + list(it)
                        exp = spec_seq(n, stop, step or 1, bool(sort))
                        ctx.step()
                        ctx.state("seq", n, sort, stop, step)
                        key = "sequential:%s:%s:%s:%s" % (name, sort, stop, step)
                        ctx.check(got == exp and other == exp, key, lambda: "%s expected %s" % (got, exp))
                        ctx.check(all(isinstance(a, int) and 0 <= a < n and 0 <= b < n and a != b for a, b in got), key + ":range", lambda: str(got))
        # positional arguments
        ctx.check(list(new.sequential_pair_selector(n, 2 * n, 2, True)) == spec_seq(n, 2 * n, 2, True), "positional", "order of arguments")
        ctx.check(list(new.combination_pair_selector(n, True)) == spec_comb(n), "positional:combination", "order of arguments")
    ctx.trace()
    ctx.outcome("ok")
