"""Pair selectors."""
import itertools

from hypothesis import strategies as st

from pbt.harness import Violation, facet
from ssspy.utils.select_pair import combination_pair_selector, sequential_pair_selector

P = "C26"


@facet(P, "sequential", st.fixed_dictionaries({
    "n": st.integers(2, 40), "stop": st.one_of(st.none(), st.integers(0, 120)),
    "step": st.sampled_from([None, 1, 2, 3, 5]), "sort": st.sampled_from([None, True, False])}),
    quick=1500, thorough=10000, rule="source counts 2..40, explicit stop/step, ordering flag; all evaluated")
def sequential(case):
    n = case["n"]
    k = {a: case[a] for a in ("stop", "step", "sort") if case[a] is not None}
    got = [tuple(p) for p in sequential_pair_selector(n, **k)]
    again = [tuple(p) for p in sequential_pair_selector(n, **k)]
    if got != again:
        raise Violation("two enumerations differ")
    stop = n if case["stop"] is None else case["stop"]
    step = case["step"] or 1
    want = []
    i = 0
    while i < stop:
        p = (i % n, (i + 1) % n)
        want.append(tuple(sorted(p)) if case["sort"] else p)
        i += step
    if got != want:
        raise Violation("pairs %s, expected cyclic neighbours %s" % (got[:5], want[:5]))
    if case["stop"] is None and step in (1, 2) and {i for p in got for i in p} != set(range(n)):
        raise Violation("a full sweep leaves a source unpaired")
    return ["sort=%s" % case["sort"], "step=%s" % case["step"]]


@facet(P, "combination", st.fixed_dictionaries({
    "n": st.integers(2, 25), "sort": st.sampled_from([None, True, False])}),
    quick=200, thorough=200, rule="all pairs enumerated exactly once; all evaluated")
def combination(case):
    n = case["n"]
    k = {} if case["sort"] is None else {"sort": case["sort"]}
    got = [tuple(p) for p in combination_pair_selector(n, **k)]
    if len(got) != n * (n - 1) // 2 or {frozenset(p) for p in got} != {
        frozenset(p) for p in itertools.combinations(range(n), 2)
    }:
        raise Violation("not every unordered pair exactly once: %s" % got[:6])
    if any(not (0 <= a < n and 0 <= b < n and a != b) for a, b in got):
        raise Violation("invalid pair")
    if case["sort"] and any(a > b for a, b in got):
        raise Violation("pair not sorted although sort=True")
    return ["n=%d" % n]
