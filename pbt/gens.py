"""Shared generators of plain JSON data."""
from .harness import st

SMALL = st.integers(-20, 20)


def decimals(lo, hi, places=3):
    """Floats with at most `places` decimals: exact enough to print, plenty to
    search."""
    k = 10 ** places
    return st.integers(int(lo * k), int(hi * k)).map(lambda n: n / k)


def number(lo=-1000, hi=1000):
    """A mixture of small integers, special values and decimals."""
    special = [v for v in (0, 1, -1, 2, 0.5, -0.5, 10, 100, 0.001)
               if lo <= v <= hi]
    return st.one_of(
        st.integers(max(-10, lo), min(10, hi)) if lo <= 10 and hi >= -10
        else st.integers(int(lo), int(hi)),
        st.sampled_from(special) if special else st.just(lo),
        decimals(lo, hi),
    )


def positive(lo=0.01, hi=500):
    return st.one_of(st.integers(1, 20), decimals(lo, hi, 2))


angle = st.one_of(
    st.sampled_from([0, 30, 45, 60, 90, 120, 135, 180, 270, 360, -45, -90,
                     -135, -180, 450, 720]),
    decimals(-400, 400, 2))


def oneof(*args):
    return st.one_of(*args)


def op(name, *args):
    """['name', arg, ...]"""
    return st.tuples(st.just(name), *args).map(list)
