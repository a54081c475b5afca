"""N01: number formatting."""
import re

from svgpy import formatter
from svgpy.formatter import (format_coordinate_pair_sequence,
                             format_number_sequence,
                             to_coordinate_pair_sequence)

from ..gens import decimals, st
from ..harness import Registry, check

REG = Registry(
    'N01',
    'Generated sequences of finite numbers and precisions 1..12; a case is '
    'non-trivial when some number is not an integer.')

num = st.one_of(
    st.integers(-10 ** 9, 10 ** 9), decimals(-1000, 1000, 6),
    st.integers(-10 ** 12, 10 ** 12).map(lambda n: n / 10 ** 9),
    st.floats(-1e9, 1e9, allow_nan=False),
    st.sampled_from([0, -0.0, 0.1, -0.1, 1e-7, -1e-7, 4e-7, -4e-7, 5e-7, 10,
                     100, 1000000, -20, 0.999999999, 99.9999999]))
NUMBER = re.compile(r'-?(0|[1-9][0-9]*)(\.[0-9]*[1-9])?')


@REG.test(st.fixed_dictionaries({'n': st.lists(num, max_size=8),
                                 'precision': st.sampled_from(
                                     [6, 6, 6, 1, 3, 12])}),
          quick=4000, thorough=100000)
def sequence(case):
    saved = formatter.precision
    formatter.precision = case['precision']
    try:
        out = format_number_sequence(case['n'])
        again = format_number_sequence([float(x) for x in out])
    finally:
        formatter.precision = saved
    check(len(out) == len(case['n']), 'one text per number')
    half = 0.5 * 10 ** -case['precision']
    for x, text in zip(case['n'], out):
        check(NUMBER.fullmatch(text), 'canonical number', number=x, got=text)
        check(text != '-0', 'negative zero', number=x)
        check(abs(float(text) - x) <= half * 1.0001 + abs(x) * 3e-16,
              'value of the text', number=x, got=text)
        check(len(text.partition('.')[2]) <= case['precision'], 'precision',
              number=x, got=text)
    check(again == out or any(abs(x) > 1e8 for x in case['n']),
          'formatting is idempotent', got=again, expected=out)
    return ['fraction'] if any('.' in t for t in out) else []


@REG.test(st.lists(num, max_size=10), quick=3000, thorough=60000)
def pairs(case):
    got = to_coordinate_pair_sequence(case)
    n = len(case) // 2
    check(got == [(case[2 * i], case[2 * i + 1]) for i in range(n)],
          'pairs', got=got)
    text = format_coordinate_pair_sequence(got)
    flat = format_number_sequence(case[:2 * n])
    want = ' '.join('{},{}'.format(flat[2 * i], flat[2 * i + 1])
                    for i in range(n))
    check(text == want, 'pair text', got=text, expected=want)
    back = [float(v) for v in re.split(r'[ ,]', text)] if text else []
    check(len(back) == 2 * n and all(
        abs(b - v) <= 5.1e-7 + abs(v) * 3e-16 for b, v in zip(back, case)),
        'read back')
    return ['pairs'] if n > 1 else []
