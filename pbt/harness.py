"""Shared machinery: test registry, Hypothesis driver, workers, replay.

Every test is a pair (strategy, function).  The strategy produces *plain JSON
data* (numbers, strings, lists, dicts), the function interprets that data
against the real code and an oracle and raises on disagreement.  Histories are
lists of operations, so a whole sequence shrinks as one value, and a replay
file is simply the JSON of the minimal case: replaying bypasses Hypothesis.

A function returns a (possibly empty) collection of labels; a case counts as
non-trivial when the collection is non-empty.
"""
import hashlib
import json
import mmap
import os
import signal
import struct
import sys
import time
import traceback
import zlib

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)  # at the end: /opt/venv's packages win

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401

CASE_CPU_LIMIT = 40  # seconds of CPU for one case (a normal one takes < 0.2 s)
SHRINK_WALL_LIMIT = 40  # seconds spent on shrinking before the best is taken


class Hang(BaseException):
    pass


class _StopShrinking(BaseException):
    pass


class Violation(AssertionError):
    """The oracle and the code disagree."""


def fail(message, **info):
    if info:
        message += ' ' + ', '.join(
            '{}={!r}'.format(k, v) for k, v in info.items())
    raise Violation(message)


def check(cond, message, **info):
    if not cond:
        fail(message, **info)


class Test(object):
    def __init__(self, name, strategy, fn, quick, thorough=None):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20


class Registry(object):
    """The tests and known-finding probes of one property."""

    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tests = []
        self.probes = {}

    def test(self, strategy, quick, thorough=None, name=None):
        def deco(fn):
            self.tests.append(
                Test(name or fn.__name__, strategy, fn, quick, thorough))
            return fn
        return deco

    def probe(self, finding_id):
        """Registers the reproduction of a known finding: returns True while
        the defect is present."""
        def deco(fn):
            self.probes[finding_id] = fn
            return fn
        return deco


def canonical(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def case_hash(text):
    return zlib.crc32(text.encode()) << 32 | (hash_int(text) & 0xffffffff)


def hash_int(text):
    return int.from_bytes(hashlib.blake2b(text.encode(),
                                          digest_size=8).digest(), 'big')


def run_case(test, case):
    """Runs one case under the CPU watchdog."""
    def on_alarm(_sig, _frame):
        raise Hang()

    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        return test.fn(case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Recorder(object):
    """A shared memory slot that survives a crash of the worker."""
    SIZE = 1 << 20

    def __init__(self):
        self._map = mmap.mmap(-1, self.SIZE)

    def put(self, text):
        data = text.encode()[:self.SIZE - 8]
        self._map[0:8] = struct.pack('<Q', len(data))
        self._map[8:8 + len(data)] = data

    def clear(self):
        self._map[0:8] = struct.pack('<Q', 0)

    def get(self):
        n = struct.unpack('<Q', self._map[0:8])[0]
        return self._map[8:8 + n].decode() if n else None


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for frame in reversed(tb):
        if '/svgpy/' in frame.filename:
            where = ' [{}:{} in {}]'.format(
                os.path.basename(frame.filename), frame.lineno, frame.name)
            break
    text = '{}: {}{}'.format(type(exc).__name__, exc, where)
    return text[:2000]


def search(test, count, seed_value, recorder):
    """Drives one test with Hypothesis; returns a result dictionary."""
    state = {
        'evaluations': 0, 'nontrivial': set(), 'labels': {}, 'samples': [],
        'failure': None, 'first_failure': None,
    }

    def body(case):
        text = canonical(case)
        if state['first_failure'] is not None and (
                time.monotonic() - state['first_failure'] > SHRINK_WALL_LIMIT):
            raise _StopShrinking()
        recorder.put(text)
        state['evaluations'] += 1
        try:
            labels = run_case(test, json.loads(text))
        except Hang:
            state['failure'] = (case, 'Hang: no answer within {} s of CPU'
                                .format(CASE_CPU_LIMIT))
            raise
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as exp:
            if state['first_failure'] is None:
                state['first_failure'] = time.monotonic()
            state['failure'] = (case, describe(exp))
            raise
        finally:
            recorder.clear()
        if labels:
            key = hash_int(text)
            if key not in state['nontrivial']:
                state['nontrivial'].add(key)
                if len(state['samples']) < 2 or (
                        len(state['samples']) < 4
                        and len(text) > 2 * len(
                            canonical(state['samples'][-1]))):
                    if len(text) < 4000:
                        state['samples'].append(case)
            for label in labels:
                state['labels'][label] = state['labels'].get(label, 0) + 1

    wrapped = settings(
        max_examples=count, database=None, deadline=None,
        report_multiple_bugs=False, print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )(given(test.strategy)(body))
    wrapped = hypothesis.seed(seed_value)(wrapped)
    error = None
    try:
        wrapped()
    except (Hang, _StopShrinking):
        pass
    except Exception as exp:
        if state['failure'] is None:
            error = 'harness: ' + ''.join(traceback.format_exception(exp))
    result = {
        'test': test.name,
        'seed': seed_value,
        'evaluations': state['evaluations'],
        'nontrivial': state['nontrivial'],
        'labels': state['labels'],
        'samples': state['samples'],
        'failure': state['failure'],
        'error': error,
    }
    return result
