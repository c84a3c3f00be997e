"""Shared by the check modules."""
import copy
import json


def viol(cls, msg):
    return {'cls': cls, 'msg': str(msg)}


def drop_each(lst):
    """Shorter variants of a list: halves first, then without one element."""
    n = len(lst)
    if n > 3:
        yield lst[n // 2:]
        yield lst[:n // 2]
    for i in range(n):
        yield lst[:i] + lst[i + 1:]


def with_(spec, **kw):
    s = copy.deepcopy(spec)
    s.update(kw)
    return s


def pick_switches(rng, trace, nthreads, kmax=4, files=None):
    """Choose preemption points from the steps of an undisturbed execution:
    half by location (each place in the code equally likely), half by time."""
    n = len(trace)
    if n == 0:
        return []
    bylocation = {}
    for i, (t, f, fn, line, off) in enumerate(trace):
        if files is None or f in files:
            bylocation.setdefault((f, fn, line, off), []).append(i + 1)
    locs = sorted(bylocation)
    out = {}
    for _ in range(rng.randint(1, kmax)):
        if locs and rng.random() < 0.7:
            s = rng.choice(bylocation[rng.choice(locs)])
        else:
            s = rng.randint(1, n)
        out[s] = rng.randrange(nthreads)
        if rng.random() < 0.5:
            # come back a little later
            out[s + rng.choice([1, 2, 3, 5, 8, 13, 30, 100])] = rng.randrange(nthreads)
    return sorted([s, t] for s, t in out.items())


def canon(x):
    return json.dumps(x, sort_keys=True, default=str)
