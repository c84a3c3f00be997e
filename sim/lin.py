"""Wing & Gong linearizability check with memoisation.

history: list of (invoke, response, op, result).  apply(state, op, result)
returns the new (hashable) state, or None if that result is impossible in that
state.  An operation that never returned has response None: it may take effect
at any later point, or never.
"""
INF = float('inf')


def linearizable(history, init, apply, limit=400000):
    ops = sorted(history, key=lambda o: o[0])
    n = len(ops)
    must = 0
    for i, o in enumerate(ops):
        if o[1] is not None:
            must |= 1 << i
    seen = set()
    stack = [(0, init)]
    steps = 0
    while stack:
        done, state = stack.pop()
        if done & must == must:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        steps += 1
        if steps > limit:
            return None
        # an operation may be next if it was invoked before every pending one returned
        bound = min((ops[i][1] if ops[i][1] is not None else INF)
                    for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1:
                continue
            if ops[i][0] > bound:
                break
            s2 = apply(state, ops[i][2], ops[i][3])
            if s2 is not None:
                stack.append((done | 1 << i, s2))
    return False
