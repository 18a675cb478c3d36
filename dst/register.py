"""Reference model of one checkpoint path: an atomic register.  A history is linearizable iff some
order of the operations, respecting real-time precedence, explains every value read."""


def linearizable(initial, ops):
    """ops: dicts {kind: 'w'|'r', val, inv, res, must}; res None = never returned; must False = the
    operation failed, so it may or may not have happened.  Reads that failed are left out by the
    caller.  Values are hashable; a read value must be in the register at its point."""
    ops = [o for o in ops]
    n = len(ops)
    inf = float("inf")
    end = [o["res"] if o["res"] is not None else inf for o in ops]
    need = 0
    for i, o in enumerate(ops):
        if o["must"]:
            need |= 1 << i
    seen = set()
    stack = [(0, initial)]
    while stack:
        done, val = stack.pop()
        if (done, val) in seen:
            continue
        seen.add((done, val))
        if done & need == need:
            return True
        # an operation may come next when no pending required operation ended before it began
        bound = min((end[i] for i in range(n) if not done >> i & 1 and need >> i & 1),
                    default=inf)
        for i in range(n):
            if done >> i & 1 or ops[i]["inv"] > bound:
                continue
            # a failed write cannot take effect after it was reported as failed
            if not ops[i]["must"] and any(
                done >> j & 1 and ops[j]["inv"] > end[i] for j in range(n)
            ):
                continue
            if ops[i]["kind"] == "w":
                stack.append((done | 1 << i, ops[i]["val"]))
            elif ops[i]["val"] == val:
                stack.append((done | 1 << i, val))
    return False
