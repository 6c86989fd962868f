"""Propositional reasoning about path conditions: every non-boolean subterm is an atom."""
from vg import TRUE, FALSE, AND, OR, NOT, rewrite, mk, subterms

BOOL = ("band", "bor", "not")


def atoms(t, out=None):
    out = {} if out is None else out
    if t.op in BOOL:
        for a in t.a:
            atoms(a, out)
    elif t.op == "ite" and t.w == 1:
        for a in t.a:
            atoms(a, out)
    elif t is not TRUE and t is not FALSE:
        # x<=y is the negation of y<x
        out[t.id] = t
    return out


def canon(t):
    """replace non-strict orders by negated strict ones so that complementary atoms coincide"""
    memo = {}

    def go(x):
        if x.id in memo:
            return memo[x.id]
        if x.op == "not":
            r = NOT(go(x.a[0]))
        elif x.op == "band":
            r = TRUE
            for a in x.a:
                r = AND(r, go(a))
        elif x.op == "bor":
            r = FALSE
            for a in x.a:
                r = OR(r, go(a))
        elif x.op == "ite" and x.w == 1:
            k = go(x.a[0])
            r = OR(AND(k, go(x.a[1])), AND(NOT(k), go(x.a[2])))
        elif x.op == "icmp" and x.a[0] in ("sle", "ule"):
            r = mk("not", (mk("icmp", ({"sle": "slt", "ule": "ult"}[x.a[0]], x.a[2], x.a[1]), 1),), 1)
        else:
            r = x
        memo[x.id] = r
        return r
    return go(t)


def ev(t, env, memo):
    """three-valued evaluation"""
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.id in memo:
        return memo[t.id]
    if t.op == "not":
        r = ev(t.a[0], env, memo)
        r = None if r is None else not r
    elif t.op == "band":
        r = True
        for a in t.a:
            q = ev(a, env, memo)
            if q is False:
                r = False
                break
            if q is None:
                r = None
    elif t.op == "bor":
        r = False
        for a in t.a:
            q = ev(a, env, memo)
            if q is True:
                r = True
                break
            if q is None:
                r = None
    else:
        r = env.get(t.id)
    memo[t.id] = r
    return r


def sat(t, limit=200000):
    """is some assignment of the atoms making t true"""
    t = canon(t)
    budget = [limit]

    def pick(x, env, memo):
        # an undetermined atom that matters
        if x.op == "not":
            return pick(x.a[0], env, memo)
        if x.op in ("band", "bor"):
            for a in x.a:
                if ev(a, env, memo) is None:
                    return pick(a, env, memo)
        return x.id

    def go(env):
        budget[0] -= 1
        if budget[0] < 0:
            return True
        memo = {}
        v = ev(t, env, memo)
        if v is not None:
            return v
        a = pick(t, env, memo)
        for val in (True, False):
            env[a] = val
            if go(env):
                return True
            del env[a]
        return False
    return go({})


def entails(g, k):
    """does g imply k whatever the atoms are"""
    return not sat(AND(g, NOT(k)))


def exclusive(a, b):
    return not sat(AND(a, b))


def equivalent(a, b):
    return entails(a, b) and entails(b, a)
