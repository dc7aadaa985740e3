"""Validity of a boolean combination of comparisons and abstract predicates: unit propagation and case distinction over its
literals, with linear arithmetic on the comparisons."""
import alg
from alg import *


class TooHard(Exception):
    pass


def reduce(c, env):
    """c under the literals fixed so far"""
    if c.t in ("T", "F"):
        return c
    if c.t in ("and", "or"):
        cs = [reduce(x, env) for x in c.a]
        if all(x is y for x, y in zip(cs, c.a)):
            return c
        return And(*cs) if c.t == "and" else Or(*cs)
    k = c.key()
    return env.get(k, c)


def fix(c, env):
    """record that literal c holds"""
    env[c.key()] = T
    env[Not(c).key()] = F
    if c.t == "lt":
        env[Cond("le", c.a[0]).key()] = T
        env[Cond("lt", -c.a[0]).key()] = F
        env[Cond("eq", c.a[0]).key()] = F
        env[Cond("eq", -c.a[0]).key()] = F


def theory(lits, facts):
    """the comparisons are consistent with each other and with the facts about their symbols"""
    items, ids = [], set()
    for c in lits:
        if c.t in ("lt", "le", "eq"):
            items.append((c.a[0], {"lt": "<", "le": "<=", "eq": "="}[c.t]))
            ids |= c.a[0].deep_atoms()
    rest = facts
    while True:
        near = [f for f in rest if f[0] & ids]
        if not near:
            return feas(items)
        rest = [f for f in rest if not f[0] & ids]
        for a, f in near:
            ids |= a
            items.append(f)


def falsify(c, limit=4000):
    """literals under which c is false, or None when c holds always (over the reals, facts included)"""
    n = [0]

    facts = [(f[0].deep_atoms(), f) for f in alg.FACTS]

    def go(cs, env, lits):
        n[0] += 1
        if n[0] > limit:
            raise TooHard()
        env, lits = dict(env), list(lits)
        while True:
            nxt, units = [], []
            for x in cs:
                x = reduce(x, env)
                if x.t == "F":
                    return None
                if x.t == "T":
                    continue
                for y in (x.a if x.t == "and" else (x,)):
                    (nxt if y.t == "or" else units).append(y)
            cs = nxt
            if not units:
                break
            for u in units:
                v = reduce(u, env)
                if v.t == "F":
                    return None
                if v.t != "T":
                    fix(v, env)
                    lits.append(v)
        if not theory(lits, facts):
            return None
        if not cs:
            return lits
        x = min(cs, key=lambda x: len(x.a))
        rest = [y for y in cs if y is not x]
        done = []
        for y in x.a:
            r = go(rest + [y] + [Not(z) for z in done], env, lits)
            if r is not None:
                return r
            done.append(y)
        return None
    return go([Not(c)], {}, [])
