"""Field-element equalities: normal forms, rewriting with oriented hypotheses, spec unfolding."""
from engine import *


def find_rule(eng, mon):
    """A rule (lhs monomial, rhs) whose lhs divides mon, or None."""
    rs = eng.rules
    d = dict(mon)
    for a, _ in mon:
        for lhs, rhs in rs.get(a, ()):
            ok = True
            for b, e in lhs:
                if d.get(b, 0) < e:
                    ok = False
                    break
            if ok:
                return lhs, rhs
    return None


def mdiv(mon, lhs):
    d = dict(mon)
    for b, e in lhs:
        d[b] -= e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def reduce_rules(eng, p, limit=200000):
    """Rewrite with the oriented hypotheses until none applies."""
    if not eng.rules:
        return p
    work = dict(p.t)
    out = {}
    n = 0
    while work:
        mon, c = work.popitem()
        r = find_rule(eng, mon)
        if r is None:
            v = out.get(mon, 0) + c
            if v:
                out[mon] = v
            else:
                out.pop(mon, None)
            continue
        lhs, rhs = r
        q = mdiv(mon, lhs)
        for m2, c2 in rhs.t.items():
            m = mmul(q, m2)
            v = work.get(m, 0) + c * c2
            if v:
                work[m] = v
            else:
                work.pop(m, None)
        n += 1
        if n > limit:
            raise TooBig()
    return Poly(out)


def add_rule(eng, lhs, rhs):
    """lhs: monomial; rhs: Poly.  Indexed by the highest atom of lhs."""
    a = max(x for x, _ in lhs)
    eng.rules.setdefault(a, []).append((lhs, rhs))
    eng._nfc = {}
    eng._soft = {}


def nf(eng, p, limit=200000):
    """Expand every definition and reduce by the rules: the canonical form used for equality."""
    if not eng.rules and not has_def(p):
        return p
    c = eng._nfc
    k = p
    r = c.get(k)
    if r is not None:
        return r
    q = reduce_rules(eng, p)
    while True:
        top = -1
        for m in q.t:
            for a, _ in m:
                if a > top and ATOMS[a].kind == 'def':
                    top = a
        if top < 0:
            break
        body = nf(eng, ATOMS[top].data, limit)
        out = {}
        pw = {0: ONE, 1: body}
        for m, co in q.t.items():
            e = 0
            for a, kk in m:
                if a == top:
                    e = kk
                    break
            if not e:
                v = out.get(m, 0) + co
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            rest = tuple(x for x in m if x[0] != top)
            if e not in pw:
                r = body
                for _ in range(e - 1):
                    if len(r.t) * len(body.t) > 4 * limit:
                        raise TooBig()
                    r = reduce_rules(eng, pmul_full(r, body))
                    if len(r.t) > limit:
                        raise TooBig()
                pw[e] = r
            for m2, c2 in pw[e].t.items():
                x = mmul(rest, m2)
                v = out.get(x, 0) + co * c2
                if v:
                    out[x] = v
                else:
                    out.pop(x, None)
            if len(out) > limit:
                raise TooBig()
        q = reduce_rules(eng, Poly(out))
    c[k] = q
    return q


def soft(eng, p, limit=20000):
    """Canonical form that keeps powers of sums opaque: definitions are canonicalised recursively and
    those that occur with exponent 1 only are expanded."""
    c = eng._soft
    r = c.get(p)
    if r is not None:
        return r
    q = p
    for _ in range(100000):
        q = reduce_rules(eng, q)
        # canonicalise the definitions
        mx = {}
        for m in q.t:
            for a, e in m:
                if ATOMS[a].kind == 'def' and e > mx.get(a, 0):
                    mx[a] = e
        sub = {}
        for a, e in mx.items():
            b = soft(eng, ATOMS[a].data, limit)
            if e == 1:
                sub[a] = b
            else:
                d = pdef(b)
                if d.t != {((a, 1),): 1}:
                    sub[a] = d
        if not sub:
            break
        # one atom at a time, highest first
        a = max(sub)
        b = sub[a]
        out = {}
        n = 0
        for m, co in q.t.items():
            e = 0
            for x, k in m:
                if x == a:
                    e = k
                    break
            if not e:
                v = out.get(m, 0) + co
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            rest = tuple(x for x in m if x[0] != a)
            w = b
            if e > 1:
                for _ in range(e - 1):
                    w = pmul_full(w, b)
            for m2, c2 in w.t.items():
                x = mmul(rest, m2)
                v = out.get(x, 0) + co * c2
                if v:
                    out[x] = v
                else:
                    out.pop(x, None)
            if len(out) > limit:
                raise TooBig()
        q = Poly(out)
    c[p] = q
    return q


def inverse(eng, st, x):
    """The inverse of x (known to be non-zero): a fresh atom with the rule inv*x = 1."""
    if eng.pit:
        return pinv(pdef(x))
    y = nf(eng, x)
    if len(y.t) == 1:
        (mon, c), = y.t.items()
        if abs(c) == 1 and len(mon) == 1 and mon[0][1] == 1 and ATOMS[mon[0][0]].kind == 'inv':
            return pscale(ATOMS[mon[0][0]].data, c)
    i = atom('inv', y)
    key = ('inv', i)
    if key not in eng.inv_done:
        eng.inv_done.add(key)
        # orient on a monomial with unit coefficient, preferring the highest atoms
        best = None
        for mon, c in y.t.items():
            if abs(c) == 1 and mon:
                if best is None or mon[::-1] > best[0][::-1]:
                    best = (mon, c)
        if best is None:
            if abs(y.const()) == 1:
                best = ((), y.const())
            else:
                raise Unsupported('inverse without a unit monomial')
        mon, c = best
        lhs = mmul(mon, ((i, 1),))
        rest = Poly({m: k for m, k in y.t.items() if m != mon})
        # c*mon*i + rest*i = 1
        rhs = pscale(psub(ONE, pmul_full(rest, patom(i))), c)
        add_rule(eng, lhs, rhs)
        eng.hyp_inv.append((i, y))
    return patom(i)


# ------------------------------------------------------------------ equality with spec unfolding
def peq(eng, st, p, q, depth=0):
    d = psub(p, q)
    if not d.t:
        return True
    if quick_facts(eng, st, d):
        return True
    d = unify(eng, st, d)
    if not d.t:
        return True
    if eng.spec is not None:
        for _ in range(4):
            e = unfold(eng, st, d)
            if e is d:
                break
            d = unify(eng, st, e)
            if not d.t:
                return True
    if eng.pit or eng.hooks and hooked(eng, d):
        return pit_zero(eng, d)
    try:
        r = soft(eng, d)
        if not r.t:
            return True
        r = unify(eng, st, r)
        if not r.t:
            return True
        r = nf(eng, r, 6000)
    except TooBig:
        if pit_zero(eng, d):
            return True
        eng.toobig = True
        return False
    if not r.t:
        return True
    r2 = unify(eng, st, r)
    if not r2.t:
        return True
    return by_facts(eng, st, d, r2)


def grlex(m):
    return (sum(e for _, e in m), m[::-1])


def fact_rules(hs):
    """Oriented rules lhs -> rhs from hypotheses h = 0 (leading monomial with unit coefficient)."""
    rules = {}

    class R:
        pass
    R.rules = rules
    for h in hs:
        try:
            h = reduce_rules(R, h, 5000)
        except TooBig:
            continue
        if not h.t:
            continue
        mon = max(h.t, key=grlex)
        c = h.t[mon]
        if not mon or abs(c) != 1:
            continue
        rest = Poly({m: k for m, k in h.t.items() if m != mon})
        rules.setdefault(max(x for x, _ in mon), []).append((mon, pscale(rest, -c)))
    return R


def quick_facts(eng, st, d):
    """d = 0 by the field equalities h = 0 of the path, without expanding any definition."""
    if eng.pit:
        return False
    hs = [b.a[0] for b, v in st.known.items() if v is True and type(b) is B and b.op == 'feq']
    if not hs:
        return False
    try:
        R = fact_rules([pdef(h) for h in hs if len(h.t) > 1] + hs)
        if not R.rules:
            return False
        d = reduce_rules(R, d, 2000)
        # what is left is linear: write out the definitions in it
        return not d.t or len(d.t) < 200 and all(len(m) < 2 and all(e == 1 for _, e in m) for m in d.t) and not soft(eng, d).t
    except TooBig:
        return False


def by_facts(eng, st, d, r):
    """Is d = 0 modulo the field equalities of the path?  d: as given, r: its normal form."""
    if eng.pit:
        return False
    hs = [b.a[0] for b, v in st.known.items() if v is True and type(b) is B and b.op == 'feq']
    if not hs:
        return False
    try:
        for lvl in (lambda x: x, lambda x: soft(eng, x), lambda x: nf(eng, x, 3000)):
            R = fact_rules([lvl(h) for h in hs])
            if R.rules and not reduce_rules(R, lvl(d), 20000).t:
                return True
    except TooBig:
        pass
    return False


def hooked(eng, p, seen=None):
    """Does p contain an atom that is defined by evaluation (an entry of an inverse matrix)?"""
    seen = set() if seen is None else seen
    for m in p.t:
        for a, _ in m:
            if a in seen:
                continue
            seen.add(a)
            A = ATOMS[a]
            if A.kind == 'app' and A.data[0] == 'minv':
                return True
            if A.kind in ('def', 'inv') and hooked(eng, A.data, seen):
                return True
    return False


def canon_ix(eng, st, x, seen):
    """Replace an index by a provably equal one that already occurs (or a constant)."""
    if type(x) is int:
        return x
    k = (x, st.pc)
    r = eng.ixc.get(k)
    if r is not None and (not eng.sums or type(r) is int or r in seen and r != x):
        return r
    for y in seen:
        if y == x:
            eng.ixc[k] = y
            return y
    for y in seen:
        if eng.sums:
            if (x, y, st.pc) in eng.ixc:
                continue
            eng.ixc[x, y, st.pc] = True
        if eng.check(st, [bnot(eq(x, y))]) == z3.unsat:
            eng.ixc[k] = y
            return y
    seen.append(x)
    eng.ixc[k] = x
    return x


def unify(eng, st, p):
    """Canonicalise the integer indices of application atoms under the path condition."""
    ix = int_indices(p)
    sym = sorted((x for x in ix if type(x) is I), key=repr)
    if not sym:
        return p
    con = sorted(x for x in ix if type(x) is int)
    seen = [c for c in con if -2 <= c <= 4096][:40]
    m = {}
    for x in sym:
        y = canon_ix(eng, st, x, seen)
        if y is not x and y != x:
            m[x] = y
    if not m:
        return p
    return ix_replace(p, m)


def ix_replace(p, m):
    memo = {}

    def arg(x):
        if type(x) is I:
            return m.get(x, x)
        if type(x) is Poly:
            return go(x)
        if type(x) is tuple:
            return tuple(arg(y) for y in x)
        return x

    def fa(a):
        if a in memo:
            return memo[a]
        A = ATOMS[a]
        r = None
        if A.kind == 'app':
            n = tuple(arg(x) for x in A.data)
            if n != A.data:
                r = papp(*n)
        elif A.kind == 'def':
            q = go(A.data)
            if q != A.data:
                r = pdef(q)
        elif A.kind == 'inv':
            q = go(A.data)
            if q != A.data:
                r = pinv(q)
        memo[a] = r
        return r

    def go(q):
        if all(fa(a) is None for mon in q.t for a, _ in mon):
            return q
        out = ZERO
        for mon, c in q.t.items():
            t = Poly({(): c})
            for a, e in mon:
                r = fa(a)
                b = patom(a) if r is None else r
                for _ in range(e):
                    t = pmul(t, b)
            out = padd(out, t)
        return out
    return go(p)


def unfold(eng, st, p):
    """Unfold spec recurrences X(k+1, i) -> step(k)(X(k, .))[i] where the spec allows it."""
    memo = {}
    spec = eng.spec
    ixs = {}
    rec_ix(p, spec, ixs, set())
    if not ixs:
        return p

    def fa(a):
        if a in memo:
            return memo[a]
        A = ATOMS[a]
        r = None
        if A.kind == 'app':
            r = spec.unfold(eng, st, A.data, ixs)
            if r is None:
                n = tuple(go(x) if type(x) is Poly else x for x in A.data)
                if n != A.data:
                    r = papp(*n)
        elif A.kind == 'def':
            q = go(A.data)
            if q is not A.data:
                r = pdef(q)
        memo[a] = r
        return r

    def go(q):
        if all(fa(a) is None for mon in q.t for a, _ in mon):
            return q
        out = ZERO
        for mon, c in q.t.items():
            t = Poly({(): c})
            for a, e in mon:
                r = fa(a)
                b = patom(a) if r is None else r
                for _ in range(e):
                    t = pmul(t, b)
            out = padd(out, t)
        return out
    return go(p)


def rec_ix(p, spec, ixs, seen):
    for m in p.t:
        for a, _ in m:
            if a in seen:
                continue
            seen.add(a)
            A = ATOMS[a]
            if A.kind == 'app':
                if A.data[0] in spec.recs or A.data[0] in spec.defs:
                    l = ixs.setdefault(A.data[0], [])
                    if A.data[1] not in l:
                        l.append(A.data[1])
                if A.data[0] == 'minv':
                    spec.minv.indices(A.data, spec, ixs)
                for x in A.data[1:]:
                    if type(x) is Poly:
                        rec_ix(x, spec, ixs, seen)
            elif A.kind in ('def', 'inv'):
                rec_ix(A.data, spec, ixs, seen)


# ------------------------------------------------------------------ identity testing
PRIMES = ((1 << 255) - 19, (1 << 521) - 1)


def pit_points(eng):
    if eng.points is None:
        import random
        rng = random.SystemRandom()
        eng.points = [({'@hooks': eng.hooks} if eng.hooks else {}, p, rng) for p in PRIMES]
    return eng.points


def pit_zero(eng, p):
    """Is p identically zero?  Randomised (Schwartz-Zippel) at uniform points modulo two large primes:
    a non-zero polynomial of degree D passes with probability below D / 2^776."""
    eng.pit_n += 1
    for env, mod, rng in pit_points(eng):
        if evaluate(p, env, mod, rng):
            return False
    return True
