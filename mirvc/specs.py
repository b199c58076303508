"""Specifications: the mathematical functions the code is checked against."""
from engine import *
from loops import same_shape


def prove0(eng, st, x):
    return x == 0 if type(x) is int else eng.prove(st, eq(x, 0))


class Rec:
    """A vector sequence X(0), X(1), ... given by base and step; X(r) is the list of papp(name, r, i)."""
    def __init__(self, name, t, base, step):
        self.name = name
        self.t = t
        self.base = base      # list of Poly
        self.step = step      # step(eng, st, r, vec) -> vec : X(r+1) from X(r)
        self.memo = {}

    def at(self, r):
        return [papp(self.name, r, i) for i in range(self.t)]


def at_index(eng, st, ixs, name, k, want=None):
    """The index of ixs[name] provably equal to k (want: that index), or None; memoised per unfolding."""
    key = ('@', name, k, want)
    if key in ixs:
        return ixs[key]
    r = None
    if want is not None:
        r = k == want or (type(k) is I or type(want) is I) and eng.prove(st, eq(k, want))
    else:
        for x in ixs.get(name, ()):
            if x == k or (type(x) is I or type(k) is I) and eng.prove(st, eq(x, k)):
                r = x
                break
    ixs[key] = r
    return r


class Spec:
    """Recurrences and trajectories available to invariants."""
    def __init__(self):
        self.recs = {}
        self.defs = {}       # name -> f(eng, st, args, ixs) -> Poly or None
        self.matchers = []   # f(eng, st, v0) -> [(description, f(n) -> value)]
        self.hints = []      # further candidate start indices
        self.traj = []       # (name, kind, f(eng, st, e) -> value, [candidate start indices], direction)

    def add(self, rec):
        self.recs[rec.name] = rec
        self.traj.append((rec.name, lambda e: cseq(rec.at(e)), 1))

    def unfold(self, eng, st, data, ixs):
        rec = self.recs.get(data[0])
        if rec is None:
            f = self.defs.get(data[0])
            return None if f is None else f(eng, st, data[1:], ixs)
        r, i = data[1], data[2]
        if at_index(eng, st, ixs, data[0], r, 0):
            return rec.base[i]
        p = isub(r, 1)
        x = at_index(eng, st, ixs, data[0], p)
        if x is not None:
            key = (x, st.pc)
            if key not in rec.memo:
                rec.memo[key] = rec.step(eng, st, x, rec.at(x))
            return rec.memo[key][i]
        if type(r) is int and r > 0:
            return rec.step(eng, st, p, rec.at(p))[i]
        return None

    def merkle(self, leaf, size, node):
        """L(0, i) is the padded leaf i, L(k+1, i) = node(k, L(k, 2i), L(k, 2i+1))."""
        def L(eng, st, a, ixs):
            k, i = a
            if k == 0 or type(k) is I and eng.prove(st, eq(k, 0)):
                return leaf(ite(lt(i, size), i, isub(size, 1)))
            p = isub(k, 1)
            for x in ixs.get('L', ()):
                if x == p or (type(x) is I or type(p) is I) and eng.prove(st, eq(x, p)):
                    return node(x, papp('L', x, imulc(i, 2)), papp('L', x, iadd(imulc(i, 2), 1)))
            if type(k) is int:
                return node(p, papp('L', p, imulc(i, 2)), papp('L', p, iadd(imulc(i, 2), 1)))
            return None
        self.defs['L'] = L

        def m(eng, st, v0):
            if type(v0) is not Seq or v0.concrete() is not None:
                return []
            e = log2(v0.length())
            if e is None:
                return []
            return [('level(n)', lambda n: Seq((('s', ipow2(isub(e, n)), 'kL', papp('L', n, ivar('kL'))),)), lambda n: le(n, e))]
        self.matchers.append(m)

    def gmimc(self, t, d, rec, rc):
        """The accumulator form of GMiMC: Q(k) is what round k adds (0 before the first round), the
        queue holds the last t-1 of them, acc their sum, and element i still lacks the last i-1."""
        X = rec.name

        def q(eng, st, a, ixs):
            k = a[0]
            if eng.prove(st, lt(k, 0)):
                return ZERO
            if not eng.prove(st, le(0, k)):
                return None
            for x in ixs.get(X, ()):
                if x == k or eng.prove(st, eq(x, k)):
                    return powd(padd(papp(X, x, 0), rc(x)), d)
            if type(k) is int:
                return powd(padd(papp(X, k, 0), rc(k)), d)
            return None
        self.defs['Q'] = q
        Q = lambda k: papp('Q', k)

        def qsum(e, m):
            s = ZERO
            for j in range(m):
                s = padd(s, Q(isub(isub(e, 1), j)))
            return s
        self.traj.append(('queue', lambda e: cseq([Q(isub(isub(e, 1), j)) for j in range(t - 1)]), 1))
        self.traj.append(('acc', lambda e: qsum(e, t - 1), 1))
        self.traj.append(('lazy', lambda e: cseq([psub(papp(X, e, i), qsum(e, i - 1)) for i in range(t)]), 1))

    def match(self, eng, st, v0, lf):
        """Candidate closed forms for a leaf with entry value v0 (generated on demand)."""
        for f in self.matchers:
            for c in f(eng, st, v0):
                try:
                    if eng.proved(st, v0, c[1](0)):
                        yield c
                except (Panic, Unsupported):
                    pass
        ix = set()
        collect_ix(v0, ix)
        cs = [0, 1] + sorted((x for x in ix if type(x) is I), key=repr) + [x for x in ix if type(x) is int and x not in (0, 1)][:4] + self.hints
        for name, f, dirs in self.traj:
            for e in cs:
                try:
                    w = f(e)
                    if w is None or not same_shape(w, v0):
                        continue
                    if not eng.proved(st, v0, w):
                        continue
                except (Panic, Unsupported):
                    continue
                for s in ((1, -1) if dirs == 0 else (dirs,)):
                    yield (('%s(%s%sn)' % (name, e, '+' if s == 1 else '-'), (lambda f, e, s: lambda n: f(iadd(e, imulc(n, s))))(f, e, s)))


def log2(x):
    """e if x is written pow2(e)."""
    if type(x) is I and x.c == 0 and len(x.t) == 1 and isinstance(x.t[0][0], tuple) and x.t[0][0][0] == 'pow2':
        k = x.t[0][1]
        if k > 0 and k & (k - 1) == 0:
            return iadd(x.t[0][0][1], k.bit_length() - 1)
    return None


def collect_ix(v, acc):
    t = type(v)
    if t is Poly:
        int_indices(v, acc)
    elif t is Agg:
        for x in v.f:
            collect_ix(x, acc)
    elif t is Seq:
        for p in v.p:
            if p[0] == 'c':
                for x in p[1]:
                    collect_ix(x, acc)
            else:
                collect_ix(p[3], acc)


# ---------------------------------------------------------------- inverse matrices
def int_vars(v, acc):
    """Names of the integer variables in a polynomial."""
    for x in int_indices(v):
        if type(x) is I:
            a = set()
            iatoms(x, a)
            for y in a:
                if not isinstance(y, str):
                    raise Unsupported('index of a matrix')
                acc.add(y)


class Minv:
    """Contract of mat_inverse: entry (i, j) of the inverse of a registered matrix; the integer
    variables of the matrix are arguments.  Evaluated (at the points of identity testing) by inverting."""
    def __init__(self, eng):
        self.eng = eng
        self.mats = []
        self.ids = {}
        self.cache = {}
        self.inner = {}
        eng.spec.minv = self
        eng.hooks['minv'] = self.value

    def matrix(self, m):
        key = tuple(tuple(r) for r in m)
        k = self.ids.get(key)
        if k is None:
            vs = set()
            for r in key:
                for x in r:
                    int_vars(x, vs)
            k = self.ids[key] = len(self.mats)
            self.mats.append((key, sorted(vs)))
        vs = [ivar(x) for x in self.mats[k][1]]
        n = len(m)
        return [[papp('minv', k, i, j, *vs) for j in range(n)] for i in range(n)]

    def value(self, data, env, mod, rng):
        k, i, j = data[1:4]
        ck = (k, data[4:], mod)
        r = self.cache.get(ck)
        if r is None:
            m, vs = self.mats[k]
            sub = dict(zip(vs, data[4:]))
            a = [[evaluate(x.subst(sub), env, mod, rng) for x in row] for row in m]
            r = self.cache[ck] = invert(a, mod)
        return r[i][j]

    def indices(self, data, spec, ixs):
        """Recurrence indices that occur inside the matrix."""
        k = data[1]
        if k not in self.inner:
            import rewrite
            d = {}
            seen = set()
            for r in self.mats[k][0]:
                for x in r:
                    rewrite.rec_ix(x, spec, d, seen)
            self.inner[k] = d
        sub = dict(zip(self.mats[k][1], data[4:]))
        for n, l in self.inner[k].items():
            for x in l:
                y = isubst(x, sub) if type(x) is I else x
                if y not in ixs.setdefault(n, []):
                    ixs[n].append(y)

    def contract(self, eng, st, args, ctx):
        v = eng.rd(st, args[0].cell, args[0].path)
        c = v.concrete() if type(v) is Seq else None
        rs = [x.concrete() if type(x) is Seq else None for x in c] if c else None
        if not rs or any(x is None or len(x) != len(rs) for x in rs):
            return NotImplemented
        eng.assumed.add('contract of utils::mat_inverse (proved in C10)')
        return cseq([cseq(r) for r in self.matrix([list(x) for x in rs])])


def invert(a, p):
    n = len(a)
    a = [r[:] + [1 if i == j else 0 for j in range(n)] for i, r in enumerate(a)]
    for i in range(n):
        k = next((r for r in range(i, n) if a[r][i]), None)
        if k is None:
            raise Unsupported('singular matrix at a random point')
        a[i], a[k] = a[k], a[i]
        iv = pow(a[i][i], -1, p)
        a[i] = [x * iv % p for x in a[i]]
        for r in range(n):
            f = a[r][i]
            if r != i and f:
                a[r] = [(x - f * y) % p for x, y in zip(a[r], a[i])]
    return [r[n:] for r in a]


def moved_constants(sp, t, hf, rp, rc, Mi):
    """C(rp) = 0, C(k) = rc(hf+k) + (0, the rest of M^-1 C(k+1))."""
    def C(k):
        return [papp('C', k, i) for i in range(t)]

    def cdef(eng, st, a, ixs):
        k, i = a
        if at_index(eng, st, ixs, 'C', k, rp):
            return ZERO
        c = rc(iadd(hf, k), i)
        if i == 0:
            return c
        p = iadd(k, 1)
        if at_index(eng, st, ixs, 'C', p, rp):
            return c
        x = at_index(eng, st, ixs, 'C', p)
        if x is None:
            return None
        y = C(x)
        for l in range(t):
            c = padd(c, pmul(Mi[i][l], y[l]))
        return c
    sp.defs['C'] = cdef
    sp.traj.append(('C', lambda e: cseq(C(e)), 0))
    return C


def poseidon_opt(sp, eng, t, hf, rp, rc, mds, X, minv):
    """The optimised evaluation.  P(0) = 1, P(k+1) = block(1, (P(k) M) without first row and column);
    C(rp) = 0, C(k) = rc(hf+k) + (0, the rest of M^-1 C(k+1)); the state before partial round n is
    P(rp-n) (X(hf+n) + C(n))."""
    def P(k):
        if type(k) is int and k == 0:
            return [[ONE if i == j else ZERO for j in range(t)] for i in range(t)]
        return [[papp('P', k, i, j) if i and j else (ONE if i == j else ZERO) for j in range(t)] for i in range(t)]

    def pdef_(eng, st, a, ixs):
        k, i, j = a
        if at_index(eng, st, ixs, 'P', k, 0):
            return ONE if i == j else ZERO
        p = isub(k, 1)
        x = at_index(eng, st, ixs, 'P', p)
        if x is not None:
            p = x
        elif type(k) is not int:
            if not at_index(eng, st, ixs, 'P', k, 1):
                return None
            p = 0
        q = P(p)
        s = ZERO
        for l in range(t):
            s = padd(s, pmul(q[i][l], mds[l][j]))
        return s
    sp.defs['P'] = pdef_
    C = moved_constants(sp, t, hf, rp, rc, minv.matrix(mds))

    def MM(k):
        q = P(k)
        out = []
        for i in range(t):
            row = []
            for j in range(t):
                s = ZERO
                for l in range(t):
                    s = padd(s, pmul(mds[l][i], q[j][l]))
                row.append(s)
            out.append(row)
        return out

    def at(k):
        return [papp(X, k, i) for i in range(t)]

    def sq(m):
        return cseq([cseq(r) for r in m])
    sp.traj.append(('MM', lambda e: sq(MM(e)), 1))
    sp.traj.append(('PT', lambda e: sq([list(c) for c in zip(*P(e))]), 1))
    sp.traj.append(('Y', lambda e: cseq(matvec(P(isub(rp, e)), [padd(a, b) for a, b in zip(at(iadd(hf, e)), C(e))])), 1))
    sp.hints = [isub(rp, 1)]

    def pval(data, env, mod, rng):
        k, i, j = data[1:]
        if k == 0:
            return 1 if i == j else 0
        return None
    eng.hooks['P'] = pval


# ---------------------------------------------------------------- the permutations
def powd(x, d):
    r = ONE
    for _ in range(d):
        r = pmul(r, x)
    return r


def matvec(m, x):
    out = []
    for row in m:
        s = ZERO
        for a, b in zip(row, x):
            s = padd(s, pmul(a, b))
        out.append(s)
    return out


M4 = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]]


def p2_external(t):
    if t == 2:
        m = [[2, 1], [1, 2]]
    elif t == 3:
        m = [[2, 1, 1], [1, 2, 1], [1, 1, 2]]
    elif t == 4:
        m = M4
    else:
        m = [[M4[i % 4][j % 4] * (2 if i // 4 == j // 4 else 1) for j in range(t)] for i in range(t)]
    return [[pconst(x) for x in r] for r in m]


def p2_internal(t, diag):
    if t == 2:
        m = [[2, 1], [1, 3]]
    elif t == 3:
        m = [[2, 1, 1], [1, 2, 1], [1, 1, 3]]
    else:
        return [[padd(ONE, diag[i]) if i == j else ONE for j in range(t)] for i in range(t)]
    return [[pconst(x) for x in r] for r in m]


def poseidon2(t, d, hf, rp, inp, rc, diag):
    """Rec of the Poseidon2 state after r rounds; rc(r, i)."""
    me = p2_external(t)
    mi = p2_internal(t, diag)

    def step(eng, st, r, x):
        full = eng.decide(st, lt(r, hf)) or not eng.decide(st, lt(r, iadd(hf, rp)))
        if full:
            return matvec(me, [powd(padd(x[i], rc(r, i)), d) for i in range(t)])
        return matvec(mi, [powd(padd(x[0], rc(r, 0)), d)] + x[1:])
    return Rec('X', t, matvec(me, inp), step)


def poseidon(t, d, hf, rp, inp, rc, mds):
    def step(eng, st, r, x):
        full = eng.decide(st, lt(r, hf)) or not eng.decide(st, lt(r, iadd(hf, rp)))
        y = [padd(x[i], rc(r, i)) for i in range(t)]
        if full:
            y = [powd(v, d) for v in y]
        else:
            y = [powd(y[0], d)] + y[1:]
        return matvec(mds, y)
    return Rec('X', t, list(inp), step)


def gmimc_step(t, d, x, c):
    p = powd(padd(x[0], c), d)
    return [x[0]] + [padd(v, p) for v in x[1:]]


def gmimc(t, d, inp, rc):
    """State after r rounds, every round followed by the rotation."""
    def step(eng, st, r, x):
        y = gmimc_step(t, d, x, rc(r))
        return [y[-1]] + y[:-1]
    return Rec('X', t, list(inp), step)


def neptune_sbox(x1, x2, g):
    """Lai-Massey quadratic S-box, alpha = beta = 1."""
    z = psub(x1, x2)
    z2 = pmul(z, z)
    w = padd(psub(psub(z, x2), z2), g)
    w2 = pmul(w, w)
    y1 = padd(padd(padd(pscale(x1, 2), x2), pscale(z2, 3)), w2)
    y2 = padd(padd(padd(x1, pscale(x2, 3)), pscale(z2, 4)), w2)
    return y1, y2


def neptune(t, d, hf, rp, inp, rc, me, mu, gamma):
    """mu: diagonal multipliers of the internal matrix minus one (all-ones matrix plus diag(mu))."""
    mi = [[padd(ONE, mu[i]) if i == j else ONE for j in range(t)] for i in range(t)]

    def step(eng, st, r, x):
        ext = eng.decide(st, lt(r, hf)) or not eng.decide(st, lt(r, iadd(hf, rp)))
        if ext:
            y = []
            for i in range(0, t, 2):
                y += neptune_sbox(x[i], x[i + 1], gamma)
            y = matvec(me, y)
        else:
            y = matvec(mi, [powd(x[0], d)] + x[1:])
        return [padd(y[i], rc(r, i)) for i in range(t)]
    return Rec('X', t, matvec(me, inp), step)
