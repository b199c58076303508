"""Terms of the verifier: symbolic integers (I), formulas (B), field polynomials (Poly).

Field values are polynomials with integer coefficients over interned atoms.  An identity that holds
between such polynomials holds in every commutative ring, hence in every prime field.  Nothing here
is probabilistic: equality is syntactic equality of canonical normal forms; `evaluate` (random points)
is only used to look for counterexamples.
"""
from math import gcd

import z3

# ---------------------------------------------------------------- integers
_z3_int = {}


def _zint(name):
    v = _z3_int.get(name)
    if v is None:
        v = _z3_int[name] = z3.Int(name)
    return v


class I:
    """Symbolic integer: const + sum coef*atom.  Atoms: 'name' or ('op', args...)."""
    __slots__ = ('c', 't', '_h', '_z')

    def __init__(self, c, t):
        self.c = c
        self.t = t  # tuple of (atom, coef), sorted by repr
        self._h = None
        self._z = None

    def __eq__(self, o):
        return isinstance(o, I) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __repr__(self):
        s = ' + '.join((str(a) if k == 1 else '%d*%s' % (k, a)) for a, k in self.t)
        return '(%s%s)' % (s, (' + %d' % self.c if self.c > 0 else ' - %d' % -self.c) if self.c else '')


def _akey(p):
    return repr(p[0])


def mk(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=_akey))
    if not t:
        return c
    return I(c, t)


def ivar(name):
    return I(0, ((name, 1),))


def iapp(op, *args):
    return I(0, (((op,) + args, 1),))


def iadd(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    if type(a) is int:
        return I(a + b.c, b.t)
    if type(b) is int:
        return I(a.c + b, a.t)
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + k
    return mk(a.c + b.c, d)


def imulc(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    return I(a.c * k, tuple((x, c * k) for x, c in a.t))


def isub(a, b):
    return iadd(a, imulc(b, -1))


def imul(a, b):
    if type(a) is int:
        return imulc(b, a)
    if type(b) is int:
        return imulc(a, b)
    x, y = sorted((a, b), key=repr)
    return iapp('*', x, y)


def idiv(a, b):
    """Floor division, for non-negative a and positive b."""
    if type(a) is int and type(b) is int:
        return a // b
    if type(b) is int and b > 0 and type(a) is I:
        if all(k % b == 0 for _, k in a.t):
            return I(a.c // b, tuple((x, k // b) for x, k in a.t))
        # exact power-of-two halving
        if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1 and isinstance(a.t[0][0], tuple) and a.t[0][0][0] == 'pow2' and b == 2:
            return iapp('div', a, 2)
    return iapp('div', a, b)


def imod(a, b):
    if type(a) is int and type(b) is int:
        return a % b
    if type(b) is int and b > 0 and type(a) is I:
        if all(k % b == 0 for _, k in a.t):
            return a.c % b
    return iapp('mod', a, b)


def isym(a):
    return type(a) is I


def ipow2(e):
    if type(e) is int:
        return 1 << e if e >= 0 else iapp('pow2', e)
    return iapp('pow2', e)


_pow2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
_ifuncs = {}


def _atom_z3(a):
    if isinstance(a, str):
        return _zint(a)
    op = a[0]
    if op == '*':
        return zi(a[1]) * zi(a[2])
    if op == 'div':
        return zi(a[1]) / zi(a[2])
    if op == 'mod':
        return zi(a[1]) % zi(a[2])
    if op == 'pow2':
        return _pow2(zi(a[1]))
    if op == 'ite':
        return z3.If(zb(a[1]), zi(a[2]), zi(a[3]))
    f = _ifuncs.get((op, len(a) - 1))
    if f is None:
        f = _ifuncs[(op, len(a) - 1)] = z3.Function(op, *([z3.IntSort()] * len(a)))
    return f(*[zi(x) for x in a[1:]])


def zi(a):
    if type(a) is int:
        return z3.IntVal(a)
    if a._z is None:
        s = None
        for x, k in a.t:
            e = _atom_z3(x)
            if k != 1:
                e = e * k
            s = e if s is None else s + e
        if a.c:
            s = s + a.c
        a._z = s
    return a._z


def iatoms(a, acc):
    """Collect all I-subterms' atoms recursively."""
    if type(a) is I:
        for x, _ in a.t:
            acc.add(x)
            if isinstance(x, tuple):
                for y in x[1:]:
                    if type(y) is I:
                        iatoms(y, acc)
                    elif type(y) is B:
                        batoms(y, acc)


def batoms(b, acc):
    if type(b) is B:
        for y in b.a:
            if type(y) is I:
                iatoms(y, acc)
            elif type(y) is B:
                batoms(y, acc)


_RB = {'div': idiv, 'mod': imod, '*': imul, 'pow2': ipow2}


def isubst(a, m):
    if type(a) is not I:
        return a
    hit = False
    r = a.c
    for x, k in a.t:
        if isinstance(x, str):
            if x in m:
                hit = True
                r = iadd(r, imulc(m[x], k))
            else:
                r = iadd(r, I(0, ((x, k),)))
        else:
            args = [isubst(y, m) if type(y) is I else (bsubst(y, m) if type(y) is B else y) for y in x[1:]]
            if any(p is not q for p, q in zip(args, x[1:])):
                hit = True
                if x[0] == 'ite':
                    v = ite(args[0], args[1], args[2])
                elif x[0] in _RB:
                    v = _RB[x[0]](*args)
                else:
                    v = iapp(x[0], *args)
                r = iadd(r, imulc(v, k))
            else:
                r = iadd(r, I(0, ((x, k),)))
    return r if hit else a


# ---------------------------------------------------------------- formulas
class B:
    __slots__ = ('op', 'a', '_z', '_h')

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._z = None
        self._h = None

    def __eq__(self, o):
        return isinstance(o, B) and self.op == o.op and self.a == o.a

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.a))
        return self._h

    def __repr__(self):
        if self.op == 'not':
            return '!%r' % (self.a[0],)
        if self.op == 'var':
            return str(self.a[0])
        return '(' + (' %s ' % self.op).join(repr(x) for x in self.a) + ')'


def zb(b):
    if b is True or b is False:
        return z3.BoolVal(b)
    if b._z is None:
        op, a = b.op, b.a
        if op == '<':
            r = zi(a[0]) < zi(a[1])
        elif op == '<=':
            r = zi(a[0]) <= zi(a[1])
        elif op == '==':
            r = zi(a[0]) == zi(a[1])
        elif op == 'not':
            r = z3.Not(zb(a[0]))
        elif op == 'and':
            r = z3.And(*[zb(x) for x in a])
        elif op == 'or':
            r = z3.Or(*[zb(x) for x in a])
        elif op == 'feq':
            r = z3.Bool('feq!' + str(a[0].key()))
        elif op == 'var':
            r = z3.Bool(a[0])
        else:
            raise ValueError(op)
        b._z = r
    return b._z


def lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    d = isub(a, b)
    if type(d) is int:
        return d < 0
    return B('<', (a, b))


def le(a, b):
    d = isub(a, b)
    if type(d) is int:
        return d <= 0
    return B('<=', (a, b))


def eq(a, b):
    d = isub(a, b)
    if type(d) is int:
        return d == 0
    return B('==', (a, b))


def bnot(b):
    if b is True or b is False:
        return not b
    if b.op == 'not':
        return b.a[0]
    return B('not', (b,))


def band(*bs):
    o = []
    for b in bs:
        if b is False:
            return False
        if b is True:
            continue
        o.append(b)
    if not o:
        return True
    return o[0] if len(o) == 1 else B('and', tuple(o))


def bor(*bs):
    o = []
    for b in bs:
        if b is True:
            return True
        if b is False:
            continue
        o.append(b)
    if not o:
        return False
    return o[0] if len(o) == 1 else B('or', tuple(o))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    return iapp('ite', c, a, b)


def bsubst(b, m):
    if type(b) is not B:
        return b
    op, a = b.op, b.a
    if op in ('<', '<=', '=='):
        x, y = isubst(a[0], m), isubst(a[1], m)
        if x is a[0] and y is a[1]:
            return b
        return {'<': lt, '<=': le, '==': eq}[op](x, y)
    if op == 'not':
        x = bsubst(a[0], m)
        return b if x is a[0] else bnot(x)
    if op in ('and', 'or'):
        n = [bsubst(x, m) for x in a]
        if all(p is q for p, q in zip(n, a)):
            return b
        return (band if op == 'and' else bor)(*n)
    if op == 'feq':
        x = a[0].subst(m)
        return b if x is a[0] else feq0(x)
    return b


# ---------------------------------------------------------------- polynomials
class Unsupported(Exception):
    """A construct outside the verifier's reach (never reported as a violation)."""


class Atom:
    __slots__ = ('id', 'kind', 'data', 'rank')


ATOMS = []
_atom_ix = {}


def atom(kind, data):
    k = (kind, data)
    i = _atom_ix.get(k)
    if i is None:
        a = Atom()
        a.id = i = len(ATOMS)
        a.kind = kind
        a.data = data
        ATOMS.append(a)
        _atom_ix[k] = i
    return i


_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return '%s#%d' % (p, _fresh[0])


class Poly:
    __slots__ = ('t', '_k', '_h')  # dict: monomial (tuple of (atom, exp)) -> int

    def __init__(self, t):
        self.t = t
        self._k = None
        self._h = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __repr__(self):
        return pshow(self)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def subst(self, m):
        """Substitute integer variables inside atoms."""
        hit = False
        amap = {}
        for mon in self.t:
            for a, _ in mon:
                if a not in amap:
                    b = atom_subst(a, m)
                    amap[a] = b
                    if b is not None:
                        hit = True
        if not hit:
            return self
        r = {}
        out = ZERO
        for mon, c in self.t.items():
            if any(amap[a] is not None for a, _ in mon):
                p = Poly({(): c})
                for a, e in mon:
                    q = amap[a] if amap[a] is not None else Poly({((a, 1),): 1})
                    for _ in range(e):
                        p = pmul(p, q)
                out = padd(out, p)
            else:
                r[mon] = r.get(mon, 0) + c
        return padd(out, Poly({k: v for k, v in r.items() if v}))


ZERO = Poly({})
ONE = Poly({(): 1})


def pconst(n):
    return Poly({(): n}) if n else ZERO


def pvar(name):
    return Poly({((atom('var', name), 1),): 1})


def papp(f, *args):
    """Uninterpreted function application; args: I/int/Poly/tuples thereof."""
    if f == 'sum':
        return psum(args[0], BOUND, args[1])
    if f in ('even', 'odd'):
        # the indicator of even (odd) integers
        x = imod(args[0], 2)
        if type(x) is int:
            return ONE if (x == 0) == (f == 'even') else ZERO
    return Poly({((atom('app', (f,) + args), 1),): 1})


def patom(i):
    return Poly({((i, 1),): 1})


# ---------------------------------------------------------------- sums of symbolic length
BOUND = '$s'      # the bound index of every sum atom


class NoSum(Unsupported):
    pass


def k_indices(p, k, acc, inner=False):
    """The integer terms with variable k in the atoms of p."""
    def arg(x):
        if type(x) is I:
            at = set()
            iatoms(x, at)
            if k in at:
                acc.add(x)
        elif type(x) is Poly:
            k_indices(x, k, acc, inner)
        elif type(x) is tuple:
            for y in x:
                arg(y)
    for m in p.t:
        for a, _ in m:
            A = ATOMS[a]
            if A.kind == 'app':
                n = len(acc)
                for x in A.data[1:2] if A.data[0] == 'sum' and k == BOUND else A.data[1:]:
                    arg(x)
                if A.data[0] == 'sum' and len(acc) > n:
                    raise NoSum('sum of sums')
            elif A.kind in ('def', 'inv'):
                k_indices(A.data, k, acc, inner)


def psum(n, k, body):
    """body(0) + ... + body(n-1) for the bound integer variable k, in canonical form: by linearity one
    atom sum(m, g) per product g of k-dependent atoms, where sum(m, g) = g(0) + ... + g(m-1), extended
    to all integers by sum(m+1, g) = sum(m, g) + g(m); k is shifted so that the indices start at k, and
    the constant part of m is written out."""
    out = ZERO
    work = dict(body.t)
    cnt = 0
    while work:
        cnt += 1
        if cnt > 2000:
            raise NoSum('long body')
        mon, c = work.popitem()
        free, dep = [], []
        flat = None
        for a, e in mon:
            ix = set()
            k_indices(Poly({((a, 1),): 1}), k, ix)
            if not ix:
                free.append((a, e))
            else:
                if e == 1 and ATOMS[a].kind == 'def':
                    flat = a
                    break
                dep.append((a, e, ix))
        if flat is not None:
            rest = tuple(x for x in mon if x[0] != flat)
            for m2, c2 in ATOMS[flat].data.t.items():
                x = mmul(rest, m2)
                v = work.get(x, 0) + c * c2
                if v:
                    work[x] = v
                else:
                    work.pop(x, None)
            continue
        if not dep:
            if type(n) is int:
                out = padd(out, Poly({mon: c * n}))
                continue
            raise NoSum('sum of a constant')
        g = Poly({tuple((a, e) for a, e, _ in dep): 1})
        ixs = set()
        for _, _, ix in dep:
            ixs |= ix
        t = sum1(n, k, g, ixs)
        out = padd(out, pmul(Poly({tuple(free): c}), t) if free else pscale(t, c))
    return out


def sum1(n, k, g, ixs):
    co = set()
    offs = []
    for x in ixs:
        c = dict(x.t).get(k)
        rest = mk(x.c, {a: b for a, b in x.t if a != k})
        at = set()
        iatoms(rest, at)
        if c not in (1, -1, 2) or k in at:
            raise NoSum('index %r' % (x,))
        co.add(c)
        offs.append(rest)
    if len(co) != 1:
        raise NoSum('indices of a sum')
    c, = co
    if c == 2:
        off = min(o.c if type(o) is I else o for o in offs) // 2
    else:
        d = {}
        for o in offs:
            key = repr(isub(o, o.c if type(o) is I else o))
            v = o.c if type(o) is I else o
            if key not in d or v < d[key][0]:
                d[key] = (v, o)
        off = d[min(d, key=lambda x: (len(x), x))][1]
    b = ivar(BOUND)
    if c == -1:
        # g(off - k): the sum over k' = off-n+1 .. off
        h = g.subst({k: isub(off, b)})
        return psub(sum_to(iadd(off, 1), h), sum_to(isub(iadd(off, 1), n), h))
    h = g.subst({k: isub(b, off)})
    return psub(sum_to(iadd(n, off), h), sum_to(off, h))


def sum_to(m, h):
    if type(m) is int:
        if not -64 <= m <= 64:
            raise NoSum('long sum')
        base, c = 0, m
    else:
        c = m.c
        if not -64 <= c <= 64:
            raise NoSum('long sum')
        base = isub(m, c)
    r = ZERO if type(base) is int else Poly({((atom('app', ('sum', base, h)), 1),): 1})
    for j in range(c):
        r = padd(r, h.subst({BOUND: iadd(base, j)}))
    for j in range(-c):
        r = psub(r, h.subst({BOUND: isub(base, j + 1)}))
    return r


def padd(a, b):
    if not b.t:
        return a
    if not a.t:
        return b
    if len(a.t) < len(b.t):
        a, b = b, a
    d = dict(a.t)
    for m, c in b.t.items():
        n = d.get(m, 0) + c
        if n:
            d[m] = n
        else:
            del d[m]
    return Poly(d)


def pscale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.t.items()})


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    return padd(a, pscale(b, -1))


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    if len(m) == 1 and len(n) == 1:
        (a, e), (b, f) = m[0], n[0]
        if a == b:
            return ((a, e + f),)
        return (m[0], n[0]) if a < b else (n[0], m[0])
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul_full(a, b):
    d = {}
    for m, c in a.t.items():
        for n, k in b.t.items():
            x = mmul(m, n)
            v = d.get(x, 0) + c * k
            if v:
                d[x] = v
            else:
                del d[x]
    return Poly(d)


def pdef(p):
    """Name a polynomial with more than one term by a definitional atom."""
    if len(p.t) <= 1:
        return p
    g = 0
    for c in p.t.values():
        g = gcd(g, c)
        if g == 1:
            break
    if p.t[max(p.t)] < 0:
        g = -g
    if g != 1:
        p = Poly({m: c // g for m, c in p.t.items()})
    return Poly({((atom('def', p), 1),): g})


EXPAND = [False]  # when set, products are expanded instead of named


def pmul(a, b):
    if a.is_const():
        return pscale(b, a.const())
    if b.is_const():
        return pscale(a, b.const())
    if EXPAND[0]:
        return pmul_full(a, b)
    return pmul_full(pdef(a), pdef(b))


def ppow(a, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r


def pinv(p):
    return Poly({((atom('inv', p), 1),): 1})


def has_def(p):
    for m in p.t:
        for a, _ in m:
            if ATOMS[a].kind == 'def':
                return True
    return False


class TooBig(Exception):
    pass


def expand(p, limit=400000):
    """Unfold all definitional atoms."""
    n = 0
    while True:
        # unfold the definitional atom with the highest id first
        top = -1
        for m in p.t:
            for a, _ in m:
                if a > top and ATOMS[a].kind == 'def':
                    top = a
        if top < 0:
            return p
        q = ATOMS[top].data
        pw = {0: ONE, 1: q}
        out = {}
        for m, c in p.t.items():
            e = 0
            for a, k in m:
                if a == top:
                    e = k
            if not e:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    del out[m]
                continue
            rest = tuple(x for x in m if x[0] != top)
            if e not in pw:
                r = q
                for _ in range(e - 1):
                    r = pmul_full(r, q)
                    if len(r.t) > limit:
                        raise TooBig()
                pw[e] = r
            for m2, c2 in pw[e].t.items():
                x = mmul(rest, m2)
                v = out.get(x, 0) + c * c2
                if v:
                    out[x] = v
                else:
                    del out[x]
            if len(out) > limit:
                raise TooBig()
        p = Poly(out)
        n += 1


def arg_subst(x, m):
    if type(x) is I:
        return isubst(x, m)
    if type(x) is Poly:
        return x.subst(m)
    if type(x) is tuple:
        n = tuple(arg_subst(y, m) for y in x)
        return x if all(p is q for p, q in zip(n, x)) else n
    return x


def atom_subst(a, m):
    """None if unchanged, else the replacing polynomial."""
    A = ATOMS[a]
    if A.kind == 'app':
        if A.data[0] == 'sum' and BOUND in m:
            m2 = {k: v for k, v in m.items() if k != BOUND}
            n = ('sum', arg_subst(A.data[1], m), arg_subst(A.data[2], m2))
        else:
            n = tuple(arg_subst(x, m) for x in A.data)
        if all(p is q for p, q in zip(n, A.data)):
            return None
        return papp(*n)
    if A.kind == 'def':
        q = A.data.subst(m)
        return None if q is A.data else pdef(q)
    if A.kind == 'inv':
        q = A.data.subst(m)
        return None if q is A.data else pinv(q)
    return None


def pmap_atoms(p, f):
    """Replace atoms by polynomials: f(atom id) -> Poly or None. Products expanded."""
    memo = {}
    out = {}
    for m, c in p.t.items():
        q = Poly({(): c})
        for a, e in m:
            r = memo.get(a, 0)
            if r == 0:
                r = memo[a] = f(a)
            if r is None:
                r = Poly({((a, 1),): 1})
            for _ in range(e):
                q = pmul_full(q, r)
        for k, v in q.t.items():
            n = out.get(k, 0) + v
            if n:
                out[k] = n
            else:
                del out[k]
    return Poly(out)


def feq0(p):
    """The formula p == 0 (constants decided for +-1 and 0 only: the characteristic is unknown)."""
    if not p.t:
        return True
    if p.is_const() and abs(p.const()) == 1:
        return False
    # canonical sign
    k = p.key()
    if k[0][1] < 0:
        p = pneg(p)
    return B('feq', (p,))


def int_indices(p, acc=None):
    """All integer index terms in app atoms of p (recursively)."""
    if acc is None:
        acc = set()
    seen = set()

    def arg(x):
        if type(x) is I or type(x) is int:
            acc.add(x)
        elif type(x) is Poly:
            go(x)
        elif type(x) is tuple:
            for y in x:
                arg(y)

    def go(q):
        for m in q.t:
            for a, _ in m:
                if a in seen:
                    continue
                seen.add(a)
                A = ATOMS[a]
                if A.kind == 'app':
                    for x in A.data[1:]:
                        arg(x)
                elif A.kind in ('def', 'inv'):
                    go(A.data)
    go(p)
    return acc


def ashow(a):
    A = ATOMS[a]
    if A.kind == 'var':
        return A.data
    if A.kind == 'app':
        return '%s(%s)' % (A.data[0], ','.join(str(x) for x in A.data[1:]))
    if A.kind == 'def':
        return '{%s}' % (pshow(A.data) if len(A.data.t) < 6 else 'd%d' % a)
    return 'inv(%s)' % pshow(A.data)


def pshow(p, lim=8):
    if not p.t:
        return '0'
    s = []
    for m, c in list(p.t.items())[:lim]:
        x = '*'.join(ashow(a) + ('^%d' % e if e > 1 else '') for a, e in m)
        s.append((str(c) if not x else (x if c == 1 else '%d*%s' % (c, x))))
    if len(p.t) > lim:
        s.append('...[%d terms]' % len(p.t))
    return ' + '.join(s)


def evaluate(p, env, mod, rng):
    """Evaluate at a point; env: atom id -> value (extended with random values on demand)."""
    r = 0
    for m, c in p.t.items():
        v = c
        for a, e in m:
            v = v * pow(eval_atom(a, env, mod, rng), e, mod) % mod
        r += v
    return r % mod


def eval_atom(a, env, mod, rng):
    if a in env:
        return env[a]
    A = ATOMS[a]
    if A.kind == 'def':
        v = evaluate(A.data, env, mod, rng)
    elif A.kind == 'inv':
        x = evaluate(A.data, env, mod, rng)
        v = pow(x, -1, mod) if x else 0
    elif A.kind == 'app':
        h = env.get('@hooks')
        if h is not None and A.data[0] in h:
            v = h[A.data[0]](A.data, env, mod, rng)
            if v is not None:
                env[a] = v
                return v
        # congruence: equal functions at equal argument values
        key = ('app', A.data[0]) + tuple(_ev_arg(x, env, mod, rng) for x in A.data[1:])
        if key not in env:
            env[key] = rng.randrange(mod)
        v = env[key]
    else:
        v = rng.randrange(mod)
    env[a] = v
    return v


def _ev_arg(x, env, mod, rng):
    if type(x) is Poly:
        return ('p', evaluate(x, env, mod, rng))
    if type(x) is tuple:
        return tuple(_ev_arg(y, env, mod, rng) for y in x)
    return x
