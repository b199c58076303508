"""Loops.  A loop whose trip count is concrete is executed; a loop whose trip count is symbolic is cut
by an inductive invariant: every location that changes gets a closed form in the ghost iteration count
n (candidate templates), entry (n = 0) and preservation (n -> n+1) are obligations, and the exit is
explored from the invariant alone."""
from engine import *

MAX_ATTEMPTS = 14


def site(st, depth=None):
    fs = st.frames if depth is None else st.frames[:depth + 1]
    return '>'.join('%s:%d' % (f.body.id, f.bb) for f in fs)


def fresh_at(eng, st, kind):
    """A name determined by the program point, the number of visits and the enclosing ghosts."""
    k = (kind, site(st), st.ctr)
    n = st.env.get(k, 0)
    e = dict(st.env)
    e[k] = n + 1
    st.env = e
    key = (k, n)
    r = eng.names.get(key)
    if r is None:
        r = eng.names[key] = '%s#%d' % (kind, len(eng.names))
    return r


def fold(eng, st, depth, header):
    """Write sequences of sums at a loop head as the point of the specified trajectory they equal."""
    for c in sorted(roots(eng, st, depth, header)):
        v = st.mem.get(c)
        if type(v) is not Seq or v.concrete() is not None or not mentions(v, 'sum('):
            continue
        for name, f, _ in eng.spec.traj:
            for e in (0, 1):
                try:
                    w = f(e)
                    if type(w) is Seq and w.concrete() is None and eng.proved(st, v, w):
                        st.mem = dict(st.mem)
                        st.mem[c] = w
                        break
                except (Panic, Unsupported):
                    pass


def handle(eng, st, base, depth, header, blocks):
    outs = []
    if eng.sums and eng.spec is not None and eng.spec.traj:
        fold(eng, st, depth, header)
    work = [(st, 0, None)]
    while work:
        s, it, first = work.pop()
        snap = s.copy()
        np = len(eng.panics)
        s.frames[depth].entered = True
        try:
            backs, exits = eng.run(s, base, (depth, header, blocks))
        except Unsupported:
            if first is None or not eng.sums:
                raise
            # the first iteration was forced; cut before it
            del eng.panics[first[1]:]
            r = symbolic(eng, first[0], base, depth, header, blocks, first[2], False)
            if r is None:
                raise
            outs += r
            continue
        if not backs:
            outs += exits
            continue
        it += 1
        if it > eng.max_unroll:
            raise Unsupported('loop does not terminate within %d iterations' % eng.max_unroll)
        if not exits:
            if len(backs) > 1 and not eng.no_symbolic and not all(field_only(b.pc[len(snap.pc):]) for b in backs):
                if first is not None and eng.sums:
                    keep = eng.panics[first[1]:]
                    del eng.panics[first[1]:]
                    r = symbolic(eng, first[0], base, depth, header, blocks, first[2], False)
                    if r is not None:
                        outs += r
                        continue
                    eng.panics += keep
                saved = eng.panics[np:]
                del eng.panics[np:]
                r = symbolic(eng, snap, base, depth, header, blocks, backs, False)
                if r is None and it >= 3:
                    del eng.panics[np:]
                    r = symbolic(eng, snap, base, depth, header, blocks, backs, True)
                if r is not None:
                    outs += r
                    continue
                del eng.panics[np:]
                eng.panics += saved
                if it >= 3:
                    raise Unsupported('no invariant for a branching loop at %s bb%d' % (snap.frames[depth].body.id, header))
            if len(backs) > 1 and it > 64:
                raise Unsupported('branching loop')
            if it == 1 and len(backs) == 1:
                first = (snap, np, [b.copy() for b in backs])
            elif len(backs) != 1:
                first = None
            work += [(b, it, first) for b in backs]
            continue
        # exits and backs: did an integer condition decide?
        n0 = len(snap.pc)
        if all(field_only(b.pc[n0:]) for b in backs + exits):
            if all(unchanged(eng, snap, b, depth, header) or redrawn(eng, snap, b, depth, header) for b in backs):
                eng.loops_done.append((site(snap), 'retry'))
                outs += exits
                continue
            if it > 12:
                raise Unsupported('data-dependent loop')
            outs += exits
            work += [(b, it, None) for b in backs]
            continue
        if eng.no_symbolic:
            if it > eng.no_symbolic:
                raise Unsupported('symbolic loop in bounded mode')
            outs += exits
            work += [(b, it, None) for b in backs]
            continue
        saved = eng.panics[np:]
        r = None
        for hv in (False, True):
            if first is not None:
                # the first iterations were forced (e.g. by a lower bound); try to cut before them
                keep = eng.panics[first[1]:]
                del eng.panics[first[1]:]
                r = symbolic(eng, first[0], base, depth, header, blocks, first[2], hv)
                if r is not None:
                    break
                eng.panics += keep
            del eng.panics[np:]
            r = symbolic(eng, snap, base, depth, header, blocks, backs, hv)
            if r is not None:
                break
            eng.panics += saved
            if not hv:
                # keep this iteration and cut before the next
                r = peeled(eng, base, depth, header, blocks, backs)
                if r is not None:
                    r = exits + r
                    break
                del eng.panics[np + len(saved):]
        if r is None:
            # peel: keep this iteration, try again from the next
            if it >= 3:
                raise Unsupported('no loop invariant at %s bb%d' % (snap.frames[depth].body.id, header))
            outs += exits
            work += [(b, it, None) for b in backs]
            continue
        outs += r
    return outs


def peeled(eng, base, depth, header, blocks, backs):
    """Cut the loop after the iteration that led to backs."""
    outs = []
    for b in backs:
        s = b.copy()
        snap = s.copy()
        np = len(eng.panics)
        s.frames[depth].entered = True
        bs, es = eng.run(s, base, (depth, header, blocks))
        if not bs:
            outs += es
            continue
        del eng.panics[np:]
        r = symbolic(eng, snap, base, depth, header, blocks, bs, False)
        if r is None:
            return None
        outs += r
    return outs


def field_only(conds):
    for c in conds:
        x = c
        while type(x) is B and x.op == 'not':
            x = x.a[0]
        if type(x) is B and x.op not in ('feq', 'var'):
            return False
    return True


def roots(eng, st, depth, header):
    """Cells that matter at the loop head."""
    fr = st.frames[depth]
    live = fr.body.live_at(header)
    acc = set()
    for f in st.frames[:depth]:
        acc.update(f.cells)
    for l in live:
        acc.add(fr.cells[l])
    # arguments passed in by the verification harness and other cells not owned by this frame
    own = set(fr.cells)
    for f in st.frames:
        own.update(f.cells)
    acc.update(eng.pinned)
    work = [c for c in acc if c in st.mem]
    seen = set(work)
    while work:
        c = work.pop()
        a = set()
        vrefs(st.mem[c], a)
        for x in a:
            if x not in seen and x in st.mem:
                seen.add(x)
                work.append(x)
    return seen


def unchanged(eng, a, b, depth, header):
    for c in roots(eng, a, depth, header):
        if c not in b.mem:
            return False
        if a.mem[c] is not b.mem[c] and a.mem[c] != b.mem[c]:
            return False
    return True


def draw_atom(v):
    if type(v) is Poly and len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            A = ATOMS[m[0][0]]
            if A.kind == 'app' and str(A.data[0]).startswith('rnd'):
                return A.data[0]
    return None


def redrawn(eng, a, b, depth, header):
    """Is b the head state a up to the renaming of random draws that occur nowhere else?"""
    out = []
    cs = roots(eng, a, depth, header)
    for c in cs:
        if c not in b.mem:
            return False
        diff(c, (), a.mem[c], b.mem[c], out)
    olds = [draw_atom(lf.v0) for lf in out]
    news = [draw_atom(lf.v1) for lf in out]
    if None in olds or None in news or len(set(olds)) != len(olds) or len(set(news)) != len(news):
        return False
    if any(type(lf.v0) is not Poly for lf in out):
        return False
    was = repr([a.mem[c] for c in sorted(cs)]) + repr(a.pc)
    now = repr([b.mem[c] for c in sorted(cs)]) + repr(b.pc)
    # each occurs once: in its location, and in nothing that is known
    return all(was.count(o + '(') + was.count(o + ')') <= 1 for o in olds) and all(now.count(n + '(') + now.count(n + ')') <= 1 for n in news)


class Leaf:
    """A changing location and its candidate closed forms."""
    def __init__(self, cell, path, v0, v1):
        self.cell = cell
        self.path = path
        self.v0 = v0
        self.v1 = v1
        self.cands = []
        self.more = None     # generator of further candidates
        self.ci = 0
        self.inv = None      # function: I -> formula that comes with the closed form
        self.val = None      # function: I -> value
        self.desc = ''
        self.at = None       # the state after the iteration

    def key(self):
        return (self.cell, self.path)


def same_shape(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is Seq:
        ca, cb = a.concrete(), b.concrete()
        if (ca is None) != (cb is None):
            return False
        if ca is None:
            return True
        return len(ca) == len(cb) and all(same_shape(x, y) for x, y in zip(ca, cb))
    return True


def is_polyvec(v):
    c = v.concrete() if type(v) is Seq else None
    return c is not None and len(c) > 0 and all(type(x) is Poly for x in c)


def is_polymat(v):
    c = v.concrete() if type(v) is Seq else None
    return c is not None and len(c) > 0 and all(is_polyvec(x) for x in c)


def diff(cell, path, a, b, out):
    if a is b or a == b:
        return
    ta, tb = type(a), type(b)
    if ta is Agg and tb is Agg and a.tag == b.tag and len(a.f) == len(b.f):
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            diff(cell, path + (('f', i),), x, y, out)
        return
    if ta is Seq and tb is Seq:
        ca, cb = a.concrete(), b.concrete()
        if ca is not None and cb is not None and len(ca) == len(cb) and not is_polyvec(a) and not is_polymat(a):
            for i, (x, y) in enumerate(zip(ca, cb)):
                diff(cell, path + (('i', i),), x, y, out)
            return
    if ta is Ref and tb is Ref and a.cell == b.cell and len(a.path) == len(b.path):
        out.append(Leaf(cell, path, a, b))
        return
    out.append(Leaf(cell, path, a, b))


def put(v, path, val):
    if not path:
        return val
    s = path[0]
    if s[0] == 'f':
        f = list(v.f)
        f[s[1]] = put(f[s[1]], path[1:], val)
        return Agg(v.tag, tuple(f))
    c = list(v.concrete())
    c[s[1]] = put(c[s[1]], path[1:], val)
    return cseq(c)


def get(v, path):
    for s in path:
        if s[0] == 'f':
            v = v.f[s[1]]
        else:
            v = v.concrete()[s[1]]
    return v


def shape_hole(v, name, k):
    """A value of the same shape with every leaf an uninterpreted function of k."""
    cnt = [0]

    def go(x):
        if type(x) is Poly:
            cnt[0] += 1
            return papp('%s.%d' % (name, cnt[0]), *(k if type(k) is tuple else (k,)))
        if type(x) in (int, I):
            cnt[0] += 1
            return iapp('%s.%d' % (name, cnt[0]), *(k if type(k) is tuple else (k,)))
        if type(x) is Agg:
            return Agg(x.tag, tuple(go(y) for y in x.f))
        if type(x) is Seq:
            c = x.concrete()
            if c is None:
                if len(x.p) == 0 or x.p[-1][0] != 's':
                    raise Unsupported('hole of symbolic sequence')
                # one piece of the same length; its elements are read through the hole too
                cnt[0] += 1
                kk = 'h!%d!%s' % (cnt[0], name)
                return Seq((('s', x.length(), kk, shape_hole(x.p[-1][3], '%s.%d' % (name, cnt[0]), (k, ivar(kk)))),))
            return cseq(go(y) for y in c)
        return x
    return go(v)


def seq_prefix(a, b):
    """If b = a ++ items (concrete items), return the items."""
    pa, pb = a.p, b.p
    if len(pb) < len(pa):
        return None
    for i, p in enumerate(pa):
        q = pb[i]
        if p == q:
            continue
        if i == len(pa) - 1 and p[0] == 'c' and q[0] == 'c' and q[1][:len(p[1])] == p[1]:
            rest = q[1][len(p[1]):]
            if len(pb) == len(pa):
                return rest
        return None
    if len(pb) == len(pa) + 1 and pb[-1][0] == 'c':
        return pb[-1][1]
    return None


def cands_int(eng, st, lf):
    v0, v1 = lf.v0, lf.v1
    out = []
    d = isub(v1, v0)
    out.append(('%s + %s*n' % (v0, d), lambda n: iadd(v0, imul(d, n)) if type(d) is int else iadd(v0, imul(d, n))))
    p = None
    if type(v0) is I and len(v0.t) == 1 and v0.c == 0 and v0.t[0][1] == 1 and isinstance(v0.t[0][0], tuple) and v0.t[0][0][0] == 'pow2':
        p = v0.t[0][0][1]
    if p is not None:
        out.insert(0, ('pow2(%s - n)' % p, lambda n: ipow2(isub(p, n))))
        out.insert(1, ('pow2(%s + n)' % p, lambda n: ipow2(iadd(p, n))))
    elif v1 == imulc(v0, 2):
        if type(v0) is int and v0 > 0 and v0 & (v0 - 1) == 0:
            e = v0.bit_length() - 1
            out.append(('pow2(%d + n)' % e, lambda n: ipow2(iadd(e, n))))
        else:
            out.append(('%s * pow2(n)' % (v0,), lambda n: imul(v0, ipow2(n))))
    return out


def cands_seq(eng, st, lf, ghost):
    """Closed forms of a sequence leaf."""
    v0, v1 = lf.v0, lf.v1
    if eng.spec is not None:
        yield from eng.spec.match(eng, st, v0, lf)
    items = seq_prefix(v0, v1)
    if items is not None and len(items) == 1:
        yield ('push', None)
    if seq_last(v0, v1) is not None:
        yield ('fill', None)
    if eng.sums:
        yield from learned(eng, lf.at or st, v0, v1)


# ---------------------------------------------------------------- sums and element-wise updates
def sget(eng, st, v, path):
    """The element at an index path; ('*', u) stands for every index, called u."""
    for i in path:
        if type(i) is tuple:
            st.assume(le(0, ivar(i[1])))
            st.assume(lt(ivar(i[1]), v.length()))
            i = ivar(i[1])
        v = eng.seq_get(st, v, i)
    return v


def sset(eng, st, v, path, x):
    if not path:
        return x
    i = path[0]
    if type(i) is tuple:
        y = sget(eng, st, v, path[:1]) if len(path) > 1 else None
        return Seq(norm_pieces((('s', v.length(), i[1], sset(eng, st, y, path[1:], x)),)))
    y = eng.seq_get(st, v, i) if len(path) > 1 else None
    return eng.seq_set(st, v, i, sset(eng, st, y, path[1:], x))


def written(eng, st, a, b, pre=()):
    """Index paths of the elements in which the sequence b differs from a."""
    if type(a) is not Seq or type(b) is not Seq:
        return [pre]
    out = []
    off = 0
    for p in b.p:
        if p[0] == 'c':
            for j, x in enumerate(p[1]):
                i = iadd(off, j)
                y = eng.seq_get(st, a, i)
                if x is not y and x != y:
                    out += written(eng, st, y, x, pre + (i,))
            off = iadd(off, len(p[1]))
        else:
            off = iadd(off, p[1])
    if not out and not pre and a != b and len(a.p) == 1 and len(b.p) == 1 and eng.prove(st, eq(a.length(), b.length())):
        i = ('*', fresh_name('u'))
        return written(eng, st, sget(eng, st, a, (i,)), sget(eng, st, b, (i,)), pre + (i,))
    return out or ([pre] if pre else [])


class Acc:
    """The element at path is its entry value plus a sum over the iterations."""
    desc = 'sum'

    def __init__(self, eng, st, v0, path, name):
        self.eng, self.st, self.v0, self.path = eng, st, v0, path
        self.st = st = st.copy()
        self.x0 = sget(eng, st, v0, path)
        if type(self.x0) is not Poly:
            raise Unsupported('sum of %s' % type(self.x0).__name__)
        self.name = name
        self.delta = None

    def start(self, gname):
        self.g = gname
        self.delta = None

    def value(self):
        return self.delta

    def inv(self, m):
        return True

    def gap(self, m):
        return papp('hole:' + self.name, m, *(ivar(i[1]) for i in self.path if type(i) is tuple))

    def val(self, m):
        d = self.gap(m) if self.delta is None else psum(m, self.g, self.delta)
        return sset(self.eng, self.st.copy(), self.v0, self.path, padd(self.x0, d))

    def learn(self, b, cur, n):
        x = sget(self.eng, b.copy(), cur, self.path)
        d = psub(x, padd(self.x0, self.gap(n)))
        if mentions(d, 'hole:' + self.name):
            return False
        psum(n, self.g, d)
        self.delta = d
        return True


class Rise:
    """In the sequence at path, iteration j writes element start + j."""
    desc = 'element-wise'

    def __init__(self, eng, st, v0, path, start, name):
        self.eng, self.st, self.v0, self.path, self.s0 = eng, st, v0, path, start
        self.name = name
        self.st = st = st.copy()
        w = sget(eng, st, v0, path)
        for inside in (lt, le):      # the piece may be used up already
            off = 0
            for j, p in enumerate(w.p):
                cnt = len(p[1]) if p[0] == 'c' else p[1]
                if p[0] == 's' and eng.prove(st, band(le(off, start), inside(start, iadd(off, cnt)))):
                    self.j, self.off, self.w = j, off, w
                    break
                off = iadd(off, cnt)
            else:
                continue
            break
        else:
            raise Unsupported('element-wise form')
        self.before = isub(start, self.off)
        if type(self.before) is I and eng.prove(st, eq(self.before, 0)):
            self.before = 0
        self.room = isub(self.w.p[self.j][1], self.before)
        self.T = None

    def start(self, gname):
        self.g = gname
        self.kv = 'k!%s' % self.name
        self.T = None

    def value(self):
        return self.T

    def inv(self, m):
        return le(m, self.room)

    def val(self, m):
        p = self.w.p[self.j]
        t = self.T
        if t is None:
            t = shape_hole(vsubst(p[3], {p[2]: 0}), 'hole:' + self.name, ivar(self.kv))
        w = Seq(norm_pieces(self.w.p[:self.j] + (('s', self.before, p[2], p[3]), ('s', m, self.kv, t),
                            ('s', isub(self.room, m), p[2], vsubst(p[3], {p[2]: iadd(ivar(p[2]), iadd(self.before, m))}))) + self.w.p[self.j + 1:]))
        return sset(self.eng, self.st.copy(), self.v0, self.path, w)

    def learn(self, b, cur, n):
        x = sget(self.eng, b.copy(), cur, self.path + (iadd(self.s0, n),))
        if mentions(x, 'hole:' + self.name):
            return False
        self.T = vsubst(x, {self.g: ivar(self.kv)})
        return True


class Fall(Rise):
    """In the sequence at path, iteration j writes element start - j."""
    desc = 'element-wise, downwards'

    def __init__(self, eng, st, v0, path, start, name):
        Rise.__init__(self, eng, st, v0, path, start, name)
        # elements of the piece up to the first one written, and after it
        self.room = iadd(self.before, 1)
        self.after = isub(isub(self.w.p[self.j][1], self.before), 1)

    def val(self, m):
        p = self.w.p[self.j]
        it = isub(isub(m, 1), ivar(self.kv))
        if self.T is None:
            t = shape_hole(vsubst(p[3], {p[2]: 0}), 'hole:' + self.name, it)
        else:
            t = vsubst(self.T, {self.kv: it})
        w = Seq(norm_pieces(self.w.p[:self.j] + (('s', isub(self.room, m), p[2], p[3]), ('s', m, self.kv, t),
                            ('s', self.after, p[2], vsubst(p[3], {p[2]: iadd(ivar(p[2]), self.room)}))) + self.w.p[self.j + 1:]))
        return sset(self.eng, self.st.copy(), self.v0, self.path, w)

    def learn(self, b, cur, n):
        x = sget(self.eng, b.copy(), cur, self.path + (isub(self.s0, n),))
        if mentions(x, 'hole:' + self.name):
            return False
        self.T = vsubst(x, {self.g: ivar(self.kv)})
        return True


class AccAll:
    """Several elements are their entry values plus sums over the iterations."""
    desc = 'sums'

    def __init__(self, eng, st, v0, paths, name):
        self.name = name
        self.acc = []
        self.eng, self.st, self.v0 = eng, st.copy(), v0
        for i, p in enumerate(paths):
            self.acc.append(Acc(eng, st, v0, p, '%s.%d' % (name, i)))

    def start(self, gname):
        for a in self.acc:
            a.start(gname)

    def value(self):
        return tuple(a.delta for a in self.acc)

    def inv(self, m):
        return True

    def val(self, m):
        v = self.v0
        for a in self.acc:
            d = a.gap(m) if a.delta is None else psum(m, a.g, a.delta)
            v = sset(self.eng, self.st.copy(), v, a.path, padd(a.x0, d))
        return v

    def learn(self, b, cur, n):
        return all([a.learn(b, cur, n) for a in self.acc]) and not any(mentions(a.delta, 'hole:' + self.name) for a in self.acc)


class Pairs:
    """Iteration j writes elements 2j and 2j+1."""
    desc = 'pairwise'

    def __init__(self, eng, st, v0, name):
        self.eng, self.v0, self.name = eng, v0, name
        if len(v0.p) != 1 or v0.p[0][0] != 's' or type(v0.p[0][3]) is not Poly:
            raise Unsupported('pairwise form')
        self.T = None

    def start(self, gname):
        self.g = gname
        self.kv = 'k!%s' % self.name
        self.T = None

    def value(self):
        return self.T

    def inv(self, m):
        return le(imulc(m, 2), self.v0.p[0][1])

    def val(self, m):
        p = self.v0.p[0]
        k = ivar(self.kv)
        h = idiv(k, 2)
        t = [papp('hole:%s.%d' % (self.name, i), h) if self.T is None else self.T[i].subst({self.g: h}) for i in (0, 1)]
        m2 = imulc(m, 2)
        return Seq(norm_pieces((('s', m2, self.kv, padd(pmul(papp('even', k), t[0]), pmul(papp('odd', k), t[1]))),
                                ('s', isub(p[1], m2), p[2], vsubst(p[3], {p[2]: iadd(ivar(p[2]), m2)})))))

    def learn(self, b, cur, n):
        x = tuple(sget(self.eng, b.copy(), cur, (iadd(imulc(n, 2), i),)) for i in (0, 1))
        if any(mentions(y, 'hole:' + self.name) for y in x):
            return False
        self.T = x
        return True


def merged(k, par, x, y):
    """x where k has parity par, y elsewhere."""
    if type(x) is Poly and type(y) is Poly:
        return padd(pmul(papp(('even', 'odd')[par], k), x), pmul(papp(('odd', 'even')[par], k), y))
    if type(x) is Seq and type(y) is Seq and len(x.p) == 1 and len(y.p) == 1 and x.p[0][0] == 's' and y.p[0][0] == 's' and x.p[0][1] == y.p[0][1]:
        a, b = x.p[0], y.p[0]
        return Seq(norm_pieces((('s', a[1], a[2], merged(k, par, a[3], vsubst(b[3], {b[2]: ivar(a[2])}))),)))
    raise Unsupported('merge of different shapes')


class Stride(Rise):
    """In the sequence at path, iteration j writes element start + 2j, start 0 or 1."""
    desc = 'every other element'

    def __init__(self, eng, st, v0, path, start, name):
        self.eng, self.v0, self.path, self.s0, self.name = eng, v0, path, start, name
        self.st = st = st.copy()
        self.w = sget(eng, st, v0, path)
        if start not in (0, 1) or type(self.w) is not Seq or len(self.w.p) != 1 or self.w.p[0][0] != 's':
            raise Unsupported('stride')
        self.T = None
        self.g = self.kv = 'k!%s' % name
        self.val(1)

    def inv(self, m):
        return le(imulc(m, 2), self.w.p[0][1])

    def val(self, m):
        p = self.w.p[0]
        k = ivar(self.kv)
        old = vsubst(p[3], {p[2]: k})
        if self.T is None:
            t = shape_hole(vsubst(p[3], {p[2]: 0}), 'hole:' + self.name, idiv(k, 2))
        else:
            t = vsubst(self.T, {self.g: idiv(k, 2)})
        m2 = imulc(m, 2)
        w = Seq(norm_pieces((('s', m2, self.kv, merged(k, self.s0, t, old)),
                             ('s', isub(p[1], m2), p[2], vsubst(p[3], {p[2]: iadd(ivar(p[2]), m2)})))))
        return sset(self.eng, self.st.copy(), self.v0, self.path, w)

    def learn(self, b, cur, n):
        x = sget(self.eng, b.copy(), cur, self.path + (iadd(imulc(n, 2), self.s0),))
        if mentions(x, 'hole:' + self.name):
            return False
        self.T = x
        return True


def learned(eng, st, v0, v1):
    """Closed forms learnt from one symbolic iteration: sums and element-wise updates."""
    try:
        ps = [()] if type(v0) is Poly else written(eng, st.copy(), v0, v1)
    except (NeedFork, Panic):
        return
    if len(ps) == 2:
        forms = [lambda: AccAll(eng, st, v0, ps, fresh_name('acc'))]
        if ps == [(0,), (1,)]:
            forms.append(lambda: Pairs(eng, st, v0, fresh_name('pair')))
        for f in forms:
            try:
                x = f()
            except (NeedFork, Panic, Unsupported):
                continue
            yield ('learned', x)
        return
    if len(ps) != 1:
        return
    p = ps[0]
    forms = [lambda: Acc(eng, st, v0, p, fresh_name('acc'))]
    for d in reversed(range(len(p))):
        if type(p[d]) is tuple:
            continue
        for c in (Rise, Fall, Stride):
            forms.append((lambda c, d: lambda: c(eng, st, v0, p[:d], p[d], fresh_name('rise')))(c, d))
    for f in forms:
        try:
            x = f()
        except (NeedFork, Panic, Unsupported):
            continue
        yield ('learned', x)


def has_cand(lf):
    if lf.ci < len(lf.cands):
        return True
    if lf.more is not None:
        c = next(lf.more, None)
        if c is not None:
            lf.cands.append(c)
            return True
    return False


def seq_last(a, b):
    """If b is a with one element of its last symbolic piece written: (pieces before, number of elements
    up to the written one, piece, element, pieces after)."""
    pa, pb = a.p, b.p
    k = len(pa) - 1
    while k >= 0 and pa[k][0] != 's':
        k -= 1
    if k < 0 or len(pb) < k + 2 or pa[:k] != pb[:k]:
        return None
    p, q, c = pa[k], pb[k], pb[k + 1]
    if q[0] != 's' or c[0] != 'c' or q[2:] != p[2:]:
        return None
    tail = ((('c', c[1][1:]),) if len(c[1]) > 1 else ()) + pb[k + 2:]
    return pa[:k], iadd(q[1], 1), p, c[1][0], tail


def symbolic(eng, head, base, depth, header, blocks, backs, hv=True):
    """Returns the exit states, or None if no invariant was found."""
    np = len(eng.panics)
    r = symbolic1(eng, head, base, depth, header, blocks, backs, hv, False)
    if r is None and len(backs) > 1:
        del eng.panics[np:]
        r = symbolic1(eng, head, base, depth, header, blocks, backs, hv, True)
    return r


def symbolic1(eng, head, base, depth, header, blocks, backs, hv, tails):
    st0 = head.copy()
    gname = fresh_at(eng, st0, 'n@%s' % header)
    env_after = st0.env
    n = ivar(gname)
    tracked = roots(eng, head, depth, header)
    leaves = {}

    def add_leaves(b, base_mem):
        new = []
        for c in sorted(tracked):
            if c not in b.mem:
                return None
            a = base_mem[c]
            o = []
            diff(c, (), a, b.mem[c], o)
            for lf in o:
                # ignore sub-locations of known leaves
                if any(k[0] == lf.cell and (lf.path[:len(k[1])] == k[1] or k[1][:len(lf.path)] == lf.path) for k in leaves):
                    continue
                lf.at = b
                new.append(lf)
        return new

    if tails:
        # iterations after which the loop always ends are followed to the exit, not cut
        keep = [b for b in backs if tail(eng, b, base, depth, header, blocks) is None]
        backs = keep or backs
    for b in backs:
        nl = add_leaves(b, head.mem)
        if nl is None:
            raise Unsupported('loop drops a live cell')
        for lf in nl:
            prepare(eng, head, lf, n, hv)
            leaves[lf.key()] = lf
    fails = None
    for attempt in range(MAX_ATTEMPTS):
        if any(lf.val is None for lf in leaves.values()):
            return None
        try:
            res = try_invariant(eng, head, base, depth, header, blocks, leaves, n, gname, tracked, env_after, tails)
        except Unsupported:
            bad = [k for k, lf in leaves.items() if lf.desc == 'learned']
            if not bad:
                raise
            res = ('fail', bad[:1], [])
        if res[0] == 'ok':
            eng.loops_done.append((site(head), {('%s%s' % (cellname(head, depth, k[0]), ''.join('.%s' % s[1] for s in k[1]))): lf.form.desc if lf.desc == 'learned' else lf.desc for k, lf in leaves.items()}))
            return res[1]
        if res[0] == 'refine':
            continue
        fails = res[1]
        new = res[2]
        progress = False
        for k in fails:
            lf = leaves[k]
            lf.ci += 1
            if has_cand(lf):
                setc(lf, n)
                progress = True
            else:
                if lf.desc != 'havoc' and (hv or type(lf.v0) in (int, I)) and havoc(eng, head, lf, gname):
                    progress = True
                else:
                    lf.val = None
        for lf in new:
            prepare(eng, head, lf, n, hv)
            leaves[lf.key()] = lf
            progress = True
        if not progress:
            return None
        for k, lf in leaves.items():
            # what was learnt with the rejected candidates is forgotten
            if lf.desc in ('push', 'fill', 'learned') and lf.val is not None and k not in fails:
                setc(lf, n)
    return None


def tail(eng, b, base, depth, header, blocks, keep=False):
    """The exits reached from the loop head state b if the loop cannot go round again, else None."""
    s = b.copy()
    np = len(eng.panics)
    s.frames[depth].entered = True
    bs, es = eng.run(s, base, (depth, header, blocks))
    if bs or not keep:
        del eng.panics[np:]
    return None if bs else es


def wraps(b):
    return "('mod'" in repr(b)


def cellname(st, depth, c):
    for f in reversed(st.frames):
        if c in f.cells:
            l = c - f.cells[0]
            nm = f.body.names.get(str(l)) if isinstance(f.body.names, dict) else None
            return '%s' % (nm or '_%d' % l)
    return 'cell%d' % c


def havoc(eng, head, lf, gname):
    v = lf.v0
    if type(v) in (int, I):
        nm = 'hv:%s:%s:%s' % (gname, lf.cell, lf.path)
        lf.val = lambda k: iapp(nm, k)
        lf.inv = None
        lf.inv = None
        lf.desc = 'havoc'
        eng.havoc.append(nm)
        return True
    if type(v) is Poly or is_polyvec(v) or is_polymat(v):
        nm = 'hv:%s:%s:%s' % (gname, lf.cell, lf.path)
        lf.val = lambda k: shape_hole(v, nm, k)
        lf.inv = None
        lf.desc = 'havoc'
        return True
    return False


def prepare(eng, st, lf, n, hv=True):
    v0, v1 = lf.v0, lf.v1
    if type(v0) in (int, I) and type(v1) in (int, I):
        lf.cands = cands_int(eng, st, lf)
    elif type(v0) is Ref and type(v1) is Ref and v0.cell == v1.cell and len(v0.path) == len(v1.path):
        lf.cands = cands_ref(eng, st, lf)
    elif type(v0) is Seq and type(v1) is Seq:
        lf.cands = []
        lf.more = cands_seq(eng, st, lf, n)
    elif type(v0) is Poly and type(v1) is Poly:
        lf.cands = []
        lf.more = eng.spec.match(eng, st, v0, lf) if eng.spec is not None else None
        if eng.sums:
            import itertools
            lf.more = itertools.chain(lf.more or (), learned(eng, lf.at or st, v0, v1))
    elif type(v0) in (bool, B) and type(v1) in (bool, B):
        lf.cands = []
        nm = 'hvb:%s:%s' % (lf.cell, lf.path)
        lf.cands.append(('havoc', lambda k: bnot(eq(iapp(nm, k), 0))))
    else:
        lf.cands = []
    if has_cand(lf):
        setc(lf, n)
    else:
        if not (hv or type(v0) in (int, I)) or not havoc(eng, st, lf, repr(n)):
            lf.val = None


def cands_ref(eng, st, lf):
    v0, v1 = lf.v0, lf.v1
    steps = []
    for a, b in zip(v0.path, v1.path):
        if a[0] != b[0]:
            return []
        if a[0] == 'f':
            if a != b:
                return []
            steps.append(None)
        else:
            steps.append(tuple(isub(y, x) for x, y in zip(a[1:], b[1:])))

    def val(n):
        p = []
        for a, d in zip(v0.path, steps):
            p.append(a if d is None else (a[0],) + tuple(iadd(x, imul(y, n)) for x, y in zip(a[1:], d)))
        return Ref(v0.cell, tuple(p))
    return [('ref', val)]


def setc(lf, n):
    c = lf.cands[lf.ci]
    desc, f = c[0], c[1]
    lf.desc = desc
    lf.hole = False
    lf.inv = c[2] if len(c) > 2 else None
    if desc == 'learned':
        f.start(str(n).strip('()'))
        lf.form = f
        lf.hole = True
        lf.val = f.val
        lf.inv = f.inv
    elif desc == 'push':
        items = seq_prefix(lf.v0, lf.v1)
        x = items[0]
        kv = 'k%s' % abs(hash((lf.key(), str(n)))) if False else 'k!%s!%d' % (str(n).strip('()'), lf.cell)
        hole = shape_hole(x, 'hole:%s:%s:%s' % (str(n).strip('()'), lf.cell, lf.path), ivar(kv))
        lf.tmpl = (kv, hole)
        lf.hole = True

        def val(m):
            return Seq(norm_pieces(lf.v0.p + (('s', m, lf.tmpl[0], lf.tmpl[1]),)))
        lf.val = val
    elif desc == 'fill':
        pre, top, p, x, tail = seq_last(lf.v0, lf.v1)
        kv = 'k!%s!%d' % (str(n).strip('()'), lf.cell)
        hole = shape_hole(x, 'hole:%s:%s:%s' % (str(n).strip('()'), lf.cell, lf.path), ivar(kv))
        lf.tmpl = (kv, hole)      # the element written by iteration kv
        lf.hole = True

        def val(m):
            kk = lf.tmpl[0] + 'r'
            return Seq(norm_pieces(pre + (('s', isub(top, m), p[2], p[3]), ('s', m, kk, vsubst(lf.tmpl[1], {lf.tmpl[0]: isub(isub(m, 1), ivar(kk))}))) + tail))
        lf.val = val
    else:
        lf.val = f


def gen(head, leaves, m):
    """Memory at ghost count m."""
    mem = dict(head.mem)
    for k, lf in leaves.items():
        mem[lf.cell] = put(mem[lf.cell], lf.path, lf.val(m))
    return mem


def vocab_ok(c, gname, head_atoms):
    return True


def int_conds(conds):
    out = []
    for c in conds:
        x = c
        while type(x) is B and x.op == 'not':
            x = x.a[0]
        if type(x) is B and x.op in ('<', '<=', '==', 'and', 'or'):
            out.append(c)
    return out


def try_invariant(eng, head, base, depth, header, blocks, leaves, n, gname, tracked, env_after, tails):
    # entry: templates at 0 give the head state
    hs = head.copy()
    m0 = gen(head, leaves, 0)
    bad = []
    for k, lf in leaves.items():
        if getattr(lf, 'hole', False):
            continue
        if lf.desc == 'havoc':
            if type(lf.v0) in (int, I) and not eng.prove(hs, band(le(0, lf.v0), lt(lf.v0, 1 << 64))):
                bad.append(k)
            continue
        try:
            if not eng.proved(hs, lf.val(0), lf.v0) or lf.inv is not None and not eng.prove(hs, lf.inv(0)):
                bad.append(k)
        except Panic:
            bad.append(k)
    if bad:
        return ('fail', bad, [])
    # the invariant of sequences that must be as long as described
    def start(hist):
        s = head.copy()
        s.mem = gen(head, leaves, n)
        # locations that are dead at the head are forgotten
        fr = s.frames[depth]
        for c in fr.cells:
            if c not in tracked:
                s.mem.pop(c, None)
        s.assume(le(0, n))
        for lf in leaves.values():
            if lf.inv is not None:
                s.assume(lf.inv(n))
        for nm in eng.havoc:
            if gname in nm:
                v = iapp(nm, n)
                s.assume(le(0, v))
                s.assume(lt(v, 1 << 64))
        if hist is not None:
            s.assume(hist)
        s.ctr = head.ctr + (gname,)
        s.env = {}
        s.log = ()
        s.draws = head.draws
        s.frames[depth].entered = True
        return s
    np = len(eng.panics)
    s1 = start(None)
    n0 = len(s1.pc)
    if any(lf.desc == 'havoc' for lf in leaves.values()):
        pass
    backs, exits = eng.run(s1, base, (depth, header, blocks))
    del eng.panics[np:]
    if tails and len(backs) > 1:
        keep = [b for b in backs if tail(eng, b, base, depth, header, blocks) is None]
        cut = len(keep) < len(backs)
        backs = keep
    else:
        cut = False
    # history: n = 0 or the previous iteration went around
    dis = []
    for b in backs:
        dis.append(band(*[bsubst(c, {gname: isub(n, 1)}) for c in int_conds(b.pc[n0:])]))
    hist = None
    some = [d for d in dis if not wraps(d)]
    if len(some) < len(dis):
        # guess that no iteration wraps around; the guess must be preserved
        h = bor(eq(n, 0), *some)
        s2 = start(h)
        m0 = len(s2.pc)
        bs, es = eng.run(s2, base, (depth, header, blocks))
        h1 = bsubst(h, {gname: iadd(n, 1)})
        if all(eng.prove(b, h1) for b in bs):
            hist, n0, backs, exits = h, m0, bs, es
        else:
            del eng.panics[np:]
    if hist is None:
        hist = bor(eq(n, 0), *dis) if dis else eq(n, 0)
        s2 = start(hist)
        n0 = len(s2.pc)
        backs, exits = eng.run(s2, base, (depth, header, blocks))
    if cut:
        keep = []
        for b in backs:
            es = tail(eng, b, base, depth, header, blocks, True)
            if es is None:
                keep.append(b)
            else:
                exits = exits + es
        backs = keep
    # refine push templates
    refined = False
    late = None
    open_ = ['hole:' + lf.form.name for lf in leaves.values() if getattr(lf, 'hole', False) and lf.desc == 'learned']
    for b in backs:
        for k, lf in leaves.items():
            if getattr(lf, 'hole', False):
                cur = get(b.mem[lf.cell], lf.path)
                if lf.desc == 'learned':
                    try:
                        ok = lf.form.learn(b, cur, n)
                    except (NeedFork, Panic, Unsupported):
                        ok = False
                    if not ok:
                        return ('fail', [k], [])
                    if any(mentions(lf.form.value(), x) for x in open_):
                        # depends on a form that is not yet learnt
                        lf.form.start(gname)
                        late = k
                        continue
                    lf.hole = False
                    refined = True
                    continue
                if type(cur) is not Seq:
                    lf.val = None
                    return ('fail', [k], [])
                if lf.desc == 'fill':
                    items = filled(lf.val(n), cur)
                else:
                    items = seq_prefix(lf.val(n), cur)
                if items is None or len(items) != 1:
                    return ('fail', [k], [])
                x = items[0]
                if mentions(x, 'hole:%s' % str(n).strip('()')):
                    return ('fail', [k], [])
                kv = lf.tmpl[0]
                lf.tmpl = (kv, vsubst(x, {gname: ivar(kv)}))
                lf.hole = False
                refined = True
    if refined:
        del eng.panics[np:]
        return ('refine',)
    if late is not None:
        return ('fail', [late], [])
    # preservation
    bad = set()
    new = {}
    nmem = gen(head, leaves, iadd(n, 1))
    cur = gen(head, leaves, n)
    for b in backs:
        for c in sorted(tracked):
            if c not in b.mem:
                raise Unsupported('loop drops a live cell')
            want, have = nmem[c], b.mem[c]
            if (want is have or want == have) and all(lf.inv is None for lf in leaves.values() if lf.cell == c):
                continue
            lfs = [lf for lf in leaves.values() if lf.cell == c]
            for lf in lfs:
                try:
                    h = get(have, lf.path)
                except Exception:
                    raise Unsupported('loop changes the shape of a value')
                if lf.desc == 'havoc':
                    # the shape (and the range of an integer) must be kept
                    if type(h) in (int, I):
                        ok = eng.prove(b, band(le(0, h), lt(h, 1 << 64)))
                    else:
                        ok = same_shape(h, lf.val(0))
                    if not ok:
                        bad.add(lf.key())
                    continue
                if not eng.proved(b, h, lf.val(iadd(n, 1))) or lf.inv is not None and not eng.prove(b, lf.inv(iadd(n, 1))):
                    bad.add(lf.key())
                    eng.trace.append('loop %s: %s fails to be preserved: %r' % (site(head), lf.desc, lf.key()))
            # other locations of the cell must be unchanged
            o = []
            diff(c, (), cur[c], have, o)
            for x in o:
                if any(x.path[:len(lf.path)] == lf.path or lf.path[:len(x.path)] == x.path for lf in lfs):
                    continue
                if eng.proved(b, x.v0, x.v1):
                    continue
                new.setdefault(x.key(), x)
    if bad or new:
        del eng.panics[np:]
        return ('fail', list(bad), list(new.values()))
    if eng.sums and not cut and backs:
        # field elements that are not zero in any completed iteration
        nz = [{c.a[0].a[0] for c in b.pc[n0:] if type(c) is B and c.op == 'not' and c.a[0].op == 'feq'} for b in backs]
        eng.nonzero += [(gname, p) for p in set.intersection(*nz)]
    # exits
    outs = []
    for e in exits:
        outs.append(close(eng, e, head, n, gname, n0, env_after))
    return ('ok', outs)


def filled(a, b):
    """The element written just before the filled tail."""
    if len(b.p) != len(a.p) + 1:
        return None
    for k in range(1, len(b.p) - 1):
        if b.p[k][0] == 'c' and b.p[:k - 1] == a.p[:k - 1] and b.p[k + 1:] == a.p[k:]:
            return b.p[k][1]
    return None


def mentions(v, pre):
    return pre in repr(v)


def lin(c):
    """All (a, b) integer comparisons inside a condition."""
    if type(c) is not B:
        return []
    if c.op in ('<', '<=', '=='):
        return [c.a]
    if c.op in ('not', 'and', 'or'):
        o = []
        for x in c.a:
            o += lin(x)
        return o
    return []


def close(eng, e, head, n, gname, n0, env_after):
    """Leave the loop: replace the ghost by its closed form where it has one."""
    cand = []
    for c in e.pc[n0 - 1:]:
        for a, b in lin(c):
            d = isub(a, b)
            if type(d) is not I:
                continue
            k = dict(d.t).get(gname)
            if k not in (1, -1):
                continue
            rest = mk(d.c, {x: y for x, y in d.t if x != gname})
            sol = imulc(rest, -1) if k == 1 else rest
            for off in (0, 1, -1):
                x = iadd(sol, off)
                if x not in cand:
                    cand.append(x)
    cand.sort(key=lambda x: (type(x) is I, len(repr(x))))
    if 0 not in cand:
        cand.insert(0, 0)
    e.ctr = head.ctr
    e.env = env_after
    for x in cand:
        at = set()
        iatoms(x, at)
        if gname in at:
            continue
        if eng.check(e, [bnot(eq(n, x))]) == z3.unsat:
            m = {gname: x}
            s = e.copy()
            s.pc = ()
            s.known = {}
            for b in e.pc:
                s.assume(bsubst(b, m))
            s.mem = {c: vsubst(v, m) for c, v in e.mem.items()}
            if s.retval is not None:
                s.retval = vsubst(s.retval, m)
            s.draws = tuple(vsubst(d, m) if type(d) is Poly else d for d in s.draws)
            return s
    return e
