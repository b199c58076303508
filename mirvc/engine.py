"""Verification-condition generator over rustc MIR.

Executes the MIR of the crate under verification symbolically, function by function: integers and
field elements are symbolic, loops whose trip count is symbolic are cut by inductive invariants
(entry / preservation obligations), callees with a registered contract are replaced by it.  Integer
obligations go to Z3, field-element obligations to the polynomial normaliser (terms.py).
"""
import json
import sys
import time

import z3

from terms import *
from values import *

sys.setrecursionlimit(100000)


class NeedFork(Exception):
    def __init__(self, b):
        self.b = b


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


class Call:
    """A native asks the engine to call fn value `f` with args."""
    def __init__(self, f, args):
        self.f = f
        self.args = args


class Body:
    __slots__ = ('id', 'j', 'T', 'prog', 'blocks', 'argc', 'locals', 'generics', 'loops', '_live', 'span', 'names', 'kind')

    def __init__(self, j, T, prog):
        self.id = j['id']
        self.j = j
        self.T = T
        self.prog = prog
        self.blocks = j['blocks']
        self.argc = j['argc']
        self.locals = j['locals']
        self.generics = j.get('generics', [])
        self.span = j['span']
        self.names = j['names']
        self.kind = j['kind']
        self.loops = None
        self._live = None

    def succs(self, b):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def find_loops(self):
        if self.loops is not None:
            return self.loops
        n = len(self.blocks)
        # reverse postorder
        seen = set()
        order = []
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        ix = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while ix[x] > ix[y]:
                                    x = idom[x]
                                while ix[y] > ix[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    L = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in L:
                            L.add(x)
                            work.extend(preds[x])
        self.loops = loops
        return loops

    def live_at(self, bb):
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]
            de = [set() for _ in range(n)]

            for b in range(n):
                u, d = use[b], de[b]

                def rd(l):
                    if l not in d:
                        u.add(l)

                def place_r(p):
                    rd(p[0])
                    for e in p[1]:
                        if e[0] == 'i':
                            rd(e[1])

                def place_w(p):
                    if p[1]:
                        place_r(p)
                    else:
                        d.add(p[0])

                def op(o):
                    if o[0] in 'cm':
                        place_r(o[1])

                def rv(r):
                    k = r[0]
                    if k == 'use':
                        op(r[1])
                    elif k == 'repeat':
                        op(r[1])
                    elif k in ('ref', 'reborrow'):
                        place_r(r[2])
                    elif k in ('addr', 'discr'):
                        place_r(r[1])
                    elif k == 'cast':
                        op(r[2])
                    elif k == 'bin':
                        op(r[2])
                        op(r[3])
                    elif k == 'un':
                        op(r[2])
                    elif k == 'agg':
                        for o in r[2]:
                            op(o)
                for s in self.blocks[b]['s']:
                    if s[0] == '=':
                        rv(s[2])
                        place_w(s[1])
                    elif s[0] == 'sd':
                        place_r(s[1])
                t = self.blocks[b]['t']
                if t[0] == 'switch':
                    op(t[1])
                elif t[0] == 'call':
                    op(t[1])
                    for o in t[2]:
                        op(o)
                    place_w(t[3])
                elif t[0] == 'assert':
                    op(t[1])
                elif t[0] == 'return':
                    rd(0)
            live = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for b in range(n - 1, -1, -1):
                    o = set()
                    for s in self.succs(b):
                        o |= live[s]
                    nl = use[b] | (o - de[b])
                    if nl != live[b]:
                        live[b] = nl
                        ch = True
            self._live = live
        return self._live[bb]


class Program:
    def __init__(self, path, name):
        d = json.load(open(path))
        self.name = name
        self.T = d['types']
        self.adts = d['adts']
        self.impls = d['impls']
        self.bodies = {b['id']: Body(b, self.T, self) for b in d['bodies']}
        self.debug = d['debug_assertions']
        self.overflow = d['overflow_checks']
        self.impl_ix = {}
        for im in self.impls:
            st = self.T[im['self']]
            for nm, path in im['items']:
                self.impl_ix.setdefault((im['trait'], nm), []).append((st, path))


class Frame:
    __slots__ = ('body', 'bb', 'si', 'cells', 'dest', 'target', 'tyenv', 'entered', 'keep')

    def copy(self):
        f = Frame()
        f.body = self.body
        f.bb = self.bb
        f.si = self.si
        f.cells = self.cells
        f.dest = self.dest
        f.target = self.target
        f.tyenv = self.tyenv
        f.entered = self.entered
        f.keep = self.keep
        return f


_cell = [0]


def new_cell():
    _cell[0] += 1
    return _cell[0]


class State:
    __slots__ = ('mem', 'frames', 'pc', 'known', 'ctr', 'log', 'draws', 'retval', 'steps', 'env')

    def __init__(self):
        self.mem = {}
        self.frames = []
        self.pc = ()
        self.known = {}
        self.ctr = ()
        self.log = ()
        self.draws = ()
        self.retval = None
        self.steps = 0
        self.env = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.pc = self.pc
        s.known = dict(self.known)
        s.ctr = self.ctr
        s.log = self.log
        s.draws = self.draws
        s.retval = self.retval
        s.env = self.env
        return s

    def assume(self, b):
        if b is True:
            return
        self.pc = self.pc + (b,)
        if type(b) is B:
            self._learn(b, True)

    def _learn(self, b, v):
        if type(b) is not B:
            return
        if b.op == 'not':
            self._learn(b.a[0], not v)
            return
        self.known[b] = v
        if b.op == 'and' and v:
            for x in b.a:
                self._learn(x, True)
        if b.op == 'or' and not v:
            for x in b.a:
                self._learn(x, False)


INTW = {'usize': 64, 'u64': 64, 'u32': 32, 'u16': 16, 'u8': 8, 'u128': 128, 'isize': 64, 'i64': 64, 'i32': 32, 'i16': 16, 'i8': 8, 'i128': 128}


def int_range(name):
    w = INTW[name]
    if name[0] == 'i':
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1


ITER = ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'It')
ITERP = ('std::iter::Iterator', 'std::iter::DoubleEndedIterator', 'std::iter::ExactSizeIterator')


class Engine:
    def __init__(self, progs, natives, models=None, spec=None):
        self.progs = progs  # first: crate under verification
        self.bodies = {}
        self.adts = {}
        for p in progs:
            for k, b in p.bodies.items():
                key = k if p is progs[0] else p.name + '::' + k
                self.bodies[key] = b
            for k, a in p.adts.items():
                self.adts.setdefault(k if p is progs[0] or not a['local'] else p.name + '::' + k, a)
        self.natives = dict(natives)
        self.models = {}
        for p in progs[1:]:
            for k, b in p.bodies.items():
                if '__' in k:
                    self.models[k.replace('__', '::')] = b
        self.contracts = {}
        self.spec = spec
        self.gmem = {}
        self.promoted = {}
        self.statics = {}
        self.panics = []
        self.obl = []
        self.hist = {}
        self.hyps = []
        self.rules = {}
        self.used = set()      # functions of the crate executed
        self.assumed = set()   # external contracts used
        self.solver = z3.Solver()
        self.solver.set('timeout', 3000)
        self.sstack = []
        self.smt_n = 0
        self.smt_t = 0.0
        self.max_states = 1000000
        self.max_unroll = 5000
        self.nstates = 0
        self.opaque_used = set()
        self.loops_done = []
        self.forks = []         # states after a split on an integer condition
        self.forked = set()
        self.havoc = []
        self.deadline = None
        self.cut_hook = None
        self._nfc = {}
        self._soft = {}
        self.inv_done = set()
        self.hyp_inv = []
        self.ixc = {}
        self.toobig = False
        self.names = {}
        self.nobl = 0
        self.pinned = set()
        self.no_symbolic = 0
        self.trace = []
        self.nonzero = []      # (iteration, element that is not zero in any completed iteration)
        self.sums = False      # try sums and element-wise closed forms in loop invariants (symbolic widths)
        self.pit = False       # decide field identities by randomised identity testing
        self.pit_n = 0
        self.hooks = {}        # functions given by evaluation at a point (inverse matrices)
        self.points = None

    # ------------------------------------------------------------ SMT
    def _sync(self, pc):
        st = self.sstack
        i = 0
        while i < len(st) and i < len(pc) and st[i] is pc[i]:
            i += 1
        for _ in range(len(st) - i):
            self.solver.pop()
        del st[i:]
        for b in pc[i:]:
            self.solver.push()
            self.solver.add(zb(b))
            st.append(b)

    def _pow2_axioms(self, fs):
        ats = set()
        for f in fs:
            batoms(f, ats)
        es = [a[1] for a in ats if isinstance(a, tuple) and a[0] == 'pow2']
        mods = [a for a in ats if isinstance(a, tuple) and a[0] == '*']
        out = []
        for e in es:
            p = _p2(e)
            z = zi(e)
            out.append(z3.Implies(z >= 0, p >= 1))
            out.append(z3.Implies(z >= 0, p >= z + 1))
            out.append((p == 1) == (z == 0))
            out.append(z3.Implies(z >= 1, z3.And(p % 2 == 0, p == 2 * _p2(isub(e, 1)))))
            out.append(z3.Implies(z == 1, p == 2))
            out.append(z3.Implies(z >= 0, z3.And(_p2(iadd(e, 1)) == 2 * p)))
        for i in range(len(es)):
            for j in range(i):
                a, b = es[i], es[j]
                za, zb_ = zi(a), zi(b)
                out.append(z3.Implies(z3.And(za >= 0, za < zb_), 2 * _p2(a) <= _p2(b)))
                out.append(z3.Implies(z3.And(zb_ >= 0, zb_ < za), 2 * _p2(b) <= _p2(a)))
                out.append(z3.Implies(za == zb_, _p2(a) == _p2(b)))
        return out

    def check(self, st, extra):
        """z3 result of pc and extra."""
        t0 = time.time()
        self._sync(st.pc)
        self.solver.push()
        for e in extra:
            self.solver.add(zb(e))
        for ax in self._pow2_axioms(list(st.pc) + list(extra)):
            self.solver.add(ax)
        r = self.solver.check()
        self.model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.smt_n += 1
        self.smt_t += time.time() - t0
        return r

    def prove(self, st, b):
        if b is True:
            return True
        if b is False:
            return self.check(st, []) == z3.unsat
        k = st.known.get(b)
        if k is None:
            k = st.known.get(bnot(b))
            if k is not None:
                k = not k
        if k is not None:
            return k
        if b.op == 'feq':
            return False
        if self.check(st, [bnot(b)]) == z3.unsat:
            st.known[b] = True
            return True
        return False

    def decide(self, st, b):
        if b is True or b is False:
            return b
        if b.op == 'not':
            return not self.decide(st, b.a[0])
        k = st.known.get(b)
        if k is not None:
            return k
        if b.op == 'feq':
            r = self.feq_decide(st, b)
            if r is None:
                raise NeedFork(b)
            return r
        if self.check(st, [bnot(b)]) == z3.unsat:
            st.known[b] = True
            return True
        if self.check(st, [b]) == z3.unsat:
            st.known[b] = False
            return False
        raise NeedFork(b)

    def feq_decide(self, st, b):
        p = b.a[0]
        if self.pit:
            import rewrite
            return True if rewrite.pit_zero(self, p) else None
        if self.rules:
            q = self.nf(p)
            r = feq0(q)
            if r is True or r is False:
                return r
        q = expand_small(p)
        if q is not None:
            r = feq0(q)
            if r is True or r is False:
                return r
            # constants: non-zero small integers are treated as possibly zero (unknown characteristic)
        return None

    # ------------------------------------------------------------ memory
    def load(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            v = self.gmem.get(cell)
            if v is None:
                raise Unsupported('read of uninitialised or dead cell')
        return v

    def rd(self, st, cell, path):
        v = self.load(st, cell)
        for s in path:
            v = self.step_in(st, v, s)
        return v

    def step_in(self, st, v, s):
        k = s[0]
        if k == 'f':
            if type(v) is Agg:
                try:
                    return v.f[s[1]]
                except IndexError:
                    raise Unsupported('field %d of %r' % (s[1], v.tag))
            if type(v) is Ptr:
                return v
            if type(v) is Opaque and v.op == 'uninit':
                return v
            raise Unsupported('field of %s' % type(v).__name__)
        if k == 'i':
            return self.seq_get(st, v, s[1])
        if k == 'w':
            return self.seq_slice(st, v, s[1], iadd(s[1], s[2]))
        raise Unsupported('path ' + str(s))

    def wr(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        v = st.mem.get(cell)
        if v is None:
            v = self.gmem.get(cell)
            if v is not None:
                raise Unsupported('write to a static')
            v = Opaque('uninit')
        if len(path) == 1 and path[0][0] == 'i' and type(v) is Seq:
            c = v.concrete()
            if c is None or type(path[0][1]) is not int:
                st.log = st.log + ((cell, (), path[0][1], val),)
        elif path[-1][0] == 'i':
            st.log = st.log + ((cell, path[:-1], path[-1][1], val),)
        st.mem[cell] = self.upd(st, v, path, 0, val)

    def upd(self, st, v, path, i, val):
        if i == len(path):
            return val
        s = path[i]
        k = s[0]
        if k == 'f':
            if type(v) is Opaque and v.op == 'uninit':
                # building an aggregate field by field
                n = s[1] + 1
                f = [Opaque('uninit')] * n
                f[s[1]] = self.upd(st, f[s[1]], path, i + 1, val)
                return Agg(('t',), tuple(f))
            if type(v) is not Agg:
                raise Unsupported('field write to %s' % type(v).__name__)
            f = list(v.f)
            while len(f) <= s[1]:
                f.append(Opaque('uninit'))
            f[s[1]] = self.upd(st, f[s[1]], path, i + 1, val)
            return Agg(v.tag, tuple(f))
        if k == 'i':
            if i + 1 == len(path):
                return self.seq_set(st, v, s[1], val)
            old = self.seq_get(st, v, s[1])
            return self.seq_set(st, v, s[1], self.upd(st, old, path, i + 1, val))
        if k == 'w':
            lo, ln = s[1], s[2]
            hi = iadd(lo, ln)
            mid = self.seq_slice(st, v, lo, hi)
            mid = self.upd(st, mid, path, i + 1, val)
            a = self.seq_slice(st, v, 0, lo)
            b = self.seq_slice(st, v, hi, v.length())
            return Seq(norm_pieces(a.p + mid.p + b.p))
        raise Unsupported('path write')

    # ------------------------------------------------------------ sequences
    def seq_get(self, st, v, idx):
        if type(v) is not Seq:
            raise Unsupported('index of %s' % (type(v).__name__,))
        off = 0
        ps = v.p
        last = len(ps) - 1
        for j, p in enumerate(ps):
            cnt = len(p[1]) if p[0] == 'c' else p[1]
            end = iadd(off, cnt)
            try:
                here = self.decide(st, lt(idx, end))
            except NeedFork:
                if j == last - 1 and p[0] == 's' and ps[last][0] == 's' and self.prove(st, lt(idx, iadd(end, ps[last][1]))):
                    q = ps[last]
                    r = merge(lt(idx, end), vsubst(p[3], {p[2]: isub(idx, off)}), vsubst(q[3], {q[2]: isub(idx, end)}))
                    if r is not None:
                        return r
                raise
            if here:
                loc = isub(idx, off)
                if p[0] == 's':
                    return vsubst(p[3], {p[2]: loc})
                if type(loc) is int:
                    if loc < 0:
                        raise Panic('index out of bounds')
                    return p[1][loc]
                for q in range(len(p[1]) - 1):
                    if self.decide(st, eq(loc, q)):
                        return p[1][q]
                return p[1][-1]
            off = end
        raise Panic('index out of bounds')

    def seq_set(self, st, v, idx, val):
        if type(v) is not Seq:
            raise Unsupported('index write to %s' % type(v).__name__)
        off = 0
        for j, p in enumerate(v.p):
            cnt = len(p[1]) if p[0] == 'c' else p[1]
            end = iadd(off, cnt)
            if self.decide(st, lt(idx, end)):
                loc = isub(idx, off)
                if p[0] == 'c':
                    if type(loc) is not int:
                        for q in range(len(p[1])):
                            if q == len(p[1]) - 1 or self.decide(st, eq(loc, q)):
                                loc = q
                                break
                    items = p[1][:loc] + (val,) + p[1][loc + 1:]
                    return Seq(v.p[:j] + (('c', items),) + v.p[j + 1:])
                a = ('s', loc, p[2], p[3])
                b = ('c', (val,))
                rest = isub(isub(cnt, loc), 1)
                c = ('s', rest, p[2], vsubst(p[3], {p[2]: iadd(ivar(p[2]), iadd(loc, 1))}))
                mid = []
                if not self.zero(st, loc):
                    mid.append(a)
                mid.append(b)
                if not self.zero(st, rest):
                    mid.append(c)
                return Seq(norm_pieces(v.p[:j] + tuple(mid) + v.p[j + 1:]))
            off = end
        raise Panic('index out of bounds')

    def zero(self, st, n):
        if type(n) is int:
            return n == 0
        return self.prove(st, eq(n, 0))

    def seq_slice(self, st, v, lo, hi):
        if type(v) is not Seq:
            raise Unsupported('slice of %s' % type(v).__name__)
        c = v.concrete()
        if c is not None and type(lo) is int and type(hi) is int:
            if lo < 0 or hi > len(c) or lo > hi:
                raise Panic('slice index')
            if lo == 0 and hi == len(c):
                return v
            return cseq(c[lo:hi])
        n = v.length()
        if lo == 0 and hi == n:
            return v
        if not self.decide(st, le(lo, hi)) or not self.decide(st, le(hi, n)):
            raise Panic('slice index')
        out = []
        off = 0
        for p in v.p:
            cnt = len(p[1]) if p[0] == 'c' else p[1]
            end = iadd(off, cnt)
            # overlap of [off,end) with [lo,hi)
            if self.decide(st, le(end, lo)) or self.decide(st, le(hi, off)):
                off = end
                continue
            a = 0 if self.decide(st, le(lo, off)) else isub(lo, off)
            b = cnt if self.decide(st, le(end, hi)) else isub(hi, off)
            if p[0] == 'c':
                if type(a) is not int or type(b) is not int:
                    a = self.concretize(st, a, 0, len(p[1]))
                    b = self.concretize(st, b, 0, len(p[1]))
                out.append(('c', p[1][a:b]))
            else:
                t = p[3] if a == 0 else vsubst(p[3], {p[2]: iadd(ivar(p[2]), a)})
                out.append(('s', isub(b, a), p[2], t))
            off = end
        return Seq(norm_pieces(out))

    def concretize(self, st, x, lo, hi):
        if type(x) is int:
            return x
        for q in range(lo, hi):
            if self.decide(st, eq(x, q)):
                return q
        return hi

    # ------------------------------------------------------------ places and operands
    def place(self, st, fr, pl):
        """(cell, path) of a MIR place."""
        cell = fr.cells[pl[0]]
        path = ()
        for e in pl[1]:
            k = e[0]
            if k == 'd':
                v = self.rd(st, cell, path)
                if type(v) is Ref:
                    cell, path = v.cell, v.path
                elif type(v) is Ptr:
                    cell, path = v.cell, ()
                else:
                    raise Unsupported('deref of %s' % type(v).__name__)
            elif k == 'f':
                path = path + (('f', e[1]),)
            elif k == 'i':
                path = self.join(path, self.load(st, fr.cells[e[1]]))
            elif k == 'ci':
                if e[3]:
                    n = self.rd(st, cell, path).length()
                    path = self.join(path, isub(n, e[1]))
                else:
                    path = self.join(path, e[1])
            elif k == 'ss':
                n = self.rd(st, cell, path).length()
                hi = isub(n, e[2]) if e[3] else e[2]
                path = self.view(path, e[1], isub(hi, e[1]))
            elif k == 'v':
                pass
            else:
                raise Unsupported('projection ' + k)
        return cell, path

    def join(self, path, idx):
        if path and path[-1][0] == 'w':
            return path[:-1] + (('i', iadd(path[-1][1], idx)),)
        return path + (('i', idx),)

    def view(self, path, lo, ln):
        if path and path[-1][0] == 'w':
            return path[:-1] + (('w', iadd(path[-1][1], lo), ln),)
        return path + (('w', lo, ln),)

    def seqlen(self, st, ref):
        """Length of the sequence a reference points to."""
        if type(ref) is Ptr:
            v = self.load(st, ref.cell)
            return v.length() if type(v) is Seq else 1
        if ref.path and ref.path[-1][0] == 'w':
            return ref.path[-1][2]
        v = self.rd(st, ref.cell, ref.path)
        if type(v) is Seq:
            return v.length()
        if type(v) is Opaque:
            return iapp('len', hash_name(v))
        raise Unsupported('length of %s' % type(v).__name__)

    def deref(self, st, v):
        while type(v) is Ref:
            v = self.rd(st, v.cell, v.path)
        return v

    def deref1(self, st, v):
        if type(v) is Ref:
            return self.rd(st, v.cell, v.path)
        if type(v) is Ptr:
            return self.load(st, v.cell)
        return v

    def ty(self, fr, i):
        t = fr.body.T[i]
        if t[0] == 'param' and fr.tyenv:
            r = fr.tyenv.get(t[1])
            if r is not None:
                return r
        return t

    def place_ty(self, fr, pl):
        T = fr.body.T
        t = T[fr.body.locals[pl[0]]]
        for e in pl[1]:
            if e[0] == 'd':
                if t[0] in ('ref', 'ptr'):
                    t = T[t[1]]
                elif t[0] == 'adt' and t[2]:
                    t = T[t[2][0]]
            elif e[0] == 'f':
                t = T[e[2]]
            elif e[0] in ('i', 'ci'):
                t = T[t[1]] if t[0] in ('slice', 'array') else ['other', '']
        return t

    def op_ty(self, fr, o):
        if o[0] in 'cm':
            return self.place_ty(fr, o[1])
        if o[0] == 'k':
            return fr.body.T[o[1]['ty']]
        return ['bool']

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'c' or k == 'm':
            pl = o[1]
            if not pl[1]:
                return self.load(st, fr.cells[pl[0]])
            cell, path = self.place(st, fr, pl)
            return self.rd(st, cell, path)
        if k == 'k':
            return self.const(st, fr, o[1])
        if k == 'rc':
            return o[1]
        raise Unsupported('operand')

    def const(self, st, fr, c):
        k = c['k']
        T = fr.body.T
        t = T[c['ty']]
        if k == 'fn':
            return FnV(t[1], t[2], t[3], fr.body.prog)
        if k == 'int':
            if t[0] == 'bool':
                return bool(c['v'])
            if t[0] == 'int' or t[0] == 'char':
                return c['v']
            if t[0] == 'adt':
                a = self.adts.get(t[1])
                if a and a['kind'] == 'enum':
                    size = c['size']
                    for i, v in enumerate(a['variants']):
                        if int(v[1]) % (1 << (8 * size)) == c['v'] % (1 << (8 * size)) and not v[2]:
                            return Agg(('a', t[1], i), ())
                return Agg(('a', t[1], 0), (c['v'],))
            if t[0] == 'array':
                return cseq([c['v']])
            return c['v']
        if k == 'zst':
            if t[0] == 'tuple':
                return UNIT
            if t[0] == 'adt':
                return Agg(('a', t[1], 0), ())
            if t[0] == 'array':
                return cseq(())
            if t[0] == 'closure':
                return Agg(('c', t[1]), ())
            return UNIT
        if k == 'str':
            return self.static_ref(('str', c['v']), lambda: Opaque('str', c['v']))
        if k in ('bytes',):
            vals = tuple(c['v'])
            return self.static_ref(('bytes', vals), lambda: cseq(vals))
        if k in ('mem', 'indirect'):
            by = c['bytes'][c.get('off', 0):]
            if k == 'mem':
                return self.static_ref(('mem', c['ty'], tuple(by)), lambda: self.decode(fr, T[t[1]], by)[0])
            return self.decode(fr, t, by)[0]
        if k == 'promoted':
            key = '%s::promoted[%d]' % (c['of'], c['i'])
            pk = (fr.body.prog.name, key)
            if pk not in self.promoted:
                b = fr.body.prog.bodies[key]
                s2 = State()
                v = self.run_closed(b, s2)
                self.promoted[pk] = v
            return self.promoted[pk]
        if k == 'uneval':
            p = c['path']
            b = self.bodies.get(p)
            if b is None and c['name']:
                r = self.natives.get('const ' + c['name'])
                if r is not None:
                    return r(self, st, [], self.Ctx(self, st, fr, None, ['adt', '', c['args']], None))
                # associated constant through a trait: look for a local impl
                b = None
            if b is not None:
                pk = ('const', p)
                if pk not in self.promoted:
                    self.promoted[pk] = self.run_closed(b, State())
                return self.promoted[pk]
            raise Unsupported('constant ' + p)
        if k == 'tyconst':
            try:
                return int(c['v'])
            except ValueError:
                r = fr.tyenv.get(c['v']) if fr.tyenv else None
                if isinstance(r, int):
                    return r
                raise Unsupported('const generic ' + c['v'])
        if k == 'static':
            p = c['path']
            return self.static_ref(('static', p), lambda: self.static_init(p))
        raise Unsupported('constant kind ' + k)

    def static_init(self, p):
        b = self.bodies.get(p)
        if b is None:
            return Opaque('static', p)
        try:
            return self.run_closed(b, State())
        except Unsupported:
            return Opaque('static', p)

    def lazy_value(self, st, f):
        """Value of a lazily initialised static: its initialiser run once."""
        if type(f) is not FnV or not f.info['res']:
            raise Unsupported('initialiser of a static')
        p = f.info['res'][0]
        b = self.bodies.get(p)
        if b is None or b.argc:
            raise Unsupported('initialiser ' + str(p))
        self.used.add(b.id)
        return self.static_ref(('lazy', p), lambda: self.run_closed(b, State()))

    def static_ref(self, key, mk):
        if key not in self.statics:
            c = new_cell()
            self.statics[key] = c
            self.gmem[c] = mk()
        return Ref(self.statics[key])

    def decode(self, fr, t, by):
        T = fr.body.T
        if t[0] == 'int':
            n = INTW[t[1]] // 8
            return int.from_bytes(bytes(by[:n]), 'little', signed=t[1][0] == 'i'), by[n:]
        if t[0] == 'bool':
            return bool(by[0]), by[1:]
        if t[0] == 'array':
            o = []
            for _ in range(int(t[2])):
                v, by = self.decode(fr, T[t[1]], by)
                o.append(v)
            return cseq(o), by
        if t[0] == 'tuple' and len({str(T[x]) for x in t[1]}) <= 1:
            o = []
            for x in t[1]:
                v, by = self.decode(fr, T[x], by)
                o.append(v)
            return tup(*o), by
        raise Unsupported('constant data of type ' + str(t[:2]))

    def run_closed(self, body, st):
        """Evaluate a body without arguments (promoted, const, static); its cells become global."""
        self.push(st, body, [], None, None, {}, keep=True)
        outs = self.run(st, 0)
        if len(outs) != 1:
            raise Unsupported('constant evaluation of ' + body.id)
        s = outs[0]
        self.gmem.update(s.mem)
        return s.retval

    # ------------------------------------------------------------ rvalues
    def wrap(self, st, x, tname):
        lo, hi = int_range(tname)
        if type(x) is int:
            if lo <= x <= hi:
                return x
            m = 1 << INTW[tname]
            x %= m
            return x - m if x > hi else x
        if self.decide(st, band(le(lo, x), le(x, hi))):
            return x
        if lo < 0:
            raise Unsupported('signed wrap')
        return imod(x, 1 << INTW[tname])

    def binop(self, st, fr, op, a, b, ta):
        if op.endswith('WithOverflow'):
            o = op[:3]
            r = iadd(a, b) if o == 'Add' else isub(a, b) if o == 'Sub' else imul(a, b)
            lo, hi = int_range(ta[1])
            ov = bor(lt(r, lo), lt(hi, r))
            return tup(r, ov)
        ca, cb = type(a), type(b)
        if ca is bool or ca is B or cb is bool or cb is B:
            if op == 'Eq':
                return bor(band(a, b), band(bnot(a), bnot(b)))
            if op == 'Ne':
                return bnot(bor(band(a, b), band(bnot(a), bnot(b))))
            if op == 'BitAnd':
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            if op == 'BitXor':
                return bnot(bor(band(a, b), band(bnot(a), bnot(b))))
            raise Unsupported('bool ' + op)
        if ca in (Opaque, Ptr, Ref) or cb in (Opaque, Ptr, Ref):
            if a == ADDR or b == ADDR or ca in (Ptr, Ref):
                return ADDR
            return self.opaque_op(op, a, b, ta)
        if ca not in (int, I) or cb not in (int, I):
            raise Unsupported('binop %s on %s' % (op, ca.__name__))
        if op == 'Eq':
            return eq(a, b)
        if op == 'Ne':
            return bnot(eq(a, b))
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if op == 'Cmp':
            o = 'std::cmp::Ordering'
            if self.decide(st, lt(a, b)):
                return Agg(('a', o, 0), ())
            return Agg(('a', o, 1 if self.decide(st, eq(a, b)) else 2), ())
        tn = ta[1] if ta[0] == 'int' else 'usize'
        if op in ('Add', 'AddUnchecked'):
            return self.wrap(st, iadd(a, b), tn)
        if op in ('Sub', 'SubUnchecked'):
            return self.wrap(st, isub(a, b), tn)
        if op in ('Mul', 'MulUnchecked'):
            return self.wrap(st, imul(a, b), tn)
        if op in ('Div', 'Rem') and tn[0] == 'i' and (ca is I or cb is I or a < 0 or b < 0):
            if ca is int and cb is int:
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return q if op == 'Div' else a - q * b
            raise Unsupported('signed division')
        if op == 'Div':
            return self.simp_div(st, a, b)
        if op == 'Rem':
            return imod(a, b)
        if op in ('Shl', 'ShlUnchecked'):
            if ca is int and cb is int:
                return self.wrap(st, a << (b % INTW[tn]), tn)
            if cb is int:
                return self.wrap(st, imulc(a, 1 << (b % INTW[tn])), tn)
            if ca is int:
                if not self.decide(st, lt(b, INTW[tn])):
                    raise Unsupported('oversized shift')
                return self.wrap(st, imul(a, ipow2(b)), tn)
        if op in ('Shr', 'ShrUnchecked'):
            if ca is int and cb is int:
                return a >> (b % INTW[tn])
            if cb is int:
                return self.simp_div(st, a, 1 << (b % INTW[tn]))
        if ca is int and cb is int:
            if op == 'BitAnd':
                return a & b
            if op == 'BitOr':
                return a | b
            if op == 'BitXor':
                return a ^ b
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if type(y) is int and y >= 0 and (y & (y + 1)) == 0:
                    return imod(x, y + 1)
        r = iapp('bit' + op, a, b)
        return r

    def simp_div(self, st, a, b):
        if type(a) is I and b == 2 and len(a.t) == 1 and a.c == 0:
            x, k = a.t[0]
            if k == 1 and isinstance(x, tuple) and x[0] == 'pow2' and self.prove(st, le(1, x[1])):
                return ipow2(isub(x[1], 1))
        return idiv(a, b)

    def opaque_op(self, op, a, b, ta):
        self.opaque_used.add('binop ' + op)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return B('var', ('opq:%s:%s' % (op, hash_name((a, b))),))
        return Opaque('bin' + op, a, b)

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'reborrow':
            cell, path = self.place(st, fr, r[2])
            return Ref(cell, path)
        if k == 'addr':
            cell, path = self.place(st, fr, r[1])
            return Ref(cell, path)
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, fr, r[1], a, b, self.op_ty(fr, r[2]))
        if k == 'agg':
            t = r[1]
            f = tuple(self.operand(st, fr, o) for o in r[2])
            if t[0] == 'array':
                return cseq(f)
            if t[0] == 'tuple':
                return Agg(('t',), f) if f else UNIT
            if t[0] == 'adt':
                p = t[1]
                if fr.body.prog is not self.progs[0] and fr.body.prog.adts.get(p, {}).get('local'):
                    p = fr.body.prog.name + '::' + p
                return Agg(('a', p, t[2]), f)
            if t[0] == 'closure':
                p = t[1]
                if fr.body.prog is not self.progs[0]:
                    p = fr.body.prog.name + '::' + p
                return Agg(('c', p), f)
            raise Unsupported('aggregate')
        if k == 'discr':
            cell, path = self.place(st, fr, r[1])
            v = self.rd(st, cell, path)
            if type(v) is not Agg or v.tag[0] != 'a':
                if type(v) is Opaque:
                    raise Unsupported('discriminant of opaque %r' % (v,))
                raise Unsupported('discriminant of %s' % type(v).__name__)
            a = self.adts.get(v.tag[1])
            if a is None:
                return v.tag[2]
            return int(a['variants'][v.tag[2]][1])
        if k == 'un':
            o = r[1]
            v = self.operand(st, fr, r[2])
            if o == 'Not':
                if type(v) in (bool, B):
                    return bnot(v)
                t = self.op_ty(fr, r[2])
                if type(v) is int:
                    return self.wrap(st, ~v, t[1])
                lo, hi = int_range(t[1])
                return isub(hi, v)
            if o == 'Neg':
                return imulc(v, -1)
            if o == 'PtrMetadata':
                return self.seqlen(st, v)
            raise Unsupported('unary ' + o)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            ck = r[1]
            t = self.ty(fr, r[3])
            if 'IntToInt' in ck:
                if type(v) in (bool, B):
                    if type(v) is bool:
                        return int(v)
                    return ite(v, 1, 0)
                if type(v) is Agg and v.tag[0] == 'a':
                    return int(self.adts[v.tag[1]]['variants'][v.tag[2]][1])
                if type(v) is Opaque:
                    return v
                return self.wrap(st, v, t[1])
            if t[0] == 'int' and type(v) in (Ref, Ptr, Opaque):
                return ADDR
            if t[0] == 'int' and 'Float' in ck and type(v) is float:
                lo, hi = int_range(t[1])
                return max(lo, min(hi, int(v))) if v == v else 0
            if t[0] == 'float':
                if type(v) is int:
                    return float(v)
                return Opaque('float', v)
            return v
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            try:
                n = int(r[2])
            except ValueError:
                n = fr.tyenv.get(r[2]) if fr.tyenv else None
                if not isinstance(n, int):
                    raise Unsupported('array length ' + r[2])
            return cseq((v,) * n)
        raise Unsupported('rvalue ' + k)

    # ------------------------------------------------------------ calls
    class Ctx:
        """Call context handed to natives."""
        __slots__ = ('eng', 'st', 'fr', 'fn', 'ty', 'dest_ty')

        def __init__(self, eng, st, fr, fn, ty, dest_ty):
            self.eng = eng
            self.st = st
            self.fr = fr
            self.fn = fn
            self.ty = ty
            self.dest_ty = dest_ty

    def push(self, st, body, args, dest, target, tyenv, keep=False):
        f = Frame()
        f.body = body
        f.bb = 0
        f.si = 0
        f.dest = dest
        f.target = target
        f.tyenv = tyenv
        f.entered = False
        f.keep = keep
        n = len(body.locals)
        c0 = _cell[0] + 1
        _cell[0] += n
        f.cells = range(c0, c0 + n)
        if len(args) != body.argc:
            raise Unsupported('argument count for ' + body.id)
        for i, a in enumerate(args):
            st.mem[c0 + 1 + i] = a
        st.frames.append(f)
        if len(st.frames) > 200:
            raise Unsupported('recursion too deep')
        if body.prog is self.progs[0]:
            self.used.add(body.id)

    def closure_body(self, cid):
        b = self.bodies.get(cid)
        if b is None:
            raise Unsupported('closure body ' + cid)
        return b

    def do_call(self, st, fr, f, args, dest, target, dest_ty):
        """Returns None when a frame was pushed or the result assigned."""
        # closures
        if type(f) is Agg and f.tag[0] == 'c':
            return self.call_closure(st, f, None, args, dest, target, fr)
        if type(f) is Ref:
            v = self.rd(st, f.cell, f.path)
            if type(v) is Agg and v.tag[0] == 'c':
                return self.call_closure(st, v, f, args, dest, target, fr)
            return self.do_call(st, fr, v, args, dest, target, dest_ty)
        if type(f) is Ptr:
            v = self.load(st, f.cell)
            if type(v) is Agg and v.tag[0] == 'c':
                return self.call_closure(st, v, Ref(f.cell), args, dest, target, fr)
            return self.do_call(st, fr, v, args, dest, target, dest_ty)
        if type(f) is not FnV:
            raise Unsupported('call of %s' % type(f).__name__)
        info = f.info
        if info['ctor']:
            path, vn = info['ctor']
            a = self.adts.get(path)
            vi = [v[0] for v in a['variants']].index(vn) if a and a['kind'] == 'enum' else 0
            return self.ret(st, fr, Agg(('a', path, vi), tuple(args)), dest, target)
        res = info['res']
        own = f.prog is self.progs[0]
        path = res[0] if res else info['path']
        if not own and path.startswith('nat_'):
            n = self.natives.get(path)
            if n is None:
                raise Unsupported('primitive ' + path)
            return self.native(st, fr, n, path, f, args, dest, target, dest_ty)
        if res and res[1]:
            b = f.prog.bodies.get(res[0])
            if b is not None:
                if own:
                    c = self.contracts.get(res[0])
                    if c is not None:
                        ctx = self.Ctx(self, st, fr, f, None, dest_ty)
                        v = c(self, st, args, ctx)
                        if v is not NotImplemented:
                            return self.finish(st, fr, v, dest, target)
                self.push(st, b, args, dest, target, self.mk_env(fr, b, res[2], f.prog))
                return
        names = self.call_names(info)
        # calls to function objects
        if names[0] in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
            t = args[1]
            if type(t) is not Agg:
                raise Unsupported('call args')
            return self.do_call(st, fr, args[0], list(t.f), dest, target, dest_ty)
        if info['trait'] and args:
            r = self.dyn_impl(st, info, args)
            if r is not None:
                b, args = r
                c = self.contracts.get(b.id) if b.prog is self.progs[0] else None
                if c is not None:
                    v = c(self, st, args, self.Ctx(self, st, fr, f, None, dest_ty))
                    if v is not NotImplemented:
                        return self.finish(st, fr, v, dest, target)
                self.push(st, b, args, dest, target, {})
                return
        for nm in names:
            n = self.natives.get(nm)
            if n is not None:
                if self.native(st, fr, n, nm, f, args, dest, target, dest_ty) is not NotImplemented:
                    return
            b = self.models.get(nm)
            if b is not None:
                self.assumed.add(nm)
                self.push(st, b, args, dest, target, {})
                return
        raise Unsupported('external function %s' % path)

    def native(self, st, fr, n, nm, f, args, dest, target, dest_ty):
        v = n(self, st, args, self.Ctx(self, st, fr, f, None, dest_ty))
        if v is NotImplemented:
            return v
        if not nm.startswith('nat_'):
            self.assumed.add(nm)
        self.finish(st, fr, v, dest, target)

    def models_fn(self, name):
        return self.progs[1].bodies[name]

    def finish(self, st, fr, v, dest, target):
        if isinstance(v, Call):
            if isinstance(v.f, Body):
                self.push(st, v.f, v.args, dest, target, {})
                return
            return self.do_call(st, fr, v.f, v.args, dest, target, None)
        return self.ret(st, fr, v, dest, target)

    def mk_env(self, fr, body, args, prog):
        if not body.generics or not args:
            return {}
        env = {}
        for g, a in zip(body.generics, args):
            if isinstance(a, str):
                s = a[6:]
                try:
                    env[g] = int(s)
                except ValueError:
                    if fr is not None and fr.tyenv and s in fr.tyenv:
                        env[g] = fr.tyenv[s]
            else:
                t = prog.T[a]
                if t[0] == 'param':
                    t = (fr.tyenv or {}).get(t[1], t) if fr is not None else t
                env[g] = t
        return env

    def dyn_impl(self, st, info, args):
        """(body, args) implementing the trait method for the run-time receiver, or None."""
        v = args[0]
        r0 = None
        if info['trait'].split('::')[-1] == 'Clone' and type(v) is Ref:
            w = self.rd(st, v.cell, v.path)
            if type(w) is Ref or type(w) is Ptr and w.kind != 'box':
                return None     # a clone of a reference or a shared pointer shares
        while type(v) in (Ref, Ptr):
            r0 = v if type(v) is Ref else Ref(v.cell)
            if type(v) is Ref and v.path and v.path[-1][0] == 'w':
                return None
            v = self.rd(st, r0.cell, r0.path)
        if type(v) is not Agg or v.tag[0] != 'a':
            return None
        tr, nm = info['trait'], info['name']
        short = tr.split('::')[-1]
        for p in self.progs:
            path = v.tag[1]
            keys = [(tr, nm)]
            if short in ITER:
                keys = [('It', nm)] if p is not self.progs[0] else [(t, nm) for t in ITERP]
            if p is not self.progs[0] and path.startswith(p.name + '::'):
                path = path[len(p.name) + 2:]
            for k in keys:
                for stt, item in p.impl_ix.get(k, []):
                    if stt[0] == 'adt' and stt[1] == path and item in p.bodies:
                        b = p.bodies[item]
                        a = list(args)
                        if type(args[0]) in (Ref, Ptr):
                            lt = b.T[b.locals[1]]
                            a[0] = r0 if lt[0] == 'ref' else v
                        return b, a
        return None

    def call_names(self, info):
        out = []
        if info['trait']:
            out.append(info['trait'].split('::')[-1] + '::' + info['name'])
        p = (info['res'][0] if info['res'] else info['path'])
        for q in (info['path'], p):
            n = norm_path(q)
            if n not in out:
                out.append(n)
        return out

    def call_closure(self, st, clo, ref, args, dest, target, fr):
        b = self.closure_body(clo.tag[1])
        t1 = b.T[b.locals[1]] if b.argc >= 1 else None
        if t1 is not None and t1[0] == 'ref':
            if ref is None:
                c = new_cell()
                st.mem[c] = clo
                ref = Ref(c)
            env = ref
        else:
            env = clo
        if b.argc != len(args) + 1:
            raise Unsupported('closure arity')
        self.push(st, b, [env] + list(args), dest, target, fr.tyenv if fr is not None else {})

    def ret(self, st, fr, v, dest, target):
        if target is None:
            raise Panic('diverging call returned')
        if v is None:
            v = UNIT
        self.assign(st, fr, dest, v)
        fr.bb = target
        fr.si = 0
        fr.entered = False

    def assign(self, st, fr, pl, v):
        if not pl[1]:
            st.mem[fr.cells[pl[0]]] = v
            return
        cell, path = self.place(st, fr, pl)
        self.wr(st, cell, path, v)

    # ------------------------------------------------------------ execution
    def run(self, st, base, loop=None):
        """Run to completion (or to the loop boundary). Returns list of states, or (backs, exits)."""
        work = [st]
        outs = []
        backs = []
        exits = []
        while work:
            s = work.pop()
            while True:
                r = self.advance(s, base, loop)
                if r is None:
                    break
                kind = r[0]
                if kind == 'ret':
                    (exits if loop else outs).append(s)
                    break
                if kind == 'back':
                    backs.append(s)
                    break
                if kind == 'exit':
                    exits.append(s)
                    break
                if kind == 'fork':
                    self.nstates += len(r[1])
                    if self.nstates > self.max_states:
                        raise Unsupported('too many paths')
                    work.extend(reversed(r[1]))
                    break
                if kind == 'dead':
                    break
                raise AssertionError(kind)
        if loop:
            return backs, exits
        return outs

    def advance(self, st, base, loop):
        while True:
            if len(st.frames) <= base:
                return ('ret',)
            d = len(st.frames) - 1
            fr = st.frames[-1]
            if not fr.entered:
                if loop is not None:
                    if d < loop[0]:
                        return ('exit',)
                    if d == loop[0]:
                        if fr.bb == loop[1]:
                            return ('back',)
                        if fr.bb not in loop[2]:
                            return ('exit',)
                lp = fr.body.find_loops().get(fr.bb)
                if lp is not None:
                    rs = self.handle_loop(st, base, d, fr.bb, lp)
                    return ('fork', rs)
                fr.entered = True
            try:
                r = self.block(st, fr, base)
                if r is not None:
                    return r
            except NeedFork as e:
                a = st.copy()
                b = st.copy()
                a.assume(e.b)
                b.assume(bnot(e.b))
                if e.b.op != 'feq' and e.b not in self.forked and len(self.forked) < 200:
                    self.forked.add(e.b)
                    self.forks += [a.copy(), b.copy()]
                if e.b.op == 'feq' and d > base and (loop is None or d > loop[0]) and not self.pit:
                    # run both branches to the return of this function and join them when they agree
                    n = len(self.inv_done)
                    outs = self.run(a, d) + self.run(b, d)
                    if len(outs) > 1 and n == len(self.inv_done) and self.agree(st, outs):
                        m = outs[-1]
                        m.pc = st.pc
                        m.known = dict(st.known)
                        outs = [m]
                    if outs and fr.target is None:
                        raise Unsupported('diverging call returned')
                    for o in outs:
                        # the return the inner run stopped at
                        caller = o.frames[-1]
                        self.assign(o, caller, fr.dest, o.retval)
                        caller.bb, caller.si, caller.entered = fr.target, 0, False
                    return ('fork', outs)
                return ('fork', [a, b])
            except Panic as e:
                self.panic(st, fr, e.msg)
                return ('dead',)
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')

    def agree(self, st, outs):
        """Do all the states agree with the last one, each under its own path condition?"""
        m = outs[-1]
        for o in outs[:-1]:
            if o.draws != m.draws or o.ctr != m.ctr or o.env is not m.env or len(o.frames) != len(m.frames) or len(o.log) != len(m.log):
                return False
            for f, g in zip(o.frames, m.frames):
                if f.body is not g.body or f.bb != g.bb or f.si != g.si or f.cells != g.cells:
                    return False
            if not self.same(o, o.retval, m.retval):
                return False
            for x, y in zip(o.log, m.log):
                if x is not y and (x[:2] != y[:2] or not self.same(o, x[2], y[2]) or not self.same(o, x[3], y[3])):
                    return False
            for c in st.mem:
                x, y = o.mem.get(c), m.mem.get(c)
                if x is not y and (x is None or y is None or not self.same(o, x, y)):
                    return False
        return True

    def same(self, st, a, b):
        if a is b:
            return True
        try:
            return a == b or self.proved(st, a, b)
        except (Unsupported, TooBig):
            return False

    def panic(self, st, fr, msg):
        self.panics.append((st, msg, fr.body.id, fr.body.blocks[fr.bb]['l']))

    def block(self, st, fr, base):
        blk = fr.body.blocks[fr.bb]
        ss = blk['s']
        i = fr.si
        n = len(ss)
        while i < n:
            s = ss[i]
            fr.si = i
            if s[0] == '=':
                v = self.rvalue(st, fr, s[2])
                self.assign(st, fr, s[1], v)
            elif s[0] == 'sd':
                cell, path = self.place(st, fr, s[1])
                v = self.rd(st, cell, path)
                self.wr(st, cell, path, Agg(('a', v.tag[1], s[2]), v.f))
            else:
                raise Unsupported('statement')
            i += 1
        fr.si = n
        t = blk['t']
        k = t[0]
        if k == 'goto':
            fr.bb = t[1]
            fr.si = 0
            fr.entered = False
            return
        if k == 'call':
            f = self.operand(st, fr, t[1])
            args = [self.operand(st, fr, o) for o in t[2]]
            self.do_call(st, fr, f, args, t[3], t[4], self.place_ty(fr, t[3]))
            return
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            tgt = t[3]
            if type(v) in (bool, B):
                for val, bb in t[2]:
                    if self.decide(st, v if val else bnot(v)):
                        tgt = bb
                        break
            elif type(v) in (int, I):
                for val, bb in t[2]:
                    if type(v) is int:
                        w = v
                        ty = self.op_ty(fr, t[1])
                        if v < 0 and ty[0] == 'int':
                            w = v % (1 << INTW[ty[1]])
                        if w == val:
                            tgt = bb
                            break
                    elif self.decide(st, eq(v, val)):
                        tgt = bb
                        break
            elif type(v) is Opaque:
                for val, bb in t[2]:
                    if self.decide(st, B('var', ('opq:%s=%s' % (hash_name(v), val),))):
                        tgt = bb
                        break
            else:
                raise Unsupported('switch on %s' % type(v).__name__)
            fr.bb = tgt
            fr.si = 0
            fr.entered = False
            return
        if k == 'return':
            v = st.mem.get(fr.cells[0], UNIT)
            st.frames.pop()
            if not fr.keep:
                m = st.mem
                for c in fr.cells:
                    m.pop(c, None)
            if len(st.frames) <= base:
                st.retval = v
                return ('ret',)
            caller = st.frames[-1]
            if fr.target is None:
                raise Panic('diverging call returned')
            self.assign(st, caller, fr.dest, v)
            caller.bb = fr.target
            caller.si = 0
            caller.entered = False
            return
        if k == 'assert':
            if t[3] == 'other':
                fr.bb = t[4]
            else:
                v = self.operand(st, fr, t[1])
                if self.decide(st, v) != t[2]:
                    raise Panic('assert:' + t[3])
                fr.bb = t[4]
            fr.si = 0
            fr.entered = False
            return
        if k == 'drop':
            fr.bb = t[2]
            fr.si = 0
            fr.entered = False
            return
        if k == 'unreachable':
            return ('dead',)
        if k == 'resume':
            return ('dead',)
        raise Unsupported('terminator ' + k)

    # ------------------------------------------------------------ loops
    def handle_loop(self, st, base, depth, header, blocks):
        import loops
        return loops.handle(self, st, base, depth, header, blocks)

    # ------------------------------------------------------------ case splitting helper
    def cases(self, st, f, limit=200):
        """Run f(state) under case splits; returns [(state, result)]. Infeasible cases are dropped."""
        out = []
        work = [st]
        n = 0
        while work:
            s = work.pop()
            try:
                out.append((s, f(s)))
            except NeedFork as e:
                n += 1
                if n > limit:
                    raise Unsupported('too many cases')
                a = s.copy()
                b = s.copy()
                a.assume(e.b)
                b.assume(bnot(e.b))
                work += [b, a]
        return out

    def inverse(self, st, x):
        import rewrite
        return rewrite.inverse(self, st, x)

    # ------------------------------------------------------------ field equalities
    def nf(self, p):
        import rewrite
        return rewrite.nf(self, p)

    def peq(self, st, p, q):
        """Prove p == q in every field (under the path condition of st)."""
        import rewrite
        return rewrite.peq(self, st, p, q)

    def proved(self, st, a, b):
        """a == b on every case of st (case splits on demand)."""
        n = len(self.obl)
        try:
            rs = self.cases(st.copy(), lambda s: self.veq(s, a, b))
        except Panic:
            return False
        ok = all(r for _, r in rs)
        if ok:
            self.nobl += 1
        return ok

    def veq(self, st, a, b, depth=0):
        """Prove two values equal. True/False (False: not proved)."""
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta in (int, I) and tb in (int, I):
            return self.prove(st, eq(a, b))
        if ta in (bool, B) and tb in (bool, B):
            if a == b:
                return True
            return self.prove(st, bor(band(a, b), band(bnot(a), bnot(b))))
        if ta is not tb:
            return False
        if ta is Poly:
            return self.peq(st, a, b)
        if ta is Agg:
            return a.tag == b.tag and len(a.f) == len(b.f) and all(self.veq(st, x, y, depth) for x, y in zip(a.f, b.f))
        if ta is Seq:
            ca, cb = a.concrete(), b.concrete()
            if ca is not None and cb is not None:
                return len(ca) == len(cb) and all(self.veq(st, x, y, depth) for x, y in zip(ca, cb))
            if a == b:
                return True
            n = a.length()
            if not self.prove(st, eq(n, b.length())):
                return False
            s = st.copy()
            k = ivar(fresh_name('ix'))
            s.assume(le(0, k))
            s.assume(lt(k, n))
            s.assume(lt(k, b.length()))
            try:
                rs = self.cases(s, lambda s2: self.veq(s2, self.seq_get(s2, a, k), self.seq_get(s2, b, k), depth + 1))
            except Panic:
                return False
            return all(r for _, r in rs)
        if ta is Ref:
            if a.cell != b.cell or len(a.path) != len(b.path):
                return False
            for x, y in zip(a.path, b.path):
                if x[0] != y[0]:
                    return False
                for u, v in zip(x[1:], y[1:]):
                    if u != v and not self.prove(st, eq(u, v)):
                        return False
            return True
        return a == b


def merge(c, a, b):
    """if c then a else b as one value, when the two differ in integer arguments only."""
    if a == b:
        return a
    if type(a) in (int, I) and type(b) in (int, I):
        return ite(c, a, b)
    if type(a) is Poly and type(b) is Poly and len(a.t) == 1 and len(b.t) == 1:
        (ma, ca), = a.t.items()
        (mb, cb), = b.t.items()
        if ca == cb == 1 and len(ma) == 1 and len(mb) == 1 and ma[0][1] == mb[0][1] == 1:
            A, B_ = ATOMS[ma[0][0]], ATOMS[mb[0][0]]
            if A.kind == B_.kind == 'app' and A.data[0] == B_.data[0] and len(A.data) == len(B_.data):
                r = []
                for x, y in zip(A.data[1:], B_.data[1:]):
                    if x == y:
                        r.append(x)
                    elif type(x) in (int, I) and type(y) in (int, I):
                        r.append(ite(c, x, y))
                    else:
                        return None
                return papp(A.data[0], *r)
    return None


_hn = {}


def hash_name(v):
    k = repr(v)
    if k not in _hn:
        _hn[k] = 'h%d' % len(_hn)
    return _hn[k]


def _p2(e):
    from terms import _pow2
    return _pow2(zi(e))


def expand_small(p):
    if not has_def(p):
        return p
    try:
        return expand(p, 3000)
    except TooBig:
        return None


_np = {}


def norm_path(p):
    """std::vec::Vec::<T>::with_capacity -> Vec::with_capacity ; core::slice::<impl [T]>::iter -> slice::iter"""
    r = _np.get(p)
    if r is not None:
        return r
    q = p
    if q.startswith('<'):
        # <X as Trait>::name
        d = 0
        for i, ch in enumerate(q):
            if ch == '<':
                d += 1
            elif ch == '>' and q[i - 1] != '-':
                d -= 1
                if d == 0:
                    break
        inner, rest = q[1:i], q[i + 1:]
        if ' as ' in inner:
            tr = strip_generics(inner.split(' as ')[-1])
            r = tr.split('::')[-1] + rest
        else:
            r = strip_generics(inner).split('::')[-1] + rest
        r = strip_generics(r)
    else:
        q = q.replace('<impl [T]>', 'slice').replace('<impl str>', 'str')
        import re
        q = re.sub(r'<impl ([iu](8|16|32|64|128|size))>', 'int', q)
        q = re.sub(r'<impl \[T; N\]>', 'array', q)
        q = re.sub(r'<impl ([A-Za-z0-9_:]+)[^>]*>', lambda m: m.group(1).split('::')[-1], q)
        q = strip_generics(q)
        c = q.split('::')
        r = '::'.join(c[-2:])
    _np[p] = r
    return r


def strip_generics(s):
    o = []
    d = 0
    i = 0
    while i < len(s):
        if s[i] == '<':
            d += 1
        elif s[i] == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            o.append(s[i])
        i += 1
    return ''.join(o).replace('::::', '::')
