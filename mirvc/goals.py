"""Proof goals: contracts of the crate's functions, discharged on the MIR of the current tree.

A goal runs real functions of the crate symbolically (every input, every round count) and records
obligations.  Each obligation is proved, failed (with the state in which it failed) or undecided."""
import time
import traceback
from vc import *
from specs import *

MAXR = 1 << 30    # round counts and lengths are below this (no overflow of usize)


class G:
    """One goal run."""
    def __init__(self, vc, name):
        self.vc = vc
        self.prog = vc.prog
        self.name = name
        self.obs = []          # (name, ok, detail)
        self.engines = []
        self.hints = []        # harness cases suggested by failures
        self.notes = []
        self.bounded = None
        self.intvars = {}

    def engine(self, sp=None):
        e = self.vc.engine(sp)
        self.engines.append(e)
        return e

    def ob(self, name, ok, detail='', st=None):
        self.obs.append((name, bool(ok), '' if ok else str(detail)[:1500]))
        if not ok and st is not None:
            m = int_model(self.engines[-1], st, self.intvars)
            if m is not None:
                self.hints.append(m)
        return bool(ok)

    def field(self, v, name):
        fs = self.prog.adts[v.tag[1]]['variants'][0][2]
        names = [f[0] if isinstance(f, list) else f for f in fs]
        if name not in names:
            raise Unsupported('no field %s in %s' % (name, v.tag[1]))
        return v.f[names.index(name)]

    def sym(self, st, name, lo=0):
        v = ivar(name)
        self.intvars[name] = v
        st.assume(le(lo, v))
        st.assume(lt(v, MAXR))
        return v

    def nopanic(self, eng, what):
        """No panic is reachable; eng.panics holds the feasible ones."""
        ps = feasible(eng)
        for s, msg, fn, line in ps:
            self.ob('%s: no panic' % what, False, 'panic "%s" in %s line %s under %s' % (msg, fn, line, show(s.pc)), s)
        if not ps:
            self.ob('%s: no panic' % what, True)

    def one(self, outs, what):
        if len(outs) == 0:
            self.ob('%s returns' % what, False, 'no returning path')
            raise Stop()
        return outs


class Stop(Exception):
    pass


def feasible(eng):
    return [p for p in eng.panics if eng.check(p[0], []) != z3.unsat]


def show(pc):
    return '; '.join(map(repr, pc))[:600]


def brief(p):
    try:
        if len(p.t) > 12:
            return '<polynomial, %d terms>' % len(p.t)
    except Exception:
        pass
    return repr(p)[:200]


def int_model(eng, st, vs):
    """Small integer values of the named variables under the path condition."""
    try:
        if eng.check(st, []) == z3.unsat:
            return None
        ext = []
        for n, v in vs.items():
            for b in (1, 2, 3, 4, 6, 8, 16, 64, 256, 1 << 12, 1 << 20):
                if eng.check(st, ext + [lt(v, b)]) == z3.sat:
                    ext.append(lt(v, b))
                    break
        if eng.check(st, ext) != z3.sat:
            return {}
        m = eng.model
        r = {}
        for n, v in vs.items():
            x = m.eval(zi(v), model_completion=True)
            r[n] = x.as_long()
        fe = []
        for c in st.pc:
            neg = False
            x = c
            while type(x) is B and x.op == 'not':
                neg = not neg
                x = x.a[0]
            if type(x) is B and x.op == 'feq':
                fe.append(('!=' if neg else '==', brief(x.a[0])))
        if fe:
            r['field'] = fe
        return r
    except Exception:
        return None


# ---------------------------------------------------------------- common pieces
def arc(s, v):
    c = new_cell()
    s.mem[c] = v
    return cell(s, Ptr('arc', c))


def rows(R, t, name='RC'):
    if type(R) is int:
        return cseq([cseq([papp(name, r, i) for i in range(t)]) for r in range(R)])
    return Seq(norm_pieces((('s', R, 'k', cseq([papp(name, ivar('k'), i) for i in range(t)])),)))


def xs(t):
    return [pvar('x%d' % i) for i in range(t)]


def final(eng, s, rec, R):
    if type(R) is I:
        return cseq(rec.at(R))
    v = rec.base
    for r in range(R):
        v = rec.step(eng, s, r, v)
    return cseq(v)


def row_of(eng, st, rcs, r):
    c = rcs.concrete()
    if c is not None:
        return c[r]
    if len(rcs.p) != 1:
        raise Unsupported('shape of the constants')
    p = rcs.p[0]
    return vsubst(p[3], {p[2]: r})


def rounds(g, st, bounded):
    """(hf, rp): symbolic, or the bounded stand-in values."""
    if bounded is not None:
        return bounded
    return g.sym(st, 'hf'), g.sym(st, 'rp')


def reach(mem, refs):
    seen = set()
    work = [r.cell for r in refs]
    while work:
        c = work.pop()
        if c in seen or c not in mem:
            continue
        seen.add(c)
        a = set()
        vrefs(mem[c], a)
        work += list(a)
    return seen


def frame_ok(g, eng, before, s, what, refs):
    """Everything reachable from the arguments (shared parameters included) is as before the call."""
    bad = [c for c in reach(before.mem, refs) if not (before.mem[c] is s.mem.get(c) or before.mem[c] == s.mem.get(c))]
    g.ob('%s: arguments and shared parameters unchanged' % what, not bad, ['%r -> %r' % (before.mem[c], s.mem.get(c)) for c in bad], s)


def check_outs(g, eng, outs, what, want, before=None, refs=()):
    g.one(outs, what)
    for s in outs:
        w = want(s)
        ok = eng.proved(s, s.retval, w)
        g.ob('%s = specification' % what, ok, 'under %s: got %r, specification %r' % (show(s.pc), s.retval, w), s)
        if before is not None:
            frame_ok(g, eng, before, s, what, refs)


def mat(name, t, u=None):
    return [[pvar('%s%d_%d' % (name, i, j)) for j in range(u or t)] for i in range(t)]


def mseq(m):
    return cseq([cseq(r) for r in m])


# ---------------------------------------------------------------- Poseidon2
def p2_params(g, eng, st, t, d, hf, rp, diag, internal=None):
    R = iadd(imulc(hf, 2), rp)
    mi = p2_internal(t, diag)
    outs = call(eng, st, g.vc.find('poseidon2_params::Poseidon2Params::new'),
                [t, d, imulc(hf, 2), rp, cell(st, cseq(diag)), cell(st, mseq(mi)), cell(st, rows(R, t))])
    return outs


def p2(g, t, d, bounded=None):
    inp = xs(t)
    diag = [pvar('mu%d' % i) for i in range(t)]
    sp = Spec()
    eng = g.engine(sp)
    st = State()
    hf, rp = rounds(g, st, bounded)
    rec = poseidon2(t, d, hf, rp, inp, lambda r, i: papp('RC', r, i), diag)
    sp.add(rec)
    R = iadd(imulc(hf, 2), rp)
    for s in g.one(p2_params(g, eng, st, t, d, hf, rp, diag), 'Poseidon2Params::new'):
        for s in g.one(call(eng, s, g.vc.find('poseidon2::Poseidon2::new'), [arc(s, s.retval)]), 'Poseidon2::new'):
            h, i = cell(s, s.retval), cell(s, cseq(inp))
            o = call(eng, s, g.vc.find('poseidon2::Poseidon2::permutation'), [h, i])
            check_outs(g, eng, o, 'Poseidon2::permutation', lambda s: final(eng, s, rec, R), s, (h, i))
    g.nopanic(eng, 'Poseidon2::permutation')


# ---------------------------------------------------------------- Poseidon
def poseidon_rec(g, eng, st, sp, t, d, bounded):
    hf, rp = rounds(g, st, bounded)
    if type(rp) is I:
        st.assume(le(1, rp))
    mds = mat('m', t)
    rec = poseidon(t, d, hf, rp, xs(t), lambda r, i: papp('RC', r, i), mds)
    sp.add(rec)
    return hf, rp, mds, rec


def pos_plain(g, t, d, bounded=None):
    """permutation_not_opt on parameters whose optimisation tables are arbitrary."""
    sp = Spec()
    eng = g.engine(sp)
    st = State()
    hf, rp, mds, rec = poseidon_rec(g, eng, st, sp, t, d, bounded)
    R = iadd(imulc(hf, 2), rp)
    P = pos_struct(g, t, d, hf, rp, mds, R)
    for s in g.one(call(eng, st, g.vc.find('poseidon::Poseidon::new'), [arc(st, P)]), 'Poseidon::new'):
        h, i = cell(s, s.retval), cell(s, cseq(xs(t)))
        o = call(eng, s, g.vc.find('poseidon::Poseidon::permutation_not_opt'), [h, i])
        check_outs(g, eng, o, 'Poseidon::permutation_not_opt', lambda s: final(eng, s, rec, R), s, (h, i))
    g.nopanic(eng, 'Poseidon::permutation_not_opt')


def pos_opt(g, t, d, bounded=None):
    """PoseidonParams::new, then the optimised permutation."""
    sp = Spec()
    eng = g.engine(sp)
    st = State()
    hf, rp, mds, rec = poseidon_rec(g, eng, st, sp, t, d, bounded)
    R = iadd(imulc(hf, 2), rp)
    mv = Minv(eng)
    eng.contracts[g.vc.find('utils::mat_inverse').id] = mv.contract
    poseidon_opt(sp, eng, t, hf, rp, lambda r, i: papp('RC', r, i), mds, 'X', mv)
    outs = call(eng, st, g.vc.find('poseidon_params::PoseidonParams::new'), [t, d, imulc(hf, 2), rp, cell(st, mseq(mds)), cell(st, rows(R, t))])
    for s in g.one(outs, 'PoseidonParams::new'):
        for s in g.one(call(eng, s, g.vc.find('poseidon::Poseidon::new'), [arc(s, s.retval)]), 'Poseidon::new'):
            h, i = cell(s, s.retval), cell(s, cseq(xs(t)))
            o = call(eng, s, g.vc.find('poseidon::Poseidon::permutation'), [h, i])
            check_outs(g, eng, o, 'Poseidon::permutation', lambda s: final(eng, s, rec, R), s, (h, i))
    g.nopanic(eng, 'Poseidon::permutation')
    g.notes.append('identity tests: %d' % eng.pit_n)


def struct(g, path, **kw):
    for k, a in g.prog.adts.items():
        if k.endswith(path):
            fs = [f[0] if isinstance(f, list) else f for f in a['variants'][0][2]]
            vals = []
            for f in fs:
                if f not in kw:
                    vals.append(Opaque('unset', f))
                else:
                    vals.append(kw.pop(f))
            if kw:
                raise Unsupported('%s has no field %s' % (path, sorted(kw)))
            return Agg(('a', k, 0), tuple(vals))
    raise Unsupported('no type ' + path)


def pos_struct(g, t, d, hf, rp, mds, R, **kw):
    return struct(g, 'poseidon_params::PoseidonParams', t=t, d=d, rounds_f_beginning=hf, rounds_p=rp, rounds_f_end=hf, rounds=R,
                  mds=mseq(mds), round_constants=rows(R, t), **kw)


# ---------------------------------------------------------------- GMiMC
def gm(g, t, d, opt, bounded=None):
    inp = xs(t)
    sp = Spec()
    eng = g.engine(sp)
    st = State()
    R = g.sym(st, 'rounds', 1) if bounded is None else bounded
    what = 'Gmimc::permutation' + ('' if opt else '_not_opt')
    for s in g.one(call(eng, st, g.vc.find('gmimc_params::GmimcParams::new'), [t, d, R]), 'GmimcParams::new'):
        P = s.retval
        rcs = g.field(P, 'round_constants')
        rc = lambda r: row_of(eng, s, rcs, r)
        rec = gmimc(t, d, inp, rc)
        sp.recs.clear()
        sp.traj.clear()
        sp.add(rec)
        sp.gmimc(t, d, rec, rc)
        for s in g.one(call(eng, s, g.vc.find('gmimc::Gmimc::new'), [arc(s, P)]), 'Gmimc::new'):
            h, i = cell(s, s.retval), cell(s, cseq(inp))
            o = call(eng, s, g.vc.find('gmimc::Gmimc::permutation' + ('' if opt else '_not_opt')), [h, i])

            def want(s):
                x = list(final(eng, s, rec, isub(R, 1)).concrete())
                return cseq(gmimc_step(t, d, x, rc(isub(R, 1))))
            check_outs(g, eng, o, what, want, s, (h, i))
    g.nopanic(eng, what)


# ---------------------------------------------------------------- Neptune
def nep(g, t, d, bounded=None):
    inp = xs(t)
    sp = Spec()
    eng = g.engine(sp)
    st = State()
    hf, rp = rounds(g, st, bounded)
    R = iadd(imulc(hf, 2), rp)
    for s in g.one(call(eng, st, g.vc.find('neptune_params::NeptuneParams::new'), [t, d, imulc(hf, 2), rp]), 'NeptuneParams::new'):
        P = s.retval
        me = [list(r.concrete()) for r in g.field(P, 'm_e').concrete()]
        mu = list(g.field(P, 'mu').concrete())
        gamma = g.field(P, 'abc').concrete()[2]
        rcs = g.field(P, 'round_constants')
        rec = neptune(t, d, hf, rp, inp, lambda r, i: row_of(eng, s, rcs, r).concrete()[i], me, mu, gamma)
        sp.recs.clear()
        sp.traj.clear()
        sp.add(rec)
        for s in g.one(call(eng, s, g.vc.find('neptune::Neptune::new'), [arc(s, P)]), 'Neptune::new'):
            h, i = cell(s, s.retval), cell(s, cseq(inp))
            o = call(eng, s, g.vc.find('neptune::Neptune::permutation'), [h, i])
            check_outs(g, eng, o, 'Neptune::permutation', lambda s: final(eng, s, rec, R), s, (h, i))
    g.nopanic(eng, 'Neptune::permutation')


# ---------------------------------------------------------------- Merkle trees
def root_ok(g, eng, s, size, what):
    """The returned value is L(m, 0) where 2^m is the padded size."""
    v = s.retval
    if type(v) is not Poly or len(v.t) != 1:
        return g.ob('%s = root' % what, False, 'result %r' % (v,), s)
    (mono, c), = v.t.items()
    if c != 1 or len(mono) != 1 or mono[0][1] != 1:
        return g.ob('%s = root' % what, False, 'result %r' % (v,), s)
    a = app_data(mono[0][0])
    if a is None or a[0] != 'L' or not (a[2] == 0 or type(a[2]) is I and eng.prove(s, eq(a[2], 0))):
        # not folded: unfold the specification at small heights
        for m in range(1, 6):
            if eng.prove(s, band(le(size, 1 << m), bor(eq(m, 1), lt(1 << (m - 1), size)))):
                return g.ob('%s = root' % what, eng.proved(s, v, papp('L', m, 0)), 'result %r for %d levels' % (v, m), s)
        return g.ob('%s = root' % what, False, 'result %r' % (v,), s)
    m = a[1]
    ok = eng.prove(s, band(le(1, m), le(size, ipow2(m))))
    ok2 = ok and eng.prove(s, bor(eq(m, 1), lt(ipow2(isub(m, 1)), size)))
    g.ob('%s = root of the padded complete tree' % what, ok2, 'height %r under %s' % (m, show(s.pc)), s)


def app_data(i):
    a = ATOMS[i]
    return a.data if a.kind == 'app' else None


def merkle(g, which, bounded=None):
    lv = which in ('orchard', 'sapling')
    sp = Spec()
    eng = g.engine(sp)
    st = State()
    size = g.sym(st, 's', 1) if bounded is None else bounded
    mod = 'merkle_tree_' + which
    f2 = which == 'f2'
    if not f2:
        def h(eng, st, args, ctx):
            k = args[1] if lv else None
            r = args[2 if lv else 1]
            v = eng.rd(st, r.cell, r.path)
            c = v.concrete()
            if c is None:
                raise Unsupported('compression of a list of symbolic length')
            return papp('H', *([k] if lv else []), *[eng.deref(st, x) for x in c])
        eng.natives['MerkleTreeHash::compress'] = h
    sp.merkle(lambda i: papp('set', i), size, lambda k, a, b: papp('H', *([k] if lv else []), a, b))
    what = '%s::MerkleTree::accumulate' % mod
    leaves = Seq(norm_pieces((('s', size, 'k', papp('set', ivar('k'))),)))
    acc = g.vc.find(mod + '::MerkleTree::accumulate')

    def go(st, tree):
        c, i = cell(st, tree), cell(st, leaves)
        o = call(eng, st, acc, [c, i])
        return c, i, o
    if f2:
        starts = []
        for ctor in ('new', 'default'):
            b = g.vc.find(mod + '::MerkleTree::new') if ctor == 'new' else g.vc.trait_impl_in(mod, 'Default', 'default')
            for s in g.one(call(eng, st, b, []), ctor):
                starts.append((ctor, s))
        # any history first: the hasher holds an arbitrary state
        hist = struct(g, mod + '::MerkleTree', hasher=Opaque('hasher', pvar('h0')))
        g2 = G(g.vc, g.name)
        g2.engines = g.engines
        np = len(eng.panics)
        o = []
        try:
            c, i, o = go(st, hist)
            for s in o:
                root_ok(g2, eng, s, size, what)
        except Unsupported:
            g2.ob('', False)
        if o and all(x[1] for x in g2.obs):
            g.obs += g2.obs
            g.ob('the root does not depend on the state of the hasher object', True)
        else:
            del eng.loops_done[:]
            del eng.panics[np:]
            # then every operation must leave the hasher as a new one
            del eng.panics[np:]
            for ctor, s0 in starts:
                g.ob('%s gives an empty hasher' % ctor, s0.retval == struct(g, mod + '::MerkleTree', hasher=Opaque('hasher')), repr(s0.retval), s0)
                c, i, o = go(s0, s0.retval)
                g.one(o, what)
                for s in o:
                    root_ok(g, eng, s, size, what)
                    g.ob('%s leaves the tree object as new' % what, s.mem[c.cell] == s0.retval, repr(s.mem[c.cell]), s)
                    frame_ok(g, eng, _with(s0, i, leaves), s, what, [i])
    else:
        for s0 in g.one(call(eng, st, g.vc.find(mod + '::MerkleTree::new'), [Opaque('P')]), 'MerkleTree::new'):
            c, i, o = go(s0, s0.retval)
            g.one(o, what)
            for s in o:
                root_ok(g, eng, s, size, what)
                g.ob('%s leaves the tree object unchanged' % what, s.mem[c.cell] == s0.retval, repr(s.mem[c.cell]), s)
                frame_ok(g, eng, _with(s0, i, leaves), s, what, [i])
    g.nopanic(eng, what)


def _with(s, ref, v):
    x = s.copy()
    x.mem[ref.cell] = v
    return x


# ---------------------------------------------------------------- matrix inversion and helpers
def det(m, p):
    m = [r[:] for r in m]
    n = len(m)
    d = 1
    for i in range(n):
        k = next((r for r in range(i, n) if m[r][i] % p), None)
        if k is None:
            return 0
        if k != i:
            m[i], m[k] = m[k], m[i]
            d = -d
        d = d * m[i][i] % p
        iv = pow(m[i][i], -1, p)
        for r in range(i + 1, n):
            f = m[r][i] * iv % p
            if f:
                for c in range(i, n):
                    m[r][c] = (m[r][c] - f * m[i][c]) % p
    return d % p


def inverse(g, n):
    """mat_inverse on an arbitrary n x n matrix."""
    import rewrite
    sp = Spec()
    eng = g.engine(sp)
    eng.pit = True
    eng.max_unroll = 100000
    st = State()
    M = mat('m', n)
    i = cell(st, mseq(M))
    outs = call(eng, st, g.vc.find('utils::mat_inverse'), [i])
    g.one(outs, 'mat_inverse')
    for s in outs:
        for c in s.pc:
            if type(c) is B and c.op == 'feq':
                raise Unsupported('data-dependent branch %r' % (c,))
        r = s.retval.concrete() if type(s.retval) is Seq else None
        rs = [x.concrete() if type(x) is Seq else None for x in r] if r is not None else None
        if rs is None or any(x is None for x in rs):
            raise Unsupported('shape of the result')
        shape = len(rs) == n and all(len(x) == n for x in rs)
        if not g.ob('mat_inverse returns an n x n matrix', shape, repr(s.retval), s):
            continue
        rs = [list(x) for x in rs]
        for nm, A, Bm in (('result * input', rs, M), ('input * result', M, rs)):
            bad = []
            for a in range(n):
                for b in range(n):
                    e = ZERO
                    for k in range(n):
                        e = padd(e, pmul(A[a][k], Bm[k][b]))
                    if not rewrite.pit_zero(eng, psub(e, ONE if a == b else ZERO)):
                        bad.append((a, b))
            g.ob('%s = identity (%d entries)' % (nm, n * n), not bad, 'entries %s differ' % bad[:6], s)
        frame_ok(g, eng, _with(s, i, mseq(M)), s, 'mat_inverse', [i])
    # panics: only where a leading principal minor is zero
    minors = []
    for env, mod, rng in rewrite.pit_points(eng):
        v = [[evaluate(x, env, mod, rng) for x in r] for r in M]
        minors.append([1] + [det([r[:k] for r in v[:k]], mod) for k in range(1, n + 1)])
    for s, msg, fn, line in feasible(eng):
        ok = False
        for c in s.pc:
            if type(c) is B and c.op == 'feq':
                vals = [evaluate(c.a[0], env, mod, rng) for env, mod, rng in rewrite.pit_points(eng)]
                for a in range(1, n + 1):
                    for b in range(0, n + 1):
                        for sg in (1, -1):
                            if all((sg * x * ms[b] - ms[a]) % mod == 0 for x, ms, (env, mod, rng) in zip(vals, minors, eng.points)):
                                ok = True
        g.ob('mat_inverse stops only where a leading principal minor is zero', ok, 'panic "%s" in %s line %s' % (msg, fn, line), s)



# ---------------------------------------------------------------- hasher objects
HASH = {
    'p2': ('poseidon2::Poseidon2', 'poseidon2_params::Poseidon2Params', 'Poseidon2', (3, 5, 7, 11)),
    'pos': ('poseidon::Poseidon', 'poseidon_params::PoseidonParams', 'Poseidon', (3, 5, 7)),
    'gm': ('gmimc::Gmimc', 'gmimc_params::GmimcParams', 'Gmimc', (3, 5, 7)),
    'nep': ('neptune::Neptune', 'neptune_params::NeptuneParams', 'Neptune', (3, 5, 7)),
}
VARIANTS = {'p2': ('permutation',), 'pos': ('permutation', 'permutation_not_opt'), 'gm': ('permutation', 'permutation_not_opt'), 'nep': ('permutation',)}


def params(g, kind, t, d, hf, rp, R):
    """Arbitrary parameters of width t; only the fields every permutation reads are set."""
    p = HASH[kind][1]
    if kind == 'gm':
        return struct(g, p, t=t, d=d, rounds=R, round_constants=Seq(norm_pieces((('s', R, 'k', papp('RC', ivar('k'))),))))
    rc = rows(R, t) if type(t) is int else Seq(norm_pieces((('s', R, 'k', Seq(norm_pieces((('s', t, 'j', papp('RC', ivar('k'), ivar('j'))),)))),)))
    return struct(g, p, t=t, d=d, rounds_f_beginning=hf, rounds_p=rp, rounds_f_end=hf, rounds=R, round_constants=rc)


def wrong_length(g, kind, variant, t=None):
    """A slice of another length than the width never gives a result."""
    eng = g.engine(Spec())
    st = State()
    tt = g.sym(st, 't') if t is None else t
    n = g.sym(st, 'n')
    hf, rp = g.sym(st, 'hf'), g.sym(st, 'rp', 1)
    st.assume(bnot(eq(n, tt)))
    P = params(g, kind, tt, g.sym(st, 'd'), hf, rp, iadd(imulc(hf, 2), rp))
    what = '%s::%s on a slice of another length' % (HASH[kind][2], variant)
    for s in g.one(call(eng, st, g.vc.find(HASH[kind][0] + '::new'), [arc(st, P)]), 'new'):
        i = cell(s, Seq(norm_pieces((('s', n, 'k', papp('x', ivar('k'))),))))
        outs = call(eng, s, g.vc.find(HASH[kind][0] + '::' + variant), [cell(s, s.retval), i])
        outs = [o for o in outs if eng.check(o, []) != z3.unsat]
        for o in outs:
            g.ob(what + ' returns no value', False, 'returns %r under %s' % (o.retval, show(o.pc)), o)
        if not outs:
            g.ob(what + ' returns no value (%d panicking paths)' % len(eng.panics), bool(eng.panics), 'no path at all')


def right_length(g, kind, t, d, bounded=None):
    """A slice of the right length gives a state of that length."""
    eng = g.engine(Spec())
    st = State()
    if kind == 'gm':
        R = g.sym(st, 'rounds', 1) if bounded is None else bounded
        outs = call(eng, st, g.vc.find('gmimc_params::GmimcParams::new'), [t, d, R])
    else:
        hf, rp = rounds(g, st, bounded)
        if type(rp) is I:
            st.assume(le(1, rp))
        R = iadd(imulc(hf, 2), rp)
        if kind == 'nep':
            outs = call(eng, st, g.vc.find('neptune_params::NeptuneParams::new'), [t, d, imulc(hf, 2), rp])
        elif kind == 'p2':
            outs = p2_params(g, eng, st, t, d, hf, rp, [pvar('mu%d' % i) for i in range(t)])
        else:
            st.retval = pos_struct(g, t, d, hf, rp, mat('m', t), R, opt_round_constants=opt_rows(rp, t),
                                   w_hat=rows(rp, t - 1, 'WH'), v=rows(rp, t - 1, 'VV'), m_i=mseq(mat('i', t)))
            outs = [st]
    for s in g.one(outs, 'constructor'):
        for s in g.one(call(eng, s, g.vc.find(HASH[kind][0] + '::new'), [arc(s, s.retval)]), 'new'):
            for v in VARIANTS[kind]:
                i = cell(s, cseq(xs(t)))
                o = call(eng, s, g.vc.find(HASH[kind][0] + '::' + v), [cell(s, s.retval), i])
                g.one(o, v)
                for z in o:
                    c = z.retval.concrete() if type(z.retval) is Seq else None
                    g.ob('%s::%s returns a state of the width' % (HASH[kind][2], v), c is not None and len(c) == t, repr(z.retval), z)
    g.nopanic(eng, '%s on a slice of the right length' % HASH[kind][2])


def opt_rows(rp, t):
    first = cseq([papp('OC', 0, i) for i in range(t)])
    if type(rp) is int:
        return cseq([first] + [cseq([papp('OC', k, 0)]) for k in range(1, rp)])
    return Seq(norm_pieces((('c', (first,)), ('s', isub(rp, 1), 'k', cseq([papp('OC', iadd(ivar('k'), 1), 0)])))))


# ---------------------------------------------------------------- two-to-one compression
def compress(g, kind):
    w = 4 if kind == 'nep' else 3
    body = g.vc.trait_impl(HASH[kind][2], 'MerkleTreeHash', 'compress')

    def run(eng, tt, contract, st, extra=()):
        hf, rp = g.sym(st, 'hf'), g.sym(st, 'rp', 1)
        R = iadd(imulc(hf, 2), rp)
        P = params(g, kind, tt, g.sym(st, 'd'), hf, rp, R)
        if contract:
            for v in VARIANTS[kind]:
                eng.contracts[g.vc.find(HASH[kind][0] + '::' + v).id] = contract
        l, r = pvar('l'), pvar('r')
        res = []
        for s in g.one(call(eng, st, g.vc.find(HASH[kind][0] + '::new'), [arc(st, P)]), 'new'):
            h = cell(s, s.retval)
            lr = cseq([cell(s, l), cell(s, r)])
            i = cell(s, lr)
            o = call(eng, s, body, [h, i])
            res.append((s, h, i, [x for x in o if eng.check(x, []) != z3.unsat]))
        return res

    def contract(tt):
        def perm(eng, st, args, ctx):
            v = eng.rd(st, args[1].cell, args[1].path)
            n = v.length()
            if not eng.decide(st, eq(n, tt)):
                raise Panic('contract of the permutation: wrong length')
            c = v.concrete()
            if c is None:
                raise Unsupported('permutation of a list of symbolic length')
            return cseq([papp('PERM', i, *c) for i in range(len(c))])
        return perm
    what = '%s::compress' % HASH[kind][2]
    # the right width
    eng = g.engine(Spec())
    st = State()
    want = papp('PERM', 0, pvar('l'), pvar('r'), *[ZERO] * (w - 2))
    for s, h, i, outs in run(eng, w, contract(w), st):
        g.one(outs, what)
        for o in outs:
            ok = eng.proved(o, o.retval, want)
            g.ob('%s = element 0 of the permutation of (l, r, 0..)' % what, ok, 'got %r under %s' % (o.retval, show(o.pc)), o)
            frame_ok(g, eng, s, o, what, (h, i))
    g.nopanic(eng, what)
    # any other width
    eng = g.engine(Spec())
    st = State()
    tt = g.sym(st, 't')
    st.assume(bnot(eq(tt, w)))
    for s, h, i, outs in run(eng, tt, contract(tt), st):
        for o in outs:
            g.ob('%s returns nothing for an instance of another width' % what, False, 'returns %r under %s' % (o.retval, show(o.pc)), o)
        if not outs:
            g.ob('%s returns nothing for an instance of another width' % what, True)


# ---------------------------------------------------------------- matrix helpers
def as_mat(v):
    r = v.concrete() if type(v) is Seq else None
    rs = [x.concrete() if type(x) is Seq else None for x in r] if r is not None else None
    return None if rs is None or any(x is None for x in rs) else [list(x) for x in rs]


def same_mat(eng, s, a, b):
    return a is not None and len(a) == len(b) and all(len(x) == len(y) and all(type(u) is Poly and eng.proved(s, u, v) for u, v in zip(x, y)) for x, y in zip(a, b))


def helper(g, fn, args, want, what):
    eng = g.engine(Spec())
    eng.max_unroll = 100000
    st = State()
    rs = [cell(st, a) for a in args]
    outs = call(eng, st, g.vc.find(fn), rs)
    g.one(outs, what)
    for s in outs:
        v = s.retval
        if type(want[0]) is list:
            m = as_mat(v)
            g.ob('%s = specification' % what, same_mat(eng, s, m, want), 'got %r' % (v,), s)
        else:
            c = v.concrete() if type(v) is Seq else None
            g.ob('%s = specification' % what, c is not None and same_mat(eng, s, [list(c)], [want]), 'got %r' % (v,), s)
        frame_ok(g, eng, _frame0(st, s), s, what, rs)
    g.nopanic(eng, what)


def _frame0(st, s):
    x = s.copy()
    x.mem = dict(x.mem) if type(x.mem) is dict else x.mem
    for r in list(st.mem):
        x.mem[r] = st.mem[r]
    return x


def transpose(g, r, c):
    m = mat('m', r, c)
    helper(g, 'utils::mat_transpose', [mseq(m)], [[m[i][j] for i in range(r)] for j in range(c)], 'mat_transpose %dx%d' % (r, c))


def mat_vec(g, n, which):
    m, x = mat('m', n), xs(n)
    helper(g, which + '::mat_vec_mul', [mseq(m), cseq(x)], matvec(m, x), '%s::mat_vec_mul %d' % (which, n))


def mat_mat(g, n):
    a, b = mat('a', n), mat('b', n)
    w = []
    for i in range(n):
        w.append([])
        for j in range(n):
            e = ZERO
            for k in range(n):
                e = padd(e, pmul(a[i][k], b[k][j]))
            w[-1].append(e)
    helper(g, 'PoseidonParams::mat_mat_mul', [mseq(a), mseq(b)], w, 'mat_mat_mul %d' % n)


def moved_rc(g, which, t):
    """equivalent_round_constants: moving the constants of the partial rounds backwards through the linear layer."""
    sp = Spec()
    eng = g.engine(sp)
    st = State()
    hf, rp = g.sym(st, 'hf'), g.sym(st, 'rp', 1)
    R = iadd(imulc(hf, 2), rp)
    M = mat('m', t)
    mv = Minv(eng)
    eng.contracts[g.vc.find('utils::mat_inverse').id] = mv.contract
    Mi = mv.matrix(M)
    C = moved_constants(sp, t, hf, rp, lambda r, i: papp('RC', r, i), Mi)
    sp.hints = [isub(rp, 1)]
    args = [cell(st, rows(R, t)), cell(st, mseq(M))]
    what = '%s::equivalent_round_constants' % which
    # why these constants are equivalent: one round from state X + C(n), constant opt on element 0, gives X' + C(n+1)
    sv, xv, cv, nv = pvar('s'), xs(t), [pvar('c%d' % i) for i in range(t)], [pvar('n%d' % i) for i in range(t)]
    b = matvec(Mi, nv)
    left = matvec(M, [padd(sv, b[0])] + [padd(padd(xv[i], cv[i]), b[i]) for i in range(1, t)])
    right = matvec(M, [sv] + [padd(xv[i], cv[i]) for i in range(1, t)])
    import rewrite
    g.ob('lemma: a round on the moved constants equals the plain round', all(rewrite.pit_zero(eng, psub(psub(l, r), y)) for l, r, y in zip(left, right, nv)), 'identity fails')
    for s in g.one(call(eng, st, g.vc.find(which + '::equivalent_round_constants'), args + [hf, rp]), what):
        k = ivar('k')
        tail = (('c', (cseq([ZERO] * t),)),) if which == 'Poseidon2Params' else ()
        want = Seq(norm_pieces((('c', (cseq(C(0)),)), ('s', isub(rp, 1), 'k', cseq([matvec(Mi, C(iadd(k, 1)))[0]]))) + tail))
        g.ob('%s: the moved constants' % what, eng.proved(s, s.retval, want), 'under %s: got %r, specification %r' % (show(s.pc), s.retval, want), s)
        frame_ok(g, eng, st, s, what, args)
    g.nopanic(eng, what)


# ---------------------------------------------------------------- hexadecimal strings
def from_hex(g):
    eng = g.engine(Spec())
    st = State()
    S = Opaque('str', 'S')
    i = cell(st, S)
    outs = call(eng, st, g.vc.find('fields::utils::from_hex'), [i])
    g.one(outs, 'from_hex')
    want = papp('from_be_bytes_mod_order', Opaque('hexbytes', Opaque('substr', S, 2, Opaque('len'))))
    for s in outs:
        g.ob('from_hex = big-endian value of the decoded digits after the prefix', s.retval == want, 'got %r under %s' % (s.retval, show(s.pc)), s)
        g.ob('a value is returned only if the digits decode', any('hexok' in repr(c) and not repr(c).startswith('!') for c in s.pc), show(s.pc), s)
    for s, msg, fn, line in feasible(eng):
        ok = any(repr(c).startswith('!hexok') or repr(c).startswith('!strok') for c in s.pc)
        g.ob('from_hex stops only for an invalid string', ok, 'panic "%s" in %s line %s under %s' % (msg, fn, line, show(s.pc)), s)


# ---------------------------------------------------------------- parameter generation
def draws(ps, bound):
    """Every entry is its own random draw, distinct for every value of the bound index."""
    seen = set()
    for p in ps:
        if type(p) is not Poly or len(p.t) != 1:
            return 'entry %r' % (p,)
        (mono, c), = p.t.items()
        if c != 1 or len(mono) != 1 or mono[0][1] != 1:
            return 'entry %r' % (p,)
        a = app_data(mono[0][0])
        if a is None or not str(a[0]).startswith('rnd'):
            return 'entry %r is not a draw' % (p,)
        if a[0] in seen:
            return 'draw %r is used twice' % (p,)
        seen.add(a[0])
        for b in bound:
            if ivar(b) not in a[1:]:
                return 'draw %r does not depend on the index' % (p,)
    return None


def gm_gen(g):
    eng = g.engine(Spec())
    st = State()
    t, d, R = g.sym(st, 't'), g.sym(st, 'd'), g.sym(st, 'rounds')
    for s in g.one(call(eng, st, g.vc.find('GmimcParams::new'), [t, d, R]), 'GmimcParams::new'):
        P = s.retval
        for n, v in (('t', t), ('d', d), ('rounds', R)):
            g.ob('GmimcParams::new stores %s' % n, eng.prove(s, eq(g.field(P, n), v)), repr(g.field(P, n)), s)
        rc = g.field(P, 'round_constants')
        if type(rc) is not Seq:
            raise Unsupported('round constants')
        g.ob('one constant per round', eng.prove(s, eq(rc.length(), R)), repr(rc), s)
        bad = None
        es = []
        for p in rc.p:
            if p[0] == 'c':
                es += list(p[1])
            else:
                bad = bad or draws([p[3]], [p[2]])
                es.append(p[3])
        g.ob('every constant is an independent draw', (bad or draws(es, [])) is None, bad or draws(es, []), s)


def nep_gen(g, t):
    eng = g.engine(Spec())
    st = State()
    d, rf, rp = g.sym(st, 'd'), g.sym(st, 'rf'), g.sym(st, 'rp')
    for s in g.one(call(eng, st, g.vc.find('NeptuneParams::new'), [t, d, rf, rp]), 'NeptuneParams::new'):
        P = s.retval
        R = iadd(rf, rp)
        rc = g.field(P, 'round_constants')
        if type(rc) is not Seq:
            raise Unsupported('round constants')
        g.ob('one row of constants per round', eng.prove(s, eq(rc.length(), R)), repr(rc), s)
        bad, es = None, []
        for p in rc.p:
            for row in (p[1] if p[0] == 'c' else [p[3]]):
                c = row.concrete()
                if c is None or len(c) != t:
                    bad = 'row %r' % (row,)
                    continue
                if p[0] != 'c':
                    bad = bad or draws(c, [p[2]])
                es += list(c)
        me = as_mat(g.field(P, 'm_e'))
        mu = g.field(P, 'mu').concrete()
        abc = g.field(P, 'abc').concrete()
        if me is None or mu is None or abc is None:
            raise Unsupported('shape of the parameters')
        h = t // 2
        ok = len(me) == t and all(len(r) == t for r in me)
        if ok:
            ok = all(me[i][j] == ZERO for i in range(t) for j in range(t) if (i + j) % 2)
        g.ob('external matrix is t x t, zero where row and column parity differ', ok, repr(me), s)
        if ok:
            a = [[me[2 * i][2 * j] for j in range(h)] for i in range(h)]
            b = [[me[2 * i + 1][2 * j + 1] for j in range(h)] for i in range(h)]
            cs = {4: ((2, 1), (1, 2)), 8: ((3, 2, 1, 1), (1, 1, 2, 3))}.get(t)
            if cs:
                for x, c, nm in ((a, cs[0], "M'"), (b, cs[1], "M''")):
                    w = [[pconst(c[(j - i) % h]) for j in range(h)] for i in range(h)]
                    g.ob("%s = circ%s" % (nm, c), x == w, repr(x), s)
            else:
                es += [e for m in (a, b) for r in m for e in r]
        g.ob('internal diagonal has t entries', len(mu) == t, repr(mu), s)
        nz = []
        for m in mu:
            f = padd(m, ONE)
            es.append(f)
            if eng.feq_decide(s, feq0(f)) is not False and not any(c == bnot(feq0(f)) for c in s.pc):
                nz.append(f)
        g.ob('no multiplier of the internal diagonal is zero', not nz, repr(nz), s)
        g.ob('alpha = beta = 1', len(abc) == 3 and abc[0] == ONE and abc[1] == ONE, repr(abc), s)
        es.append(abc[2])
        bad = bad or draws(es, [])
        g.ob('every random entry is an independent draw', bad is None, bad, s)


# ---------------------------------------------------------------- constructors
def ctor_call(g, eng, st, kind, t, d, rf, rp, mr=None):
    f = g.vc.find(HASH[kind][1] + '::new')
    if kind == 'gm':
        return f, [t, d, rp]
    if kind == 'nep':
        return f, [t, d, rf, rp]
    RC = Seq(norm_pieces((('s', g.sym(st, 'nrc'), 'k', Opaque('row', 'RC', ivar('k'))),)))
    if kind == 'p2':
        return f, [t, d, rf, rp, cell(st, Seq(norm_pieces((('s', g.sym(st, 'nd'), 'k', papp('mu', ivar('k'))),)))),
                   cell(st, Seq(norm_pieces((('s', g.sym(st, 'nm'), 'k', Opaque('row', 'M', ivar('k'))),)))), cell(st, RC)]
    for nm in ('equivalent_matrices', 'equivalent_round_constants'):
        try:
            b = g.vc.find('PoseidonParams::' + nm)
        except Unsupported:
            continue
        # their results are the subject of C03; here they are arbitrary
        eng.contracts[b.id] = (lambda nm: lambda e, s, a, c: tup(Opaque('m_i'), Opaque('v'), Opaque('w_hat')) if nm == 'equivalent_matrices' else Opaque('opt'))(nm)
    return f, [t, d, rf, rp, cell(st, Seq(norm_pieces((('s', mr, 'k', Opaque('row', 'M', ivar('k'))),)))), cell(st, RC)]


def ctor(g, kind, t=None):
    """The constructor for every argument: what it rejects and what it stores."""
    eng = g.engine(Spec())
    st = State()
    T = HASH[kind][2] + 'Params::new'
    t = g.sym(st, 't') if t is None else t
    d, rf, rp = g.sym(st, 'd'), g.sym(st, 'rf'), g.sym(st, 'rp')
    mr = g.sym(st, 'mr')
    f, args = ctor_call(g, eng, st, kind, t, d, rf, rp, mr)
    outs = [s for s in call(eng, st, f, args) if eng.check(s, []) != z3.unsat]
    g.one(outs, T)
    sup = HASH[kind][3]
    for s in outs:
        P = s.retval
        g.ob('%s returns only for a supported degree' % T, eng.prove(s, bor(*[eq(d, x) for x in sup])), show(s.pc), s)
        if kind != 'gm':
            g.ob('%s returns only for an even number of full rounds' % T, eng.prove(s, eq(imod(rf, 2), 0)), show(s.pc), s)
        if kind == 'nep':
            g.ob('%s returns only for an even width' % T, t % 2 == 0 if type(t) is int else eng.prove(s, eq(imod(t, 2), 0)), show(s.pc), s)
        if kind == 'pos':
            g.ob('%s returns only for a matrix with t rows' % T, eng.prove(s, eq(mr, t)), show(s.pc), s)
        want = dict(t=t, d=d)
        if kind == 'gm':
            want['rounds'] = rp
        else:
            want.update(rounds_f_beginning=idiv(rf, 2), rounds_f_end=idiv(rf, 2), rounds_p=rp, rounds=iadd(rf, rp))
        for n, v in want.items():
            try:
                x = g.field(P, n)
            except Unsupported:
                if n != 'rounds_f_end':
                    raise
                continue
            g.ob('%s stores %s' % (T, n), x == v or eng.prove(s, eq(x, v)), '%r instead of %r under %s' % (x, v, show(s.pc)), s)
        if kind == 'p2':
            for n, a in (('mat_internal_diag_m_1', 4), ('round_constants', 6)):
                g.ob('%s stores %s unchanged' % (T, n), eng.proved(s, g.field(P, n), st.mem[args[a].cell]), repr(g.field(P, n)), s)
        if kind == 'pos':
            for n, a in (('mds', 4), ('round_constants', 5)):
                g.ob('%s stores %s unchanged' % (T, n), eng.proved(s, g.field(P, n), st.mem[args[a].cell]), repr(g.field(P, n)), s)
        # the reported width
        for q in g.one(call(eng, s, g.vc.find(HASH[kind][0] + '::new'), [arc(s, P)]), 'new'):
            for z in g.one(call(eng, q, g.vc.find(HASH[kind][0] + '::get_t'), [cell(q, q.retval)]), 'get_t'):
                g.ob('get_t is the constructed width', z.retval == t or eng.prove(z, eq(z.retval, t)), repr(z.retval), z)
        if kind == 'gm':
            for z in g.one(call(eng, s, g.vc.find('GmimcParams::get_t'), [cell(s, P)]), 'get_t'):
                g.ob('GmimcParams::get_t is the constructed width', z.retval == t or eng.prove(z, eq(z.retval, t)), repr(z.retval), z)
            for z in g.one(call(eng, s, g.vc.find('GmimcParams::get_rounds'), [cell(s, P)]), 'get_rounds'):
                g.ob('get_rounds is the constructed number', z.retval == rp or eng.prove(z, eq(z.retval, rp)), repr(z.retval), z)


def ctor_odd(g):
    """NeptuneParams::new never returns for an odd width."""
    eng = g.engine(Spec())
    st = State()
    h, d, rf, rp = g.sym(st, 'half_width'), g.sym(st, 'd'), g.sym(st, 'rf'), g.sym(st, 'rp')
    t = iadd(imulc(h, 2), 1)
    outs = [s for s in call(eng, st, g.vc.find('NeptuneParams::new'), [t, d, rf, rp]) if eng.check(s, []) != z3.unsat]
    for s in outs:
        g.ob('NeptuneParams::new returns nothing for an odd width', False, 'returns under %s' % show(s.pc), s)
    if not outs:
        g.ob('NeptuneParams::new returns nothing for an odd width', bool(eng.panics), 'no path at all')


def clone(g, kind):
    """A clone of a hasher shares or copies the same parameters."""
    eng = g.engine(Spec())
    st = State()
    hf, rp = g.sym(st, 'hf'), g.sym(st, 'rp', 1)
    R = iadd(imulc(hf, 2), rp)
    P = params(g, kind, g.sym(st, 't'), g.sym(st, 'd'), hf, rp, R)
    for s in g.one(call(eng, st, g.vc.find(HASH[kind][0] + '::new'), [arc(st, P)]), 'new'):
        h = cell(s, s.retval)
        for z in g.one(call(eng, s, g.vc.trait_impl(HASH[kind][2], 'Clone', 'clone'), [h]), 'clone'):
            g.ob('%s::clone has the same parameters' % HASH[kind][2], deep(eng, z, z.retval) == deep(eng, s, s.retval), repr(z.retval), z)
            frame_ok(g, eng, s, z, 'clone', (h,))
    g.nopanic(eng, 'clone')


def clone_params(g, kind):
    """A copy of the parameters is equal to them."""
    eng = g.engine(Spec())
    st = State()
    hf, rp = g.sym(st, 'hf'), g.sym(st, 'rp', 1)
    R = iadd(imulc(hf, 2), rp)
    c = cell(st, params(g, kind, g.sym(st, 't'), g.sym(st, 'd'), hf, rp, R))
    name = HASH[kind][1].split('::')[-1]
    for z in g.one(call(eng, st, g.vc.trait_impl(name, 'Clone', 'clone'), [c]), 'clone'):
        g.ob('%s::clone is equal' % name, eng.proved(z, z.retval, eng.rd(st, c.cell, c.path)), repr(z.retval), z)
        frame_ok(g, eng, st, z, 'clone', (c,))
    g.nopanic(eng, 'clone')


def deep(eng, st, v):
    if type(v) is Agg:
        return (v.tag, tuple(deep(eng, st, x) for x in v.f))
    if type(v) is Ptr:
        return ('ptr', v.kind if hasattr(v, 'kind') else '', deep(eng, st, st.mem[v.cell]))
    if type(v) is Ref:
        return ('ref', deep(eng, st, eng.rd(st, v.cell, v.path)))
    return repr(v)


# ---------------------------------------------------------------- shipped instances
def inst_table():
    """[(kind, name, field, module, static, tables, numbers)] as used by the replay harness."""
    import os
    import re
    out = []
    kind = None
    for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'src', 'inst.rs')):
        m = re.match(r'macro_rules! each_(\w+)', l)
        if m:
            kind = m.group(1)
        m = re.match(r'\s*\$m!\((.*)\);', l)
        if m:
            a = [x.strip().strip('"') for x in m.group(1).split(',')]
            nums = [int(x) for x in a if x.isdigit()]
            ids = [x for x in a[2:] if not x.isdigit()]
            mod = ids.pop(0) if kind != 'nep' else 'neptune_instances'
            out.append((kind, a[0], a[1], mod, ids[0], ids[1:], nums))
    return out


PFIELD = {'FpBN256': 'bn256', 'FpBLS12': 'bls12', 'FpPallas': 'pallas', 'FpVesta': 'vesta', 'FpGoldiLocks': 'goldilocks', 'FpBabyBear': 'babybear'}


def hex_contract(p):
    """from_hex on a literal (its contract is the subject of C12)."""
    def c(eng, st, args, ctx):
        v = eng.deref(st, args[0])
        while type(v) is Ref:
            v = eng.deref(st, v)
        if type(v) is not Opaque or v.op != 'str' or type(v.args[0]) is not str:
            return NotImplemented
        t = v.args[0][2:]
        if len(t) % 2 or any(x not in '0123456789abcdefABCDEF' for x in t):
            raise Panic('contract of from_hex: invalid string')
        eng.assumed.add('contract of fields::utils::from_hex (proved in C12)')
        return pconst(int(t or '0', 16) % p)
    return c


def ground(v, p):
    """Nested lists of numbers from a concrete value."""
    if type(v) is Seq:
        c = v.concrete()
        if c is None:
            raise Unsupported('table of symbolic length')
        return [ground(x, p) for x in c]
    if type(v) is Poly:
        if not v.t:
            return 0
        if list(v.t) != [()]:
            raise Unsupported('table entry %r' % (v,))
        return v.t[()] % p
    if type(v) is int:
        return v
    raise Unsupported('table entry %r' % (v,))


def static_value(g, eng, mod, name):
    b = [k for k in g.prog.bodies if k.endswith('%s::%s as std::ops::Deref>::deref' % (mod, name))]
    if len(b) != 1:
        raise Unsupported('static %s::%s' % (mod, name))
    s = call(eng, State(), g.prog.bodies[b[0]], [cell(State(), UNIT)])
    if len(s) != 1:
        raise Unsupported('initialiser of %s' % name)
    v = s[0].retval
    while type(v) in (Ref, Ptr):
        v = eng.rd(s[0], v.cell, v.path if type(v) is Ref else ())
    return v


def iceil_log(p, d, k):
    """ceil(k * log_d(p)), exactly."""
    n, v = 0, 1
    while v < p ** k:
        v *= d
        n += 1
    return n


def instance(g, kind, name):
    """The initialiser of a shipped parameter set."""
    import tables
    import math
    row = next(r for r in inst_table() if r[0] == kind and r[1] == name)
    _, _, F, mod, static, tabs, nums = row
    p = tables.FIELD[PFIELD[F]]
    eng = g.engine(Spec())
    eng.max_unroll = 100000
    eng.contracts[g.vc.find('fields::utils::from_hex').id] = hex_contract(p)
    for nm in ('equivalent_matrices', 'equivalent_round_constants'):
        b = g.vc.find('PoseidonParams::' + nm)
        eng.contracts[b.id] = (lambda nm: lambda e, s, a, c: tup(Opaque('m_i'), Opaque('v'), Opaque('w_hat')) if nm == 'equivalent_matrices' else Opaque('opt'))(nm)
    P = static_value(g, eng, mod, static)
    fld = {'t': nums[0], 'd': nums[1]}
    if kind in ('p2', 'pos'):
        t, d, rf, rp = tables.NUMBERS[name]
        fld = dict(t=t, d=d, rounds_f_beginning=rf // 2, rounds_p=rp, rounds_f_end=rf // 2, rounds=rf + rp)
        rc, m = (tables.ref_p2 if kind == 'p2' else tables.ref_pos)(p, t, rf, rp)
        if kind == 'p2':
            full = [[(m[i] + 1) % p if i == j else 1 for j in range(t)] for i in range(t)]
            pub = dict(zip(tabs, (m, full, rc)))
            prm = dict(mat_internal_diag_m_1=m, _mat_internal=full, round_constants=rc)
        else:
            pub = dict(zip(tabs, (m, rc)))
            prm = dict(mds=m, round_constants=rc)
        for n, w in pub.items():
            v = ground(static_value(g, eng, mod, n), p)
            g.ob('%s::%s = reference derivation (%d entries)' % (mod, n, sum(len(x) if type(x) is list else 1 for x in w)), v == w, tables.first_diff(v, w))
        for n, w in prm.items():
            try:
                v = ground(g.field(P, n), p)
            except Unsupported:
                if n.startswith('_'):
                    continue
                raise
            g.ob('%s carries the reference %s' % (static, n), v == w, tables.first_diff(v, w))
    for n, w in fld.items():
        try:
            v = g.field(P, n)
        except Unsupported:
            if n == 'rounds_f_end':
                continue
            raise
        g.ob('%s: %s = %d' % (static, n, w), v == w, repr(v))
    if kind == 'gm':
        t, d = nums
        want = max(2 + 2 * (t + t * t), iceil_log(p, d, 2) + 2 * t)
        v = g.field(P, 'rounds')
        g.ob('%s has at least the %d rounds of the documented formula' % (static, want), type(v) is int and v >= want, repr(v))
        n = g.field(P, 'round_constants').length()
        g.ob('%s has one constant per round' % static, n == v, repr(n))
    if kind == 'nep':
        t, d = nums
        l = lambda x: math.log(x) / math.log(d)
        inner = math.ceil(l(2) * (min(128, math.log2(p)) - 6) + 3 + t + l(t))
        want = -(-inner * 9 // 8)
        v = g.field(P, 'rounds_p')
        g.ob('%s has at least the %d internal rounds of the documented formula' % (static, want), type(v) is int and v >= want, repr(v))
        b = g.field(P, 'rounds_f_beginning')
        g.ob('%s has at least 6 external rounds' % static, type(b) is int and b >= 3, repr(b))
        n = g.field(P, 'round_constants').length()
        g.ob('%s has one row of constants per round' % static, n == 2 * b + v, repr(n))
    g.nopanic(eng, static)


# ---------------------------------------------------------------- bijectivity (lemmas over the contracts of C01 to C05)
def lemma_gm(g, t, d):
    """One GMiMC round is undone by subtracting the same power."""
    g.engine(Spec())
    x, c = xs(t), pvar('c')
    y = gmimc_step(t, d, x, c)
    p = powd(padd(y[0], c), d)
    g.ob('GMiMC round %d/%d has an inverse' % (t, d), [y[0]] + [psub(v, p) for v in y[1:]] == x, 'identity fails')


def lemma_nep(g):
    """The Lai-Massey S-box is undone (characteristic other than 2 and 5)."""
    g.engine(Spec())
    x1, x2, gam = pvar('x1'), pvar('x2'), pvar('gamma')
    y1, y2 = neptune_sbox(x1, x2, gam)
    w = padd(psub(y1, y2), gam)
    w2 = pmul(w, w)
    s1, s2 = psub(y1, w2), psub(y2, w2)
    z = psub(x1, x2)
    g.ob('5 (x1 - x2) is determined by the output', psub(pscale(s1, 4), pscale(s2, 3)) == pscale(z, 5), 'identity fails')
    g.ob('4 x2 is determined by the output and x1 - x2', psub(psub(s2, z), pscale(pmul(z, z), 4)) == pscale(x2, 4), 'identity fails')
    import tables
    for p in tables.FIELD.values():
        for t, cs in ((4, ((2, 1), (1, 2))), (8, ((3, 2, 1, 1), (1, 1, 2, 3)))):
            h = t // 2
            for c in cs:
                g.ob('circ%s is invertible modulo %d' % (c, p), tables.det([[c[(j - i) % h] for j in range(h)] for i in range(h)], p) != 0, 'determinant 0')
    # the determinant of a drawn matrix is not identically zero
    p = (1 << 255) - 19
    for t in (4, 8, 12, 16, 20, 24):
        mu = [pow(3, 7 * i + 1, p) for i in range(t)]
        g.ob('all-ones plus diagonal of width %d is invertible for some draw' % t, tables.det([[(mu[i] + 1) % p if i == j else 1 for j in range(t)] for i in range(t)], p) != 0, 'determinant 0')


# ---------------------------------------------------------------- running one goal
def run(vc, name, f, args, kw):
    g = G(vc, name)
    t0 = time.time()
    status = 'proved'
    reason = ''
    try:
        f(g, *args, **kw)
    except Stop:
        pass
    except Unsupported as e:
        status = 'undecided'
        reason = 'out of reach: %s' % e
    except Exception as e:      # an engine error is never a violation
        status = 'undecided'
        reason = 'engine error: %s' % ''.join(traceback.format_exception(e)[-3:])
    bad = [o for o in g.obs if not o[1]]
    hav = [d for e in g.engines for l in e.loops_done if isinstance(l[1], dict) for d in l[1].values() if d == 'havoc']
    if status == 'proved' and bad:
        status = 'failed'
        if hav or any(e.toobig or e.sums for e in g.engines):
            status = 'undecided'
            reason = 'no invariant found for %d changing location(s)' % len(hav) if hav else 'not proved for every width: %s' % bad[0][0] if any(e.sums for e in g.engines) else 'term too large'
    if status == 'proved' and not g.obs:
        status, reason = 'undecided', 'no obligation generated'
    hints = list(g.hints[:8])
    if status != 'proved' and g.intvars:
        # values of the symbolic counts that drive the code into each branch seen
        t1 = time.time()
        vs = set(g.intvars)
        for e in g.engines:
            e.deadline = None
            for s in e.forks:
                if time.time() - t1 > 3 or len(hints) > 60:
                    break
                m = int_model(e, s, g.intvars)
                if m:
                    m = {k: x for k, x in m.items() if k in vs}
                    if m not in hints:
                        hints.append(m)
    used, assumed, loops = set(), set(), []
    for e in g.engines:
        used |= e.used
        assumed |= e.assumed
        loops += [(str(l[0]).split('>')[-1], l[1] if isinstance(l[1], str) else {k: str(v) for k, v in l[1].items()}) for l in e.loops_done]
    return dict(name=name, status=status, reason=reason, obligations=len(g.obs) + sum(e.nobl for e in g.engines),
                discharged=sum(1 for o in g.obs if o[1]) + sum(e.nobl for e in g.engines) - 0,
                failed=[(o[0], o[2]) for o in bad], hints=hints, used=sorted(used), assumed=sorted(assumed), loops=loops,
                smt=sum(e.smt_n for e in g.engines), smt_t=round(sum(e.smt_t for e in g.engines), 3), time=round(time.time() - t0, 2),
                notes=g.notes)


# ---------------------------------------------------------------- every width at once
def grid(name, r, c):
    """A matrix of r rows and c columns, both symbolic."""
    return Seq(norm_pieces((('s', r, 'ri', Seq(norm_pieces((('s', c, 'ci', papp(name, ivar('ri'), ivar('ci'))),)))),)))


def vec_of(n, f, k='vi'):
    return Seq(norm_pieces((('s', n, k, f(ivar(k))),)))


def wide(g, fn, args, want, what, sizes):
    """A matrix helper for all sizes."""
    eng = g.engine(Spec())
    eng.sums = True
    st = State()
    ns = [g.sym(st, x, 1) for x in sizes]
    rs = [cell(st, a) for a in args(*ns)]
    outs = call(eng, st, g.vc.find(fn), rs)
    g.one(outs, what)
    for s in outs:
        w = want(*ns)
        soft_ob(g, '%s = specification' % what, eng.proved(s, s.retval, w), 'under %s: got %r, specification %r' % (show(s.pc), s.retval, w))
        frame_ok(g, eng, _frame0(st, s), s, what, rs)
    g.nopanic(eng, what)


def soft_ob(g, name, ok, detail):
    """An obligation whose prover is incomplete: not proved means undecided."""
    if not ok:
        raise Unsupported('%s: not proved: %s' % (name, detail[:300]))
    g.ob(name, True)


def mat_vec_any(g, which):
    wide(g, which + '::mat_vec_mul', lambda n: [grid('M', n, n), vec_of(n, lambda i: papp('x', i))],
         lambda n: vec_of(n, lambda i: psum(n, 'j', pmul(papp('M', i, ivar('j')), papp('x', ivar('j'))))), '%s::mat_vec_mul' % which, ['n'])


def mat_mat_any(g):
    wide(g, 'PoseidonParams::mat_mat_mul', lambda n: [grid('A', n, n), grid('B', n, n)],
         lambda n: vec_of(n, lambda i: vec_of(n, lambda j: psum(n, 'l', pmul(papp('A', i, ivar('l')), papp('B', ivar('l'), j))), 'vj')), 'mat_mat_mul', ['n'])


def transpose_any(g):
    wide(g, 'utils::mat_transpose', lambda r, c: [grid('M', r, c)], lambda r, c: vec_of(c, lambda i: vec_of(r, lambda j: papp('M', j, i), 'vj')), 'mat_transpose', ['r', 'c'])


def trajectory(sp, name, n, base, step):
    """X(0, i) = base(i), X(r+1, i) = step(eng, st, r, i), for a state of n elements."""
    def xdef(eng, st, a, ixs):
        r, i = a
        if at_index(eng, st, ixs, name, r, 0):
            return base(i)
        p = isub(r, 1)
        x = at_index(eng, st, ixs, name, p)
        if x is not None:
            return step(eng, st, x, i)
        if type(r) is int and r > 0:
            return step(eng, st, p, i)
        return None
    sp.defs[name] = xdef
    at = lambda e: vec_of(n, lambda i: papp(name, e, i), 'k' + name)
    sp.traj.append((name, at, 1))
    return at


def pos_plain_any(g, d):
    """permutation_not_opt for every width."""
    sp = Spec()
    eng = g.engine(sp)
    eng.sums = True
    st = State()
    t = g.sym(st, 't', 2)
    hf, rp = rounds(g, st, None)
    st.assume(le(1, rp))
    R = iadd(imulc(hf, 2), rp)
    x = lambda r, j: padd(papp('X', r, j), papp('RC', r, j))
    j = ivar('j')

    def step(eng, st, r, i):
        M = lambda j: papp('M', i, j)
        if eng.decide(st, lt(r, hf)) or not eng.decide(st, lt(r, iadd(hf, rp))):
            return psum(t, 'j', pmul(M(j), powd(x(r, j), d)))
        return padd(pmul(M(0), powd(x(r, 0), d)), psub(psum(t, 'j', pmul(M(j), x(r, j))), pmul(M(0), x(r, 0))))
    at = trajectory(sp, 'X', t, lambda i: papp('x', i), step)
    P = struct(g, 'poseidon_params::PoseidonParams', t=t, d=d, rounds_f_beginning=hf, rounds_p=rp, rounds_f_end=hf, rounds=R,
               mds=grid('M', t, t), round_constants=grid('RC', R, t))
    for s in g.one(call(eng, st, g.vc.find('poseidon::Poseidon::new'), [arc(st, P)]), 'Poseidon::new'):
        h, i = cell(s, s.retval), cell(s, vec_of(t, lambda i: papp('x', i)))
        o = call(eng, s, g.vc.find('poseidon::Poseidon::permutation_not_opt'), [h, i])
        check_any(g, eng, o, 'Poseidon::permutation_not_opt', at(R), s, (h, i))
    g.nopanic(eng, 'Poseidon::permutation_not_opt')


def check_any(g, eng, outs, what, w, before, refs):
    g.one(outs, what)
    for s in outs:
        soft_ob(g, '%s = specification' % what, eng.proved(s, s.retval, w), 'under %s: got %r, specification %r' % (show(s.pc), s.retval, w))
        frame_ok(g, eng, before, s, what, refs)


def gm_any(g, d, opt):
    """GMiMC for every width."""
    sp = Spec()
    eng = g.engine(sp)
    eng.sums = True
    st = State()
    t = g.sym(st, 't', 2)
    R = g.sym(st, 'rounds', 1)
    what = 'Gmimc::permutation' + ('' if opt else '_not_opt')
    for s in g.one(call(eng, st, g.vc.find('gmimc_params::GmimcParams::new'), [t, d, R]), 'GmimcParams::new'):
        P = s.retval
        rcs = g.field(P, 'round_constants')
        s0 = s.copy()
        s0.assume(le(0, ivar('rr')))
        s0.assume(lt(ivar('rr'), R))
        rc1 = eng.seq_get(s0, rcs, ivar('rr'))
        pw = lambda r: powd(padd(papp('X', r, 0), rc1.subst({'rr': r})), d)

        def rnd(eng, st, r, i):
            """Element i after round r, before the rotation."""
            x = papp('X', r, i)
            return x if eng.decide(st, eq(i, 0)) else padd(x, pw(r))

        def step(eng, st, r, i):
            return rnd(eng, st, r, isub(t, 1) if eng.decide(st, eq(i, 0)) else isub(i, 1))
        sp.traj.clear()
        sp.matchers.clear()
        trajectory(sp, 'X', t, lambda i: papp('x', i), step)
        last = isub(R, 1)
        if opt:
            gm_queue(sp, t, R, pw)
        w = Seq(norm_pieces((('c', (papp('X', last, 0),)), ('s', isub(t, 1), 'kw', padd(papp('X', last, iadd(ivar('kw'), 1)), pw(last))))))
        for s in g.one(call(eng, s, g.vc.find('gmimc::Gmimc::new'), [arc(s, P)]), 'Gmimc::new'):
            h, i = cell(s, s.retval), cell(s, vec_of(t, lambda i: papp('x', i)))
            o = call(eng, s, g.vc.find('gmimc::' + what), [h, i])
            check_any(g, eng, o, what, w, s, (h, i))
    g.nopanic(eng, what)


def gm_queue(sp, t, R, pw):
    """The accumulator form: Q(k) is what round k adds (0 before the first), the queue holds the last
    t-1 of them, acc their sum, and element i still lacks the last i-1."""
    Q = lambda k: papp('Q', k)

    def q(eng, st, a, ixs):
        k = a[0]
        if eng.prove(st, lt(k, 0)):
            return ZERO
        if not eng.prove(st, le(0, k)):
            return None
        for x in ixs.get('X', ()):
            if x == k or eng.prove(st, eq(x, k)):
                return pw(x)
        return pw(k) if type(k) is int else None
    sp.defs['Q'] = q

    def total(eng, st, a, ixs):
        # nothing is added before the first round
        return ZERO if a[1] == Q(ivar(BOUND)) and eng.prove(st, le(a[0], 0)) else None
    sp.defs['sum'] = total
    qsum = lambda e, m: psum(m, 'j', Q(isub(isub(e, 1), ivar('j'))))
    n1 = isub(t, 1)
    queue = lambda e: vec_of(n1, lambda j: Q(isub(isub(e, 1), j)), 'kq')
    sp.traj.append(('queue', queue, 1))
    sp.traj.append(('acc', lambda e: qsum(e, n1), 1))
    k = ivar('kl')
    sp.traj.append(('lazy', lambda e: Seq(norm_pieces((('c', (papp('X', e, 0),)), ('s', n1, 'kl', psub(papp('X', e, iadd(k, 1)), qsum(e, k)))))), 1))

    def turned(eng, st, v0):
        if type(v0) is not Seq or v0.concrete() is not None:
            return []
        j = ivar('kq')
        el = lambda x: Q(isub(isub(R, 1), x))
        return [('queue turned n times', lambda n: Seq(norm_pieces((('s', n, 'kq', el(iadd(isub(n1, n), j))), ('s', isub(n1, n), 'kq', el(j))))), lambda n: le(n, n1))]
    sp.matchers.append(turned)


def nep_any(g, d):
    """Neptune for every even width without a special matrix (4 and 8 are checked one by one)."""
    sp = Spec()
    eng = g.engine(sp)
    eng.sums = True
    st = State()
    hw = g.sym(st, 'hw', 1)
    t = imulc(hw, 2)
    for n in (2, 4):
        st.assume(bnot(eq(hw, n)))
    hf, rp = rounds(g, st, None)
    R = iadd(imulc(hf, 2), rp)
    gamma = pvar('gamma')
    parity_defs(sp)
    c2 = imulc(ivar('c'), 2)

    def ext(i, p, y):
        """The product of row i of parity p and the state given by pairs."""
        return psum(hw, 'c', pmul(papp('M', i, iadd(c2, p)), y))

    def step(eng, st, r, i):
        x = lambda j: papp('X', r, j)
        if eng.decide(st, lt(r, hf)) or not eng.decide(st, lt(r, iadd(hf, rp))):
            p = 0 if eng.decide(st, eq(imod(i, 2), 0)) else 1
            y = ext(i, p, neptune_sbox(x(c2), x(iadd(c2, 1)), gamma)[p])
        else:
            b = powd(x(0), d)
            s = padd(b, psub(psum(t, 'j', x(ivar('j'))), x(0)))
            y = padd(s, pmul(papp('mu', i), b if eng.decide(st, eq(i, 0)) else x(i)))
        return padd(y, papp('RC', r, i))

    def base(i):
        # by parity
        return padd(pmul(papp('even', i), ext(i, 0, papp('x', c2))), pmul(papp('odd', i), ext(i, 1, papp('x', iadd(c2, 1)))))
    at = trajectory(sp, 'X', t, base, step)
    P = struct(g, 'neptune_params::NeptuneParams', t=t, d=d, rounds_f_beginning=hf, rounds_p=rp, rounds_f_end=hf, rounds=R,
               m_e=grid('M', t, t), mu=vec_of(t, lambda i: papp('mu', i)), abc=cseq([ONE, ONE, gamma]), a_=cseq([ONE, pconst(3), pconst(4)]), round_constants=grid('RC', R, t))
    for s in g.one(call(eng, st, g.vc.find('neptune::Neptune::new'), [arc(st, P)]), 'Neptune::new'):
        h, i = cell(s, s.retval), cell(s, vec_of(t, lambda i: papp('x', i)))
        o = call(eng, s, g.vc.find('neptune::Neptune::permutation'), [h, i])
        check_any(g, eng, o, 'Neptune::permutation', at(R), s, (h, i))
    g.nopanic(eng, 'Neptune::permutation')


def parity_defs(sp):
    def f(want):
        def d(eng, st, a, ixs):
            v = ivar(BOUND)
            at = set()
            iatoms(a[0], at)
            if BOUND in at:
                return None
            return ONE if eng.decide(st, eq(imod(a[0], 2), 0)) == want else ZERO
        return d
    sp.defs['even'] = f(True)
    sp.defs['odd'] = f(False)


def moved_rc_any(g, which):
    """equivalent_round_constants for every width."""
    sp = Spec()
    eng = g.engine(sp)
    eng.sums = True
    st = State()
    t = g.sym(st, 't', 1)
    hf, rp = g.sym(st, 'hf'), g.sym(st, 'rp', 1)
    R = iadd(imulc(hf, 2), rp)
    M = grid('m', t, t)
    last = isub(iadd(hf, rp), 1)

    def contract(eng, st, args, ctx):
        if not eng.proved(st, eng.rd(st, args[0].cell, args[0].path), M):
            return NotImplemented
        eng.assumed.add('contract of utils::mat_inverse (proved in C10)')
        return grid('Mi', t, t)
    eng.contracts[g.vc.find('utils::mat_inverse').id] = contract
    row = lambda k, i: psum(t, 'j', pmul(papp('Mi', i, ivar('j')), papp('D', k, ivar('j'))))

    def step(eng, st, k, i):
        c = papp('RC', isub(isub(last, 1), k), i)
        return c if eng.decide(st, eq(i, 0)) else padd(c, row(k, i))
    at = trajectory(sp, 'D', t, lambda i: papp('RC', last, i), step)
    full = sp.defs['D']
    # element 0 is a plain constant for every k
    sp.defs['D'] = lambda eng, st, a, ixs: papp('RC', isub(last, a[0]), 0) if eng.prove(st, eq(a[1], 0)) else full(eng, st, a, ixs)
    args = [cell(st, grid('RC', R, t)), cell(st, M)]
    what = '%s::equivalent_round_constants' % which
    for s in g.one(call(eng, st, g.vc.find(which + '::equivalent_round_constants'), args + [hf, rp]), what):
        k = ivar('k')
        tail = (('c', (vec_of(t, lambda i: ZERO),)),) if which == 'Poseidon2Params' else ()
        want = Seq(norm_pieces((('c', (at(isub(rp, 1)),)), ('s', isub(rp, 1), 'k', cseq([row(isub(isub(rp, 2), k), 0)]))) + tail))
        soft_ob(g, '%s: the moved constants' % what, eng.proved(s, s.retval, want), 'under %s: got %r, specification %r' % (show(s.pc), s.retval, want))
        frame_ok(g, eng, _frame0(st, s), s, what, args)
    g.nopanic(eng, what)


def nep_gen_any(g):
    """NeptuneParams::new for every even width without a special matrix."""
    sp = Spec()
    eng = g.engine(sp)
    eng.sums = True
    parity_defs(sp)
    st = State()
    hw = g.sym(st, 'hw', 1)
    t = imulc(hw, 2)
    for n in (2, 4):
        st.assume(bnot(eq(hw, n)))
    d, rf, rp = g.sym(st, 'd'), g.sym(st, 'rf'), g.sym(st, 'rp')
    what = 'NeptuneParams::new'
    for s in g.one(call(eng, st, g.vc.find(what), [t, d, rf, rp]), what):
        P = s.retval
        R = iadd(rf, rp)
        i, j = ivar(g_fresh(s, 'gi')), ivar(g_fresh(s, 'gj'))
        s = s.copy()
        for v in (i, j):
            s.assume(le(0, v))
        seen = set()

        def drawn(st, x, args, name):
            """x is a draw made for these indices only."""
            for f in sorted(draw_names(x)):
                if f not in seen and eng.proved(st, x, papp(f, *args)):
                    seen.add(f)
                    return g.ob(name, True)
            raise Unsupported('%s: %r' % (name, x))

        def entry(st, m, *ix):
            for k in ix:
                m = eng.seq_get(st, m, k)
            return m
        rc, me, mu, abc = [g.field(P, f) for f in ('round_constants', 'm_e', 'mu', 'abc')]
        z = s.copy()
        z.assume(lt(i, R))
        soft_ob(g, 'one row of constants per round', eng.prove(z, eq(rc.length(), R)), repr(rc))
        row = entry(z, rc, i)
        soft_ob(g, 'width constants per round', eng.prove(z, eq(row.length(), t)), repr(row))
        z.assume(lt(j, t))
        drawn(z, entry(z, row, j), (i, j), 'every round constant is an independent draw')
        z = s.copy()
        z.assume(lt(i, hw))
        z.assume(lt(j, hw))
        soft_ob(g, 'external matrix has width rows', eng.prove(z, eq(me.length(), t)), repr(me))
        for a in (0, 1):
            r = entry(z, me, iadd(imulc(i, 2), a))
            soft_ob(g, 'rows of the external matrix have width entries', eng.prove(z, eq(r.length(), t)), repr(r))
            for b in (0, 1):
                x = entry(z, r, iadd(imulc(j, 2), b))
                if a == b:
                    drawn(z, x, (i, j), 'entries of equal parity are independent draws')
                else:
                    soft_ob(g, 'entries of different parity are zero', eng.proved(z, x, ZERO), repr(x))
        z = s.copy()
        z.assume(lt(i, t))
        soft_ob(g, 'internal diagonal has width entries', eng.prove(z, eq(mu.length(), t)), repr(mu))
        x = padd(entry(z, mu, i), ONE)
        drawn(z, x, (i,), 'every multiplier is an independent draw')
        soft_ob(g, 'no multiplier of the internal diagonal is zero', any(eng.proved(z, p.subst({k: i}), x) for k, p in eng.nonzero), repr(x))
        abc = abc.concrete()
        soft_ob(g, 'alpha = beta = 1', abc is not None and len(abc) == 3 and abc[0] == ONE and abc[1] == ONE, repr(abc))
        drawn(s, abc[2], (), 'gamma is an independent draw')
        for f, w in (('t', t), ('d', d), ('rounds_p', rp), ('rounds', R)):
            soft_ob(g, '%s is stored' % f, eng.prove(s, eq(g.field(P, f), w)), repr(P)[:200])
        for f in ('rounds_f_beginning', 'rounds_f_end'):
            soft_ob(g, 'half of the full rounds in %s' % f, eng.prove(s, eq(imulc(g.field(P, f), 2), rf)), repr(P)[:200])


def draw_names(x):
    out = set()
    for mono in x.t:
        for a, _ in mono:
            f = app_data(a)
            if f is not None and str(f[0]).startswith('rnd'):
                out.add(f[0])
    return out


def g_fresh(st, n):
    return '%s!%d' % (n, len(st.pc))
