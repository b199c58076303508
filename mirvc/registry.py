"""The properties and their proof goals."""
import goals as GO
import tables as T

FIELDS = ['17', '101', 'gold', 'bls']


class Goal:
    def __init__(self, f, *args, prof='debug', cost=1, cases=None, **kw):
        self.f = f
        self.args = args
        self.kw = kw
        self.prof = prof
        self.cost = cost
        self.cases = cases
        self.last = f.__name__.endswith('_any')     # every width at once: after the goals on single widths
        self.name = '%s(%s)%s' % (f.__name__, ', '.join([str(a) for a in args] + ['%s=%s' % k for k in kw.items()]), '' if prof == 'debug' else ' [release]')


class Prop:
    def __init__(self, goals, level='proof', harness=True, profiles=('debug', 'release'), secs=12, per_goal=150, table=None, trusted=(), assumptions=(), rule='', harness_run=True, table_profiles=('debug',), explanation=''):
        self.explanation = explanation
        self.table_profiles = table_profiles
        self.harness_run = harness_run
        self.goals = goals
        self.level = level
        self.harness = harness
        self.profiles = profiles
        self.secs = secs
        self.per_goal = per_goal
        self.table = table
        self.trusted = BASE + list(trusted)
        self.assumptions = ASSUME + list(assumptions)
        self.rule = rule


BASE = [
    'rustc (front end and MIR construction, nightly, -Zmir-opt-level=0) and the dumper /verif/mirdump',
    'the verification-condition generator /verif/mirvc (symbolic execution of MIR, loop cuts, polynomial normaliser)',
    'z3 4.x through python3-vt',
    'the models of std functions in /verif/models and mirvc/stdmodel.py',
]
ASSUME = [
    'ark_ff::PrimeField operations (+, -, *, square, double, inverse, ==, zero, one, from) are those of a commutative field; no further property of the field is used',
    'round numbers and lengths are below 2^30 (no wrap-around of usize in index arithmetic)',
]


def fam(kind, t, d, hf='hf', rp='rp', dos=('spec',)):
    """Harness cases for a failed goal of one permutation."""
    def mk(hints, few=False):
        out = []
        nums = []
        for h in hints:
            if kind == 'gm':
                nums.append((0, h.get('rounds', 3)))
            else:
                nums.append((2 * h.get('hf', 2), h.get('rp', 3)))
        nums += [(0, 1), (0, 2), (0, 7), (0, 30)] if kind == 'gm' else [(2, 1), (4, 3), (8, 22), (0, 1), (2, 0), (0, 0)]
        for rf, rp_ in dict.fromkeys(nums):
            if rf > 3000 or rp_ > 20000:
                continue
            for f in FIELDS[::2] if few else FIELDS:
                for s in range(2 if few else 12):
                    for do in dos:
                        out.append('%s f=%s t=%d d=%d rf=%d rp=%d do=%s seed=%d' % (kind, f, t, d, rf, rp_, do, 7 * s + 1))
        return out
    return mk


def any_width(kind, d):
    """Harness cases for a goal on every width."""
    def mk(hints, few=False):
        out = []
        for h in hints:
            t = 2 * h.get('hw', 3) if kind == 'nep' else h.get('t', 3)
            if not 2 <= t <= (4000 if kind == 'gm' else 160) or h.get('rp', 1) * t * t > 10 ** 7 or h.get('rounds', 1) * t > 10 ** 7 or h.get('hf', 1) * t * t > 10 ** 7:
                continue
            rf, rp = (0, h.get('rounds', 3)) if kind == 'gm' else (2 * h.get('hf', 2), h.get('rp', 3))
            for f in FIELDS[::2]:
                out.append('%s f=%s t=%d d=%d rf=%d rp=%d do=spec seed=%d' % (kind, f, t, d, rf, rp, t % 7 + 1))
        return out
    return mk


W2 = (2, 3, 4, 8, 12, 16, 20, 24)
REL = ((3, 5), (4, 7), (8, 3))


def c01(q):
    return [Goal(GO.p2, t, d, cost=t, cases=fam('p2', t, d)) for t in W2 for d in (3, 5, 7, 11)] + \
        [Goal(GO.p2, t, d, prof='release', cases=fam('p2', t, d)) for t in W2 for d in (5, 7)]


def c02(q):
    return [Goal(GO.pos_plain, t, d, cost=t * t, cases=fam('pos', t, d)) for t in range(2, 25) for d in (3, 5, 7)] + \
        [Goal(GO.pos_plain, t, 5, cost=t * t, cases=fam('pos', t, 5)) for t in ((25, 32, 33) if q else range(25, 50))] + \
        [Goal(GO.pos_plain, t, d, prof='release', cases=fam('pos', t, d)) for t, d in REL] + \
        [Goal(GO.pos_plain_any, d, cost=3000, cases=any_width('pos', d)) for d in (3, 5, 7)] + [Goal(GO.pos_plain_any, 5, prof='release', cost=3000, cases=any_width('pos', 5))]


def c03(q):
    ts = [(t, d) for t in (2, 3, 4) for d in (3, 5, 7)] + [(5, 5), (6, 3), (8, 5), (8, 7), (12, 7), (16, 7)]
    if not q:
        ts = [(t, d) for t in range(2, 17) for d in (3, 5, 7)] + [(t, 7) for t in range(17, 25)]
    return [Goal(GO.pos_opt, t, d, cost=t * t * t, cases=fam('pos', t, d, dos=('opt',))) for t, d in ts] + \
        [Goal(GO.pos_opt, t, d, prof='release', cost=t, cases=fam('pos', t, d, dos=('opt',))) for t, d in REL]


def c04(q):
    return [Goal(GO.gm, t, d, o, cost=t, cases=fam('gm', t, d)) for t in range(2, 25) for d in (3, 5, 7) for o in (True, False)] + \
        [Goal(GO.gm, t, 5, o, cost=t, cases=fam('gm', t, 5)) for t in ((25, 28, 31, 32, 33, 48, 64, 65) if q else range(25, 100)) for o in (True, False)] + \
        [Goal(GO.gm, t, d, o, prof='release', cases=fam('gm', t, d)) for t, d in REL for o in (True, False)] + \
        [Goal(GO.gm_any, d, o, prof=p, cost=500, cases=any_width('gm', d)) for d in (3, 5, 7) for o in (True, False) for p in ('debug', 'release')]


def c05(q):
    return [Goal(GO.nep, t, d, cost=t * t, cases=fam('nep', t, d)) for t in range(2, 25, 2) for d in (3, 5, 7)] + \
        [Goal(GO.nep, t, 5, cost=t * t, cases=fam('nep', t, 5)) for t in ((26, 32, 34, 64) if q else range(26, 67, 2))] + \
        [Goal(GO.nep, t, d, prof='release', cases=fam('nep', t, d)) for t, d in ((4, 5), (8, 7), (6, 3))] + \
        [Goal(GO.nep_any, d, prof=p, cost=5000, cases=any_width('nep', d)) for d, p in ((3, 'debug'), (5, 'debug'), (7, 'debug'), (5, 'release'))]


def shipped(kind):
    return sorted({(r[6][0], r[6][1]) for r in GO.inst_table() if r[0] == kind})


def inst(kind, do):
    def mk(hints, few=False):
        return ['%s i=%s do=%s seed=%d' % (r[0], r[1], do, s) for r in GO.inst_table() if r[0] == kind for s in (1, 2, 3)]
    return mk


def c06(q):
    out = [Goal(GO.p2, t, d, cost=t, cases=inst('p2', 'inv')) for t, d in shipped('p2')]
    out += [Goal(GO.pos_plain, t, d, cost=t * t, cases=inst('pos', 'inv')) for t, d in shipped('pos')]
    out += [Goal(GO.pos_opt, t, d, cost=t ** 3, cases=inst('pos', 'inv')) for t, d in shipped('pos') if t <= 8 or not q]
    out += [Goal(GO.gm, t, d, o, cost=t, cases=inst('gm', 'inv')) for t, d in shipped('gm') for o in (True, False)]
    out += [Goal(GO.nep, t, d, cost=t * t, cases=inst('nep', 'inv')) for t, d in shipped('nep')]
    out += [Goal(GO.lemma_gm, t, d) for t, d in shipped('gm')] + [Goal(GO.lemma_nep)]
    return out


def trees(w):
    def mk(hints, few=False):
        out = []
        ns = []
        for h in hints:
            n = h.get('s', 0)
            ns += [x for x in (n, n + 1, n - 1, 2 * n) if 1 <= x <= 700000]
        for n in list(dict.fromkeys(ns))[:60]:
            for s in (1, 2, 3):
                if w == 'f2':
                    out.append('f2 dg=%s s=%d,2,%d seed=%d' % (('sha256', 'tiny', 'sha3')[s % 2], n, n, s))
                else:
                    out.append('tree of=%s f=%s s=%d,2,%d seed=%d' % (w, ('gold', '17', 'bls')[s - 1], n, n, s))
        return out
    return mk


def c07(q):
    return [Goal(GO.merkle, w, prof=p, cost=9, cases=trees(w)) for w in ('fp', 'orchard', 'sapling') for p in ('debug', 'release')]


def c08(q):
    return [Goal(GO.merkle, 'f2', prof=p, cost=9, cases=trees('f2')) for p in ('debug', 'release')]


KINDS = ('p2', 'pos', 'gm', 'nep')


def c09(q):
    return [Goal(GO.compress, k, prof=p) for k in KINDS for p in ('debug', 'release')]


def c10(q):
    return [Goal(GO.inverse, n, prof=p, cost=n) for n in range(1, 25) for p in ('debug', 'release')] + [Goal(GO.inverse, n, cost=n) for n in ((25, 28) if q else range(25, 36))]


def helper_any(op):
    def mk(hints, few=False):
        out = []
        for h in hints:
            a, b = h.get('t', h.get('n', h.get('r', 3))), h.get('c', 3)
            if not (1 <= a <= 150 and 1 <= b <= 1000) or op == 'mm' and a > 100 or (h.get('rp', 1) + h.get('hf', 1)) * a * a > 10 ** 7:
                continue
            out += ['helper f=%s op=%s a=%d b=%d rf=%d rp=%d seed=%d' % (f, op, a, b, h.get('hf', 1), h.get('rp', 2), a + b) for f in ('gold', 'bls')]
        return out
    return mk


def c11(q):
    out = []
    for r in range(1, 25):
        for c in (range(1, 25) if not q else sorted({1, 2, 3, r, 24, 25 - r})):
            out.append(Goal(GO.transpose, r, c))
    for n in range(1, 25):
        out += [Goal(GO.mat_vec, n, 'PoseidonParams'), Goal(GO.mat_vec, n, 'Poseidon2Params'), Goal(GO.mat_mat, n, cost=n * n)]
    for n in range(2, 25):
        out += [Goal(GO.moved_rc, 'Poseidon2Params', n, cost=n), Goal(GO.moved_rc, 'PoseidonParams', n, cost=n)]
    out += [Goal(GO.transpose, a, b) for a, b in ((32, 33), (33, 2), (65, 3), (1, 64))] + [Goal(GO.mat_vec, n, w) for n in (25, 32, 33, 65) for w in ('PoseidonParams', 'Poseidon2Params')]
    out += [Goal(GO.mat_mat, n, cost=n * n) for n in ((25, 28) if q else range(25, 36))]
    out += [Goal(GO.moved_rc, w, 4, prof='release') for w in ('Poseidon2Params', 'PoseidonParams')]
    out += [Goal(GO.transpose, 3, 5, prof='release'), Goal(GO.mat_mat, 5, prof='release')]
    out += [Goal(GO.mat_vec, 5, w, prof='release') for w in ('Poseidon2Params', 'PoseidonParams')]
    # every dimension at once
    for p in ('debug', 'release'):
        out += [Goal(GO.moved_rc_any, w, prof=p, cost=400, cases=helper_any('eq')) for w in ('Poseidon2Params', 'PoseidonParams')]
        out += [Goal(GO.mat_vec_any, w, prof=p, cases=helper_any('mv')) for w in ('Poseidon2Params', 'PoseidonParams')] + [Goal(GO.mat_mat_any, prof=p, cost=300, cases=helper_any('mm')), Goal(GO.transpose_any, prof=p, cases=helper_any('tr'))]
    return out


def c12(q):
    return [Goal(GO.from_hex, prof=p) for p in ('debug', 'release')]


def c13(q):
    return [Goal(GO.instance, r[0], r[1], cost=r[6][0]) for r in GO.inst_table() if r[0] in ('p2', 'pos')]


def gen_width(hints, few=False):
    out = []
    for h in hints:
        t = 2 * h.get('hw', 3)
        if 2 <= t <= 400 and h.get('rp', 1) * t <= 10 ** 6 and h.get('rf', 2) * t <= 10 ** 6:
            out += ['gen of=nep f=%s t=%d d=%d rf=%d rp=%d' % (f, t, h.get('d', 5) if h.get('d') in (3, 5, 7) else 5, h.get('rf', 2) // 2 * 2, h.get('rp', 1)) for f in ('bls', '17')]
    return out


def c14(q):
    return [Goal(GO.nep_gen_any, prof=p, cost=2000, cases=gen_width) for p in ('debug', 'release')] + [Goal(GO.gm_gen, prof=p) for p in ('debug', 'release')] + [Goal(GO.nep_gen, t, prof=p, cost=t) for t in tuple(range(2, 25, 2)) + ((26, 32, 34, 64) if q else tuple(range(26, 67, 2))) for p in ('debug', 'release')] + \
        [Goal(GO.instance, r[0], r[1]) for r in GO.inst_table() if r[0] in ('gm', 'nep')]


VARS = [(k, v) for k in KINDS for v in GO.VARIANTS[k]]


def lens(k):
    def mk(hints, few=False):
        out = []
        for h in hints:
            # the width, length, degree and rounds of the branch
            t, n = h.get('t', 4), h.get('n')
            if n is None or not (2 <= t <= 64 and n <= 5000) or h.get('hf', 1) > 500 or h.get('rp', 1) > 500 or (k == 'nep' and t % 2) or (k == 'p2' and t not in W2):
                continue
            for t_, n_ in ((t, n), (n, t)) if k == 'gm' and 2 <= n <= 64 else ((t, n),):
                for d in dict.fromkeys((h.get('d', 5) if h.get('d', 5) in (3, 5, 7) else 5, 5, 3)):
                    for f in ('101', 'bls'):
                        out.append('%s f=%s t=%d d=%d rf=%d rp=%d do=len n=%d seed=1' % (k, f, t_, d, 2 * h.get('hf', 2), max(1, h.get('rp', 3)), n_))
        return out + ['%s f=%s t=%d d=5 rf=4 rp=3 do=len seed=%d' % (k, f, t, s) for t in (2, 4, 8, 12, 3) if not (k == 'nep' and t % 2) for f in ('101', 'bls') for s in (1, 2)]
    return mk


def wide_goals():
    """Result, length and frame at every width."""
    return [Goal(GO.gm_any, 5, o, cost=500, cases=any_width('gm', 5)) for o in (True, False)] + [Goal(GO.pos_plain_any, 5, cost=3000, cases=any_width('pos', 5)), Goal(GO.nep_any, 5, cost=5000, cases=any_width('nep', 5))]


def c15(q):
    out = [Goal(GO.wrong_length, k, v, prof=p, cases=lens(k)) for k, v in VARS for p in ('debug', 'release')]
    for p in ('debug', 'release'):
        out += [Goal(GO.right_length, 'p2', t, d, prof=p, cases=lens('p2')) for t in W2 for d in (3, 5, 7, 11)]
        out += [Goal(GO.right_length, 'gm', t, d, prof=p, cases=lens('gm')) for t in (2, 3, 4, 8, 13, 24) for d in (3, 5, 7)]
        out += [Goal(GO.right_length, 'nep', t, d, prof=p, cases=lens('nep')) for t in (2, 4, 6, 8, 12, 24) for d in (3, 5, 7)]
        out += [Goal(GO.pos_plain, t, d, prof=p, cost=t, cases=lens('pos')) for t in (2, 3, 4, 8) for d in (3, 5, 7)]
        out += [Goal(GO.pos_opt, t, d, prof=p, cost=t * t, cases=lens('pos')) for t in (2, 3, 4) for d in (3, 5, 7)]
    return out + wide_goals()


def c16(q):
    out = []
    for p in ('debug', 'release'):
        out += [Goal(GO.ctor, k, prof=p) for k in ('p2', 'pos', 'gm')]
        out += [Goal(GO.ctor, 'nep', t, prof=p, cost=t) for t in range(2, 25, 2)] + [Goal(GO.ctor_odd, prof=p)]
    # every accepted degree can be evaluated
    out += [Goal(GO.right_length, 'p2', t, d) for t in W2 for d in (3, 5, 7, 11)]
    out += [Goal(GO.right_length, k, 4, d) for k in ('gm', 'nep') for d in (3, 5, 7)]
    out += [Goal(GO.pos_plain, 3, d) for d in (3, 5, 7)] + [Goal(GO.pos_opt, 3, d) for d in (3, 5, 7)]
    return out


def c18(q):
    out = [Goal(f, k, prof=p) for f in (GO.clone, GO.clone_params) for k in KINDS for p in ('debug', 'release')]
    out += [Goal(GO.compress, k) for k in KINDS]
    out += [Goal(GO.p2, t, d, cost=t) for t in W2 for d in ((3, 5, 7, 11) if t < 5 else (5,))]
    out += [Goal(GO.pos_plain, t, d, cost=t) for t in (2, 3, 4, 8, 12) for d in (3, 5, 7)]
    out += [Goal(GO.pos_opt, t, d, cost=t) for t in (2, 3, 4) for d in (3, 5, 7)]
    out += [Goal(GO.gm, t, d, o) for t in (2, 3, 4, 8, 16) for d in (3, 5, 7) for o in (True, False)]
    out += [Goal(GO.nep, t, d) for t in (2, 4, 6, 8, 12) for d in (3, 5, 7)]
    out += [Goal(GO.merkle, w, cost=90) for w in ('fp', 'orchard', 'sapling', 'f2')]
    return out + wide_goals()


PIT = 'identities between rational functions are decided by evaluation at random points modulo 2^255-19 and 2^521-1 (Schwartz-Zippel; error below 2^-200 per identity)'
MINV = 'contract of utils::mat_inverse (result * input = identity), proved in C10'

PROPS = {
    'C01': Prop(c01, rule='random widths, degrees, round numbers, constants, inputs over small and shipped fields; shipped instances with special inputs; compared with an independent evaluation of the specification'),
    'C02': Prop(c02, rule='as C01 for the plain Poseidon permutation'),
    'C03': Prop(c03, per_goal=200, trusted=[PIT], assumptions=[MINV], rule='random matrices, constants, round numbers and inputs; optimised against plain evaluation and against the specification'),
    'C04': Prop(c04, rule='as C01 for both GMiMC evaluations'),
    'C05': Prop(c05, per_goal=240, rule='as C01 for Neptune'),
    'C06': Prop(c06, table=T.c06, trusted=[PIT, 'x -> x^d is a bijection of F_p when gcd(d, p-1) = 1'], assumptions=['the matrices drawn for the Neptune instances are invertible (true for all but a negligible fraction of the draws; the lemma shows that the determinants are not identically zero)'],
                rule='shipped instances: the inverse computed from the parameters is applied to the output of random and special inputs'),
    'C07': Prop(c07, rule='trees of 1 to 1100 leaves with a tagging compression function, compared with a recursive definition; shipped hashers on small trees'),
    'C08': Prop(c08, rule='trees over five digests, repeated use of one object, compared with a recursive definition'),
    'C09': Prop(c09, rule='compression compared with element 0 of the permutation; instances of other widths'),
    'C10': Prop(c10, trusted=[PIT], rule='random, triangular, permuted and singular matrices of dimension 1 to 24 over small and large fields'),
    'C11': Prop(c11, trusted=[PIT], assumptions=[MINV], rule='helpers compared with direct definitions on random matrices'),
    'C12': Prop(c12, trusted=['contract of the hex crate: decoding succeeds exactly for an even number of hex digits and yields their bytes', 'contract of PrimeField::from_be_bytes_mod_order'], rule='strings of all lengths and alphabets, compared with a big-integer evaluation of the digits'),
    'C13': Prop(c13, table=T.c13, table_profiles=('debug', 'release'), harness_run=False, trusted=['the Grain LFSR derivation written in mirvc/tables.py from the published script'], assumptions=['contract of fields::utils::from_hex, proved in C12'], rule='every entry of every table'),
    'C14': Prop(c14, rule='generated parameters over small fields; shipped instances against the documented formulas'),
    'C15': Prop(c15, rule='slices of every length around the width and 0, all instances and random parameters, both build profiles'),
    'C16': Prop(c16, rule='constructor arguments around every boundary, both build profiles'),
    'C17': Prop(lambda q: [], table=T.c17, level='other', explanation='ground obligations on the compiled field constants (modulus, primality and primitive root by Lucas/Pratt certificates, two-adic root, trace) are decided completely; arithmetic is assumed from the field library and sampled', table_profiles=('debug', 'release'), harness_run=False, trusted=['execution of the compiled constants', 'Lucas/Pratt certificates in mirvc/tables.py (checked on every run)'], rule='operations on pairs of boundary and random elements'),
    'C18': Prop(c18, rule='call histories on shared, cloned and reused objects, interleaved and from several threads, compared with isolated calls'),
}
