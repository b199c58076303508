"""Ground obligations on the shipped constants: the reference derivation and the published fields."""
import math
import multiprocessing as mp

BLS = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
BN = 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001
PALLAS = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
VESTA = 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001
GOLD = 2 ** 64 - 2 ** 32 + 1
BB = 15 * 2 ** 27 + 1
PRIME = {'BLS': BLS, 'BN256': BN, 'PALLAS': PALLAS, 'VESTA': VESTA, 'GOLDILOCKS': GOLD, 'BABYBEAR': BB}
FIELD = {'babybear': BB, 'bls12': BLS, 'bn256': BN, 'goldilocks': GOLD, 'pallas': PALLAS, 'vesta': VESTA}
# published parameters: instance -> (t, d, R_F, R_P)
NUMBERS = {
    'BN256_3': (3, 5, 8, 56), 'BLS_2': (2, 5, 8, 56), 'BLS_3': (3, 5, 8, 56), 'BLS_4': (4, 5, 8, 56), 'BLS_8': (8, 5, 8, 57),
    'PALLAS_3': (3, 5, 8, 56), 'PALLAS_4': (4, 5, 8, 56), 'PALLAS_8': (8, 5, 8, 57), 'VESTA_3': (3, 5, 8, 56),
    'GOLDILOCKS_8': (8, 7, 8, 22), 'GOLDILOCKS_12': (12, 7, 8, 22), 'GOLDILOCKS_16': (16, 7, 8, 22), 'GOLDILOCKS_20': (20, 7, 8, 22),
    'BABYBEAR_16': (16, 7, 8, 13), 'BABYBEAR_24': (24, 7, 8, 21),
}


# ---------------------------------------------------------------- Grain LFSR
class Grain:
    def __init__(self, n, t, rf, rp, sbox):
        bits = '{:02b}{:04b}{:012b}{:012b}{:010b}{:010b}'.format(1, sbox, n, t, rf, rp) + '1' * 30
        self.s = int(bits[::-1], 2)        # bit 0 of s is the oldest
        for _ in range(160):
            self.step()

    def step(self):
        s = self.s
        b = ((s >> 62) ^ (s >> 51) ^ (s >> 38) ^ (s >> 23) ^ (s >> 13) ^ s) & 1
        self.s = (s >> 1) | (b << 79)
        return b

    def bit(self):
        while not self.step():
            self.step()
        return self.step()

    def bits(self, n):
        v = 0
        for _ in range(n):
            v = 2 * v + self.bit()
        return v


def constants(g, n, p, count):
    out = []
    for _ in range(count):
        v = g.bits(n)
        while v >= p:
            v = g.bits(n)
        out.append(v)
    return out


def ref_p2(p, t, rf, rp):
    n = p.bit_length()
    g = Grain(n, t, rf, rp, 0)
    c = constants(g, n, p, rf * t + rp)
    rows = []
    for r in range(rf + rp):
        if rf // 2 <= r < rf // 2 + rp:
            rows.append([c.pop(0)] + [0] * (t - 1))
        else:
            rows.append(c[:t])
            del c[:t]
    if t == 2:
        diag = [1, 2]
    elif t == 3:
        diag = [1, 1, 2]
    else:
        while True:
            d = [g.bits(n) % p for _ in range(t)]
            if minpoly_condition(d, p):
                break
        diag = [(x - 1) % p for x in d]
    return rows, diag


def ref_pos(p, t, rf, rp):
    n = p.bit_length()
    g = Grain(n, t, rf, rp, 1)
    c = constants(g, n, p, (rf + rp) * t)
    rows = [c[i * t:(i + 1) * t] for i in range(rf + rp)]
    while True:
        l = [g.bits(n) % p for _ in range(2 * t)]
        if len(set(l)) != 2 * t:
            continue
        if any((x + y) % p == 0 for x in l[:t] for y in l[t:]):
            continue
        break
    return rows, [[pow(x + y, -1, p) for y in l[t:]] for x in l[:t]]


# ---------------------------------------------------------------- irreducibility of the minimal polynomial
def charpoly(d, p):
    """Characteristic polynomial of the matrix with diagonal d and ones elsewhere, low degree first:
    prod (x - e_i) - sum_i prod_{j != i} (x - e_j), e = d - 1."""
    e = [(x - 1) % p for x in d]
    f = [1]
    s = [0]
    for x in e:
        # s' = s (X - x) + f ; f' = f (X - x)
        s = padd(pmulx(s, x, p), f, p)
        f = pmulx(f, x, p)
    return padd(f, [(-c) % p for c in s], p)


def pmulx(f, x, p):
    r = [0] + f
    for i, c in enumerate(f):
        r[i] = (r[i] - c * x) % p
    return r


def padd(a, b, p):
    if len(a) < len(b):
        a, b = b, a
    r = a[:]
    for i, c in enumerate(b):
        r[i] = (r[i] + c) % p
    return r


def reduce(a, f, p):
    """a mod monic f."""
    a = a[:]
    n = len(f) - 1
    for i in range(len(a) - 1, n - 1, -1):
        c = a[i] % p
        if c:
            for j in range(n):
                a[i - n + j] -= c * f[j]
        a[i] = 0
    a = [x % p for x in a[:n]]
    return a + [0] * (n - len(a))


def mulmod(a, b, f, p):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return reduce(r, f, p)


def powmod(a, e, f, p):
    r = None
    for b in bin(e)[2:]:
        if r is not None:
            r = mulmod(r, r, f, p)
        if b == '1':
            r = a if r is None else mulmod(r, a, f, p)
    return r


def compose(a, b, f, p):
    """a(b) mod f."""
    r = [0] * (len(f) - 1)
    for c in reversed(a):
        r = mulmod(r, b, f, p)
        r[0] = (r[0] + c) % p
    return r


def pgcd(a, b, p):
    def trim(x):
        while x and x[-1] % p == 0:
            x.pop()
        return x
    a, b = trim(a[:]), trim(b[:])
    while b:
        iv = pow(b[-1], -1, p)
        b = [x * iv % p for x in b]
        while len(a) >= len(b):
            c = a[-1]
            if c:
                for i in range(len(b)):
                    a[len(a) - len(b) + i] = (a[len(a) - len(b) + i] - c * b[i]) % p
            a.pop()
        a = trim(a)
        a, b = b, a
    return a


def prime_factors(n):
    out = []
    q = 2
    while n > 1:
        if n % q == 0:
            out.append(q)
            while n % q == 0:
                n //= q
        q += 1
    return out


def minpoly_condition(d, p):
    """M, M^2, .., M^2t all have an irreducible minimal polynomial of degree t."""
    t = len(d)
    f = charpoly(d, p)
    x = [0, 1] + [0] * (t - 2)
    h1 = powmod(x, p, f, p)
    # Rabin: no common factor with x^(p^k) - x for small k, then for t/q
    h = {1: h1}
    def frob(k):
        if k not in h:
            if k - 1 in h or k % 2:
                h[k] = compose(frob(k - 1), h1, f, p)
            else:
                y = frob(k // 2)
                h[k] = compose(y, y, f, p)
        return h[k]
    for k in [1, 2] + [t // q for q in prime_factors(t)]:
        if k >= t:
            continue
        y = frob(k)[:]
        y[1] = (y[1] - 1) % p
        if len(pgcd(f, y, p)) > 1:
            return False
    if frob(t) != x:
        return False
    # f is irreducible: M^i generates the same field unless it lies in a proper subfield
    for q in prime_factors(t):
        y = frob(t // q)
        a, b = x, y
        for i in range(1, 2 * t + 1):
            if a == b:
                return False
            a, b = mulmod(a, x, f, p), mulmod(b, y, f, p)
    return True


# ---------------------------------------------------------------- C13
def _ref(job):
    kind, name = job
    p = PRIME[name.rsplit('_', 1)[0]]
    t, d, rf, rp = NUMBERS[name]
    return job, (ref_p2 if kind == 'p2' else ref_pos)(p, t, rf, rp)


def ints(v):
    return [ints(x) for x in v] if isinstance(v, list) else int(v)


def refs(names):
    jobs = sorted(names, key=lambda j: -NUMBERS[j[1]][0])
    with mp.get_context('fork').Pool(8) as pool:
        return dict(pool.map(_ref, jobs, chunksize=1))


def first_diff(a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return 'length %d instead of %d' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return '[%d]%s' % (i, first_diff(x, y))
        return ''
    return ' is %s, the reference has %s' % (a, b)


def c13(dump, quick):
    rows = [r for r in dump if r['kind'] in ('p2', 'pos')]
    R = refs([(k, n) for k in ('p2', 'pos') for n in NUMBERS])
    out = []
    entries = 0
    seen = set()

    def ob(name, ok, detail=''):
        out.append((name, bool(ok), '' if ok else str(detail)[:600]))
    for r in rows:
        k, n = r['kind'], r['name']
        seen.add((k, n))
        nm = '%s %s' % ({'p2': 'POSEIDON2', 'pos': 'POSEIDON'}[k], n)
        p = PRIME[n.rsplit('_', 1)[0]]
        t, d, rf, rp = NUMBERS[n]
        ob(nm + ': field modulus', int(r['p']) == p, r['p'])
        rc, m = R[(k, n)]
        tabs = [('round constants', ints(r['rc']), rc)]
        if k == 'p2':
            full = [[(m[i] + 1) % p if i == j else 1 for j in range(t)] for i in range(t)]
            tabs += [('internal diagonal', ints(r['diag']), m), ('internal matrix', ints(r['mat']), full)]
        else:
            tabs += [('MDS matrix', ints(r['mds']), m)]
        for what, got, want in tabs:
            ob('%s: exported %s = reference derivation' % (nm, what), got == want, what + first_diff(got, want))
            entries += sum(len(x) if isinstance(x, list) else 1 for x in got)
        P = r.get('params')
        if P:
            want = dict(t=t, d=d, rounds_f_beginning=rf // 2, rounds_f_end=rf // 2, rounds_p=rp, rounds=rf + rp, round_constants=rc)
            if k == 'p2':
                want.update(mat_internal_diag_m_1=m, _mat_internal=full)
            else:
                want.update(mds=m)
            for f, w in want.items():
                if f in P:
                    v = ints(P[f])
                    ob('%s: parameter set field %s' % (nm, f), v == w, f + ' ' + first_diff(v, w))
                    entries += sum(len(x) if isinstance(x, list) else 1 for x in v) if isinstance(v, list) else 1
        ob('%s: the instance evaluates like the specification with these constants' % nm, r['agrees'])
    for k in ('p2', 'pos'):
        for n in NUMBERS:
            ob('%s %s is shipped' % (k, n), (k, n) in seen)
    return dict(checks=out, stats=dict(entries=entries, instances=len(rows)))


# ---------------------------------------------------------------- C06
def det(m, p):
    m = [r[:] for r in m]
    n = len(m)
    d = 1
    for i in range(n):
        k = next((r for r in range(i, n) if m[r][i] % p), None)
        if k is None:
            return 0
        if k != i:
            m[i], m[k] = m[k], m[i]
            d = -d
        d = d * m[i][i] % p
        iv = pow(m[i][i], -1, p)
        for r in range(i + 1, n):
            f = m[r][i] * iv % p
            if f:
                for c in range(i, n):
                    m[r][c] = (m[r][c] - f * m[i][c]) % p
    return d % p


M4 = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]]


def external(t):
    if t == 2:
        return [[2, 1], [1, 2]]
    if t == 3:
        return [[2, 1, 1], [1, 2, 1], [1, 1, 2]]
    if t == 4:
        return M4
    return [[M4[i % 4][j % 4] * (2 if i // 4 == j // 4 else 1) for j in range(t)] for i in range(t)]


def c06(dump, quick):
    out = []
    for r in dump:
        if r['kind'] not in ('p2', 'pos'):
            continue
        nm = '%s %s' % ({'p2': 'POSEIDON2', 'pos': 'POSEIDON'}[r['kind']], r['name'])
        p = int(r['p'])
        P = r.get('params') or {}
        t = int(P.get('t', r['t']))
        d = int(P.get('d', r['d']))
        out.append((nm + ': the S-box degree is coprime to p-1', math.gcd(d, p - 1) == 1, 'gcd(%d, p-1) = %d' % (d, math.gcd(d, p - 1))))
        if r['kind'] == 'p2':
            mu = ints(P.get('mat_internal_diag_m_1', r['diag']))
            mats = [('external', external(t))]
            if t in (2, 3):
                mats.append(('internal', [[2, 1], [1, 3]] if t == 2 else [[2, 1, 1], [1, 2, 1], [1, 1, 3]]))
            elif len(mu) == t:
                mats.append(('internal', [[(mu[i] + 1) % p if i == j else 1 for j in range(t)] for i in range(t)]))
        else:
            mats = [('MDS', ints(P.get('mds', r['mds'])))]
        for n, m in mats:
            if len(m) == t and all(len(x) == t for x in m):
                out.append(('%s: the %s matrix is invertible' % (nm, n), det(m, p) != 0, 'determinant 0'))
    # the degrees and fields of the GMiMC and Neptune instances
    for n, p in FIELD.items():
        row = next((r for r in dump if r['kind'] == 'field' and r['name'] == n), None)
        if row:
            q = int(row['modulus'])
            d = 7 if n in ('babybear', 'goldilocks') else 5
            out.append(('field %s: degree %d is coprime to p-1' % (n, d), math.gcd(d, q - 1) == 1, ''))
    return dict(checks=out, stats={})


# ---------------------------------------------------------------- C17
FACTORS = {
    BB: [2, 3, 5],
    GOLD: [2, 3, 5, 17, 257, 65537],
    BLS: [2, 3, 11, 19, 10177, 125527, 859267, 906349, 2508409, 2529403, 52437899, 254760293],
    BN: [2, 3, 13, 29, 983, 11003, 237073, 405928799, 1670836401704629, 13818364434197438864469338081],
    PALLAS: [2, 3, 463, 539204044132271846773, 8999194758858563409123804352480028797519453],
    VESTA: [2, 3, 1709, 24859, 1690502597179744445941507, 10427374428728808478656897599072717],
}


def complete(n, qs):
    for q in qs:
        while n % q == 0:
            n //= q
    return n == 1


CERT = {     # n: (primitive root, prime divisors of n-1)
    1670836401704629: (2, [2, 3, 5156902474397]),
    5156902474397: (2, [2, 107, 12048837557]),
    13818364434197438864469338081: (3, [2, 5, 823, 1593227, 65865678001877903]),
    65865678001877903: (5, [2, 83, 379, 1637, 639533339]),
    539204044132271846773: (5, [2, 3, 89, 14923, 417677162933]),
    8999194758858563409123804352480028797519453: (2, [2, 3, 11, 2531, 115603, 1197907, 22160661629, 325086459374267]),
    325086459374267: (2, [2, 509, 413527, 772231]),
    1690502597179744445941507: (2, [2, 3, 13, 4129989133, 5247740253619]),
    5247740253619: (2, [2, 3, 17, 71, 80513981]),
    10427374428728808478656897599072717: (2, [2, 294793, 4229279, 399082391, 5239247429827]),
    5239247429827: (2, [2, 3, 757, 12149, 31649]),
}


def lucas(p, g, qs):
    """g is a primitive root modulo p and p is prime (Lucas), given the prime divisors of p-1."""
    return complete(p - 1, qs) and pow(g, p - 1, p) == 1 and all(pow(g, (p - 1) // q, p) != 1 for q in qs)


def is_prime(n):
    """Pratt certificate (CERT) for large n, trial division for small."""
    if n < 10 ** 12:
        if n < 2:
            return False
        q = 2
        while q * q <= n:
            if n % q == 0:
                return False
            q += 1
        return True
    if n not in CERT:
        return False
    g, qs = CERT[n]
    return lucas(n, g, qs) and all(is_prime(q) for q in qs)


def c17(dump, quick):
    out = []
    n_ops = 0

    def ob(name, ok, detail=''):
        out.append((name, bool(ok), '' if ok else str(detail)[:600]))
    seen = set()
    for r in dump:
        if r['kind'] != 'field':
            continue
        n = r['name']
        seen.add(n)
        p = FIELD[n]
        m = int(r['modulus'])
        ob('%s: the modulus is the published prime' % n, m == p, m)
        g = int(r['gen'])
        qs = FACTORS[p]
        ob('%s: the modulus is prime and the generator a primitive root (Lucas certificate)' % n, m == p and lucas(p, g, qs) and all(is_prime(q) for q in qs), 'generator %d' % g)
        ob('%s: bit size' % n, r['bits'] == m.bit_length(), r['bits'])
        s = ((m - 1) & -(m - 1)).bit_length() - 1
        ob('%s: two-adicity' % n, r['two_adicity'] == s, r['two_adicity'])
        w = int(r['root2'])
        ob('%s: root of unity of order 2^%d' % (n, s), w < m and pow(w, 1 << s, m) == 1 and pow(w, 1 << (s - 1), m) == m - 1, w)
        tr = (m - 1) >> s
        ob('%s: trace' % n, int(r['trace']) in (tr, ), r['trace'])
        bad = None
        for o in r['ops']:
            a, b = int(o[0]), int(o[1])
            want = [(a + b) % m, (a - b) % m, a * b % m, 2 * a % m, a * a % m, -a % m, None if a == 0 else pow(a, -1, m), pow(a, 5, m)]
            got = [None if x is None else int(x) for x in o[2:]]
            n_ops += len(got)
            if got != want or a >= m or b >= m:
                bad = bad or (o, want)
        ob('%s: %d sampled operations' % (n, 8 * len(r['ops'])), bad is None, bad)
    for n in FIELD:
        ob('field %s is present' % n, n in seen)
    return dict(checks=out, stats=dict(sampled_operations=n_ops))
