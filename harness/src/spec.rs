//! Independent executable specifications (written from the definitions, not from the code under test).
use ark_ff::PrimeField;

pub type M<F> = Vec<Vec<F>>;

pub fn pow<F: PrimeField>(x: F, d: usize) -> F {
    let mut r = F::one();
    for _ in 0..d {
        r *= x;
    }
    r
}

pub fn mv<F: PrimeField>(m: &M<F>, x: &[F]) -> Vec<F> {
    m.iter()
        .map(|row| row.iter().zip(x).fold(F::zero(), |a, (c, v)| a + *c * *v))
        .collect()
}

pub fn mm<F: PrimeField>(a: &M<F>, b: &M<F>) -> M<F> {
    let n = b[0].len();
    a.iter()
        .map(|row| {
            (0..n)
                .map(|j| row.iter().zip(b).fold(F::zero(), |s, (c, br)| s + *c * br[j]))
                .collect()
        })
        .collect()
}

pub fn ident<F: PrimeField>(n: usize) -> M<F> {
    (0..n).map(|i| (0..n).map(|j| if i == j { F::one() } else { F::zero() }).collect()).collect()
}

/// Gauss-Jordan with pivoting; None when singular.
pub fn inverse<F: PrimeField>(m: &M<F>) -> Option<M<F>> {
    let n = m.len();
    let mut a: M<F> = m.clone();
    let mut r = ident::<F>(n);
    for c in 0..n {
        let p = (c..n).find(|&i| !a[i][c].is_zero())?;
        a.swap(c, p);
        r.swap(c, p);
        let iv = a[c][c].inverse().unwrap();
        for j in 0..n {
            a[c][j] *= iv;
            r[c][j] *= iv;
        }
        for i in 0..n {
            if i != c {
                let f = a[i][c];
                for j in 0..n {
                    let (x, y) = (a[c][j], r[c][j]);
                    a[i][j] -= f * x;
                    r[i][j] -= f * y;
                }
            }
        }
    }
    Some(r)
}

/// Are all leading principal minors non-zero (LU without pivoting exists)?
pub fn leading_minors_ok<F: PrimeField>(m: &M<F>) -> bool {
    (1..=m.len()).all(|k| inverse(&m[..k].iter().map(|r| r[..k].to_vec()).collect::<M<F>>()).is_some())
}

fn ints<F: PrimeField>(m: &[&[u64]]) -> M<F> {
    m.iter().map(|r| r.iter().map(|x| F::from(*x)).collect()).collect()
}

pub fn p2_external<F: PrimeField>(t: usize) -> M<F> {
    let m4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
    match t {
        2 => ints(&[&[2, 1], &[1, 2]]),
        3 => ints(&[&[2, 1, 1], &[1, 2, 1], &[1, 1, 2]]),
        4 => m4.iter().map(|r| r.iter().map(|x| F::from(*x)).collect()).collect(),
        _ => (0..t)
            .map(|i| (0..t).map(|j| F::from(m4[i % 4][j % 4] * if i / 4 == j / 4 { 2 } else { 1 })).collect())
            .collect(),
    }
}

pub fn p2_internal<F: PrimeField>(t: usize, diag: &[F]) -> M<F> {
    match t {
        2 => ints(&[&[2, 1], &[1, 3]]),
        3 => ints(&[&[2, 1, 1], &[1, 2, 1], &[1, 1, 3]]),
        _ => (0..t)
            .map(|i| (0..t).map(|j| if i == j { F::one() + diag[i] } else { F::one() }).collect())
            .collect(),
    }
}

pub struct P2<F: PrimeField> {
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    pub diag: Vec<F>,
    pub rc: M<F>,
}

pub fn poseidon2<F: PrimeField>(p: &P2<F>, inp: &[F]) -> Vec<F> {
    let me = p2_external::<F>(p.t);
    let mi = p2_internal::<F>(p.t, &p.diag);
    let mut s = mv(&me, inp);
    for r in 0..p.rf + p.rp {
        if r < p.rf / 2 || r >= p.rf / 2 + p.rp {
            for i in 0..p.t {
                s[i] = pow(s[i] + p.rc[r][i], p.d);
            }
            s = mv(&me, &s);
        } else {
            s[0] = pow(s[0] + p.rc[r][0], p.d);
            s = mv(&mi, &s);
        }
    }
    s
}

pub fn poseidon<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, mds: &M<F>, rc: &M<F>, inp: &[F]) -> Vec<F> {
    let mut s = inp.to_vec();
    for r in 0..rf + rp {
        for i in 0..t {
            s[i] += rc[r][i];
        }
        let full = r < rf / 2 || r >= rf / 2 + rp;
        for (i, x) in s.iter_mut().enumerate() {
            if full || i == 0 {
                *x = pow(*x, d);
            }
        }
        s = mv(mds, &s);
    }
    s
}

pub fn gmimc<F: PrimeField>(d: usize, rc: &[F], inp: &[F]) -> Vec<F> {
    let mut s = inp.to_vec();
    let t = s.len();
    for (r, c) in rc.iter().enumerate() {
        let p = pow(s[0] + *c, d);
        for x in s.iter_mut().skip(1) {
            *x += p;
        }
        if r + 1 < rc.len() {
            let last = s[t - 1];
            s.insert(0, last);
            s.pop();
        }
    }
    s
}

pub struct Nep<F: PrimeField> {
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    pub rc: M<F>,
    pub me: M<F>,
    pub mu: Vec<F>, // internal matrix = ones + diag(mu)
    pub gamma: F,
}

pub fn nep_sbox<F: PrimeField>(x1: F, x2: F, g: F) -> (F, F) {
    let two = F::from(2u64);
    let z = x1 - x2;
    let w = z - x2 - z * z + g;
    (
        two * x1 + x2 + F::from(3u64) * z * z + w * w,
        x1 + F::from(3u64) * x2 + F::from(4u64) * z * z + w * w,
    )
}

pub fn nep_internal<F: PrimeField>(p: &Nep<F>) -> M<F> {
    (0..p.t)
        .map(|i| (0..p.t).map(|j| if i == j { F::one() + p.mu[i] } else { F::one() }).collect())
        .collect()
}

pub fn neptune<F: PrimeField>(p: &Nep<F>, inp: &[F]) -> Vec<F> {
    let mi = nep_internal(p);
    let mut s = mv(&p.me, inp);
    for r in 0..p.rf + p.rp {
        if r < p.rf / 2 || r >= p.rf / 2 + p.rp {
            for i in 0..p.t / 2 {
                let (a, b) = nep_sbox(s[2 * i], s[2 * i + 1], p.gamma);
                s[2 * i] = a;
                s[2 * i + 1] = b;
            }
            s = mv(&p.me, &s);
        } else {
            s[0] = pow(s[0], p.d);
            s = mv(&mi, &s);
        }
        for i in 0..p.t {
            s[i] += p.rc[r][i];
        }
    }
    s
}

pub fn merkle<T: Clone>(set: &[T], node: &mut dyn FnMut(usize, &T, &T) -> T) -> T {
    let mut n = 2;
    while n < set.len() {
        n *= 2;
    }
    let mut l: Vec<T> = (0..n).map(|i| set[i.min(set.len() - 1)].clone()).collect();
    let mut lv = 0;
    while l.len() > 1 {
        l = (0..l.len() / 2).map(|i| node(lv, &l[2 * i], &l[2 * i + 1])).collect();
        lv += 1;
    }
    l[0].clone()
}
