use crate::spec::{self, M};
use crate::trees::{self, R};
use crate::util::*;
use ark_ff::{BigInteger, FftField, PrimeField};
use std::sync::Arc;
use zkhash::fields::utils::{from_hex, random_scalar, random_scalar_without_0};
use zkhash::fields::{babybear::FpBabyBear, bls12::FpBLS12, bn256::FpBN256, goldilocks::FpGoldiLocks, pallas::FpPallas, vesta::FpVesta};
use zkhash::gmimc::gmimc::Gmimc;
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::merkle_tree::merkle_tree_fp::MerkleTreeHash;
use zkhash::neptune::neptune::Neptune;
use zkhash::neptune::neptune_params::NeptuneParams;
use zkhash::poseidon::poseidon::Poseidon;
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon2::poseidon2::Poseidon2;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;
use zkhash::utils::{mat_inverse, mat_transpose};

macro_rules! by_field {
    ($n:expr, $F:ident, $e:expr) => {
        match $n {
            "17" => { type $F = F17; $e }
            "101" => { type $F = F101; $e }
            "gold" => { type $F = FpGoldiLocks; $e }
            "bb" => { type $F = FpBabyBear; $e }
            "bls" => { type $F = FpBLS12; $e }
            "bn" => { type $F = FpBN256; $e }
            "pal" => { type $F = FpPallas; $e }
            "ves" => { type $F = FpVesta; $e }
            "big" => { type $F = F521; $e }
            _ => Err(format!("unknown field {}", $n)),
        }
    };
}
pub const FIELDS: [&str; 9] = ["17", "101", "gold", "bb", "bls", "bn", "pal", "ves", "big"];
pub const P2W: [usize; 8] = [2, 3, 4, 8, 12, 16, 20, 24];

fn neq<F: PrimeField>(what: &str, x: &[F], got: &[F], want: &[F]) -> R {
    if got.len() != want.len() {
        return Err(format!("{}: output has {} elements, expected {} | input {}", what, got.len(), want.len(), show(x)));
    }
    for i in 0..got.len() {
        if got[i] != want[i] {
            return Err(format!("{}: element {} is {}, expected {} | input {}", what, i, got[i].into_bigint(), want[i].into_bigint(), show(x)));
        }
    }
    Ok(true)
}

// ------------------------------------------------------------------ the four permutations behind one face
pub struct Perm<F: PrimeField> {
    pub name: String,
    pub t: usize,
    pub f: Vec<(&'static str, Arc<dyn Fn(&[F]) -> Vec<F> + Send + Sync>)>, // evaluation variants on one shared object
    pub clone: Arc<dyn Fn() -> Perm<F> + Send + Sync>,                      // another object on the same parameters
    pub clone_par: Arc<dyn Fn() -> Perm<F> + Send + Sync>,                  // on a copy of the parameters
    pub clone_obj: Arc<dyn Fn() -> Perm<F> + Send + Sync>,                  // a clone of this object
    pub compress: Arc<dyn Fn(&[&F]) -> F + Send + Sync>,
    pub get_t: usize,
    pub debug: Arc<dyn Fn() -> String + Send + Sync>,
    pub spec: Option<Arc<dyn Fn(&[F]) -> Vec<F>>>,
    pub inv: Option<Arc<dyn Fn(&[F]) -> Vec<F>>>,
    pub bad: Option<String>, // why there is no inverse
}

fn wrap_p2<F: PrimeField>(name: &str, h: Poseidon2<F>, p: Arc<Poseidon2Params<F>>, t: usize) -> Perm<F> {
    let h = Arc::new(h);
    let (h1, h2, h3, h4, p1, n1, n2) = (h.clone(), h.clone(), h.clone(), h.clone(), p.clone(), name.to_string(), name.to_string());
    let (pp, p3, n3) = (p.clone(), p.clone(), name.to_string());
    Perm {
        name: name.into(), t, get_t: h.get_t(),
        f: vec![("permutation", Arc::new(move |x| h1.permutation(x)))],
        clone: Arc::new(move || wrap_p2(&n1, Poseidon2::new(&p1), p1.clone(), t)),
        clone_par: Arc::new(move || { let q = Arc::new((*p3).clone()); wrap_p2(&n3, Poseidon2::new(&q), q.clone(), t) }),
        clone_obj: Arc::new(move || wrap_p2(&n2, (*h4).clone(), pp.clone(), t)),
        compress: Arc::new(move |x| h2.compress(x)),
        debug: Arc::new(move || format!("{:?} {:?}", h3, p)),
        spec: None, inv: None, bad: None,
    }
}
fn wrap_pos<F: PrimeField>(name: &str, h: Poseidon<F>, p: Arc<PoseidonParams<F>>, t: usize) -> Perm<F> {
    let h = Arc::new(h);
    let (h1, h2, h3, h4, h5, p1, n1, n2) = (h.clone(), h.clone(), h.clone(), h.clone(), h.clone(), p.clone(), name.to_string(), name.to_string());
    let (pp, p3, n3) = (p.clone(), p.clone(), name.to_string());
    Perm {
        name: name.into(), t, get_t: h.get_t(),
        f: vec![("permutation", Arc::new(move |x| h1.permutation(x))), ("permutation_not_opt", Arc::new(move |x| h5.permutation_not_opt(x)))],
        clone: Arc::new(move || wrap_pos(&n1, Poseidon::new(&p1), p1.clone(), t)),
        clone_par: Arc::new(move || { let q = Arc::new((*p3).clone()); wrap_pos(&n3, Poseidon::new(&q), q.clone(), t) }),
        clone_obj: Arc::new(move || wrap_pos(&n2, (*h4).clone(), pp.clone(), t)),
        compress: Arc::new(move |x| h2.compress(x)),
        debug: Arc::new(move || format!("{:?} {:?}", h3, p)),
        spec: None, inv: None, bad: None,
    }
}
fn wrap_gm<F: PrimeField>(name: &str, h: Gmimc<F>, p: Arc<GmimcParams<F>>, t: usize) -> Perm<F> {
    let h = Arc::new(h);
    let (h1, h2, h3, h4, h5, p1, n1, n2) = (h.clone(), h.clone(), h.clone(), h.clone(), h.clone(), p.clone(), name.to_string(), name.to_string());
    let (pp, p3, n3) = (p.clone(), p.clone(), name.to_string());
    Perm {
        name: name.into(), t, get_t: h.get_t(),
        f: vec![("permutation", Arc::new(move |x| h1.permutation(x))), ("permutation_not_opt", Arc::new(move |x| h5.permutation_not_opt(x)))],
        clone: Arc::new(move || wrap_gm(&n1, Gmimc::new(&p1), p1.clone(), t)),
        clone_par: Arc::new(move || { let q = Arc::new((*p3).clone()); wrap_gm(&n3, Gmimc::new(&q), q.clone(), t) }),
        clone_obj: Arc::new(move || wrap_gm(&n2, (*h4).clone(), pp.clone(), t)),
        compress: Arc::new(move |x| h2.compress(x)),
        debug: Arc::new(move || format!("{:?} {:?}", h3, p)),
        spec: None, inv: None, bad: None,
    }
}
fn wrap_nep<F: PrimeField>(name: &str, h: Neptune<F>, p: Arc<NeptuneParams<F>>, t: usize) -> Perm<F> {
    let h = Arc::new(h);
    let (h1, h2, h3, h4, p1, n1, n2) = (h.clone(), h.clone(), h.clone(), h.clone(), p.clone(), name.to_string(), name.to_string());
    let (pp, p3, n3) = (p.clone(), p.clone(), name.to_string());
    Perm {
        name: name.into(), t, get_t: h.get_t(),
        f: vec![("permutation", Arc::new(move |x| h1.permutation(x)))],
        clone: Arc::new(move || wrap_nep(&n1, Neptune::new(&p1), p1.clone(), t)),
        clone_par: Arc::new(move || { let q = Arc::new((*p3).clone()); wrap_nep(&n3, Neptune::new(&q), q.clone(), t) }),
        clone_obj: Arc::new(move || wrap_nep(&n2, (*h4).clone(), pp.clone(), t)),
        compress: Arc::new(move |x| h2.compress(x)),
        debug: Arc::new(move || format!("{:?} {:?}", h3, p)),
        spec: None, inv: None, bad: None,
    }
}

// ---------------------------------------------------------------- constants of a parameter object
fn p2_consts<F: PrimeField>(p: &Poseidon2Params<F>) -> Option<spec::P2<F>> {
    let d = parse_debug(&format!("{:?}", p))?;
    let t = d.field("t")?.usize()?;
    let rf = d.field("rounds_f_beginning")?.usize()? + d.field("rounds_f_end")?.usize()?;
    Some(spec::P2 { t, d: d.field("d")?.usize()?, rf, rp: d.field("rounds_p")?.usize()?, diag: d.find("mat_internal_diag_m_1", |x| x.vec())?, rc: d.field("round_constants")?.mat()? })
}
fn pos_consts<F: PrimeField>(p: &PoseidonParams<F>) -> Option<(usize, usize, usize, usize, M<F>, M<F>)> {
    let d = parse_debug(&format!("{:?}", p))?;
    let t = d.field("t")?.usize()?;
    let rf = d.field("rounds_f_beginning")?.usize()? + d.field("rounds_f_end")?.usize()?;
    Some((t, d.field("d")?.usize()?, rf, d.field("rounds_p")?.usize()?, d.field("mds")?.mat()?, d.field("round_constants")?.mat()?))
}
fn gm_consts<F: PrimeField>(p: &GmimcParams<F>) -> Option<(usize, usize, usize, Vec<F>)> {
    let d = parse_debug(&format!("{:?}", p))?;
    Some((d.field("t")?.usize()?, d.field("d")?.usize()?, d.field("rounds")?.usize()?, d.find("round_constants", |x| x.vec())?))
}
fn nep_consts<F: PrimeField>(p: &NeptuneParams<F>) -> Option<spec::Nep<F>> {
    let d = parse_debug(&format!("{:?}", p))?;
    let t = d.field("t")?.usize()?;
    let rf = d.field("rounds_f_beginning")?.usize()? + d.field("rounds_f_end")?.usize()?;
    let abc: Vec<F> = d.field("abc")?.vec()?;
    Some(spec::Nep {
        t, d: d.field("d")?.usize()?, rf, rp: d.field("rounds_p")?.usize()?,
        rc: d.field("round_constants")?.mat()?, me: d.field("m_e")?.mat()?, mu: d.field("mu")?.vec()?, gamma: *abc.get(2)?,
    })
}

// ---------------------------------------------------------------- inverses
/// y^(1/d); None when d is not coprime to p-1.
fn root<F: PrimeField>(d: usize) -> Option<impl Fn(F) -> F> {
    // p-1 = q d + r; (k(p-1)+1)/d = k q + (k r + 1)/d
    let mut pm1 = F::MODULUS;
    pm1.sub_with_borrow(&F::BigInt::from(1u64));
    let mut q = pm1.as_ref().to_vec();
    let mut rem = 0u128;
    for x in q.iter_mut().rev() {
        let cur = (rem << 64) | *x as u128;
        *x = (cur / d as u128) as u64;
        rem = cur % d as u128;
    }
    let r = rem as usize;
    let k = (1..d).find(|k| (k * r + 1) % d == 0)?;
    let e2 = ((k * r + 1) / d) as u64;
    Some(move |y: F| {
        let a = y.pow(&q);
        a.pow([k as u64]) * y.pow([e2])
    })
}

fn p2_inverse<F: PrimeField>(p: spec::P2<F>) -> Result<Arc<dyn Fn(&[F]) -> Vec<F>>, String> {
    let me = spec::inverse(&spec::p2_external::<F>(p.t)).ok_or("external matrix is singular")?;
    let mi = spec::inverse(&spec::p2_internal::<F>(p.t, &p.diag)).ok_or("internal matrix is singular")?;
    let rt = root::<F>(p.d).ok_or("S-box degree not coprime to p-1")?;
    Ok(Arc::new(move |y| {
        let mut s = y.to_vec();
        for r in (0..p.rf + p.rp).rev() {
            if r < p.rf / 2 || r >= p.rf / 2 + p.rp {
                s = spec::mv(&me, &s);
                for i in 0..p.t { s[i] = rt(s[i]) - p.rc[r][i]; }
            } else {
                s = spec::mv(&mi, &s);
                s[0] = rt(s[0]) - p.rc[r][0];
            }
        }
        spec::mv(&me, &s)
    }))
}
fn pos_inverse<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, mds: M<F>, rc: M<F>) -> Result<Arc<dyn Fn(&[F]) -> Vec<F>>, String> {
    let mi = spec::inverse(&mds).ok_or("MDS matrix is singular")?;
    let rt = root::<F>(d).ok_or("S-box degree not coprime to p-1")?;
    Ok(Arc::new(move |y| {
        let mut s = y.to_vec();
        for r in (0..rf + rp).rev() {
            s = spec::mv(&mi, &s);
            let full = r < rf / 2 || r >= rf / 2 + rp;
            for i in 0..t {
                if full || i == 0 { s[i] = rt(s[i]); }
                s[i] -= rc[r][i];
            }
        }
        s
    }))
}
fn gm_inverse<F: PrimeField>(d: usize, rc: Vec<F>) -> Arc<dyn Fn(&[F]) -> Vec<F>> {
    Arc::new(move |y| {
        let mut s = y.to_vec();
        for r in (0..rc.len()).rev() {
            if r + 1 < rc.len() {
                let f = s.remove(0);
                s.push(f);
            }
            let p = spec::pow(s[0] + rc[r], d);
            for x in s.iter_mut().skip(1) { *x -= p; }
        }
        s
    })
}
fn nep_inverse<F: PrimeField>(p: spec::Nep<F>) -> Result<Arc<dyn Fn(&[F]) -> Vec<F>>, String> {
    let me = spec::inverse(&p.me).ok_or("external matrix is singular")?;
    let mi = spec::inverse(&spec::nep_internal(&p)).ok_or("internal matrix is singular")?;
    let rt = root::<F>(p.d).ok_or("S-box degree not coprime to p-1")?;
    let five = F::from(5u64).inverse().ok_or("characteristic 5")?;
    Ok(Arc::new(move |y| {
        let mut s = y.to_vec();
        for r in (0..p.rf + p.rp).rev() {
            for i in 0..p.t { s[i] -= p.rc[r][i]; }
            if r < p.rf / 2 || r >= p.rf / 2 + p.rp {
                s = spec::mv(&me, &s);
                for i in 0..p.t / 2 {
                    let (y1, y2) = (s[2 * i], s[2 * i + 1]);
                    // y1-y2 = x1-2x2-z^2 = D, w = D+gamma, y1 = 2x1+x2+3z^2+w^2
                    let dd = y1 - y2;
                    let w = dd + p.gamma;
                    let a = y1 - w * w;
                    // a = 2x1+x2+3z^2, a+3D = 5x1-5x2 = 5z
                    let z = (a + dd + dd + dd) * five;
                    // D = z - x2 - z^2
                    let x2 = z - z * z - dd;
                    s[2 * i] = z + x2;
                    s[2 * i + 1] = x2;
                }
            } else {
                s = spec::mv(&mi, &s);
                s[0] = rt(s[0]);
            }
        }
        spec::mv(&me, &s)
    }))
}

// ---------------------------------------------------------------- making a permutation from a case
/// kind = p2 | pos | gm | nep with f,t,d,rf,rp (custom) or i (shipped instance); do = what to check.
fn with_perm(c: &Case) -> R {
    if c.kv.contains_key("i") {
        let i = c.s("i");
        match c.kind.as_str() {
            "p2" => {
                macro_rules! m { ($n:expr, $F:ty, $m:ident, $P:ident, $di:ident, $mi:ident, $rc:ident, $t:expr, $d:expr, $rf:expr, $rp:expr) => {
                    if i == $n { let p = &*zkhash::poseidon2::$m::$P; return go_p2::<$F>(c, p.clone(), $t); } } }
                each_p2!(m);
            }
            "pos" => {
                macro_rules! m { ($n:expr, $F:ty, $m:ident, $P:ident, $mds:ident, $rc:ident, $t:expr, $d:expr, $rf:expr, $rp:expr) => {
                    if i == $n { let p = &*zkhash::poseidon::$m::$P; return go_pos::<$F>(c, p.clone(), $t); } } }
                each_pos!(m);
            }
            "gm" => {
                macro_rules! m { ($n:expr, $F:ty, $m:ident, $P:ident, $t:expr, $d:expr) => {
                    if i == $n { let p = &*zkhash::gmimc::$m::$P; return go_gm::<$F>(c, p.clone(), $t); } } }
                each_gm!(m);
            }
            "nep" => {
                macro_rules! m { ($n:expr, $F:ty, $P:ident, $t:expr, $d:expr) => {
                    if i == $n { let p = &*zkhash::neptune::neptune_instances::$P; return go_nep::<$F>(c, p.clone(), $t); } } }
                each_nep!(m);
            }
            _ => {}
        }
        return Err(format!("unknown instance {}", i));
    }
    by_field!(c.s("f"), F, custom::<F>(c))
}

fn rows<F: PrimeField>(v: Vec<F>, t: usize) -> M<F> {
    v.chunks(t.max(1)).map(|x| x.to_vec()).collect()
}

fn custom<F: PrimeField>(c: &Case) -> R {
    let (t, d, rf, rp) = (c.n("t"), c.n("d"), c.n("rf"), c.n("rp"));
    let mut r = c.rng();
    match c.kind.as_str() {
        "p2" => {
            let rc: M<F> = c.vals("rc").map(|v| rows(v, t)).unwrap_or_else(|| r.mat(rf + rp, t));
            let diag: Vec<F> = c.vals("diag").unwrap_or_else(|| r.vec(t));
            let mi = spec::p2_internal(t, &diag);
            let p = Poseidon2Params::new(t, d, rf, rp, &diag, &mi, &rc);
            let s = spec::P2 { t, d, rf, rp, diag: diag.clone(), rc: rc.clone() };
            let s2 = spec::P2 { t, d, rf, rp, diag, rc };
            let mut pm = wrap_p2(&c.text, Poseidon2::new(&Arc::new(p.clone())), Arc::new(p), t);
            pm.spec = Some(Arc::new(move |x| spec::poseidon2(&s, x)));
            if c.s("do") == "inv" { set_inv(&mut pm, p2_inverse(s2)); }
            check(c, pm)
        }
        "pos" => {
            let rc: M<F> = c.vals("rc").map(|v| rows(v, t)).unwrap_or_else(|| r.mat(rf + rp, t));
            let mds: M<F> = c.vals("mds").map(|v| rows(v, t)).unwrap_or_else(|| r.mat(t, t));
            let p = match quiet(|| PoseidonParams::new(t, d, rf, rp, &mds, &rc)) {
                Some(p) => p,
                None => return Ok(false), // not accepted; what must be accepted is checked under C16
            };
            let (m2, r2) = (mds.clone(), rc.clone());
            let mut pm = wrap_pos(&c.text, Poseidon::new(&Arc::new(p.clone())), Arc::new(p), t);
            pm.spec = Some(Arc::new(move |x| spec::poseidon(t, d, rf, rp, &m2, &r2, x)));
            if c.s("do") == "inv" { set_inv(&mut pm, pos_inverse(t, d, rf, rp, mds, rc)); }
            check(c, pm)
        }
        "gm" => {
            let p = GmimcParams::<F>::new(t, d, rp);
            go_gm(c, Arc::new(p), t)
        }
        "nep" => {
            let p = NeptuneParams::<F>::new(t, d, rf, rp);
            go_nep(c, Arc::new(p), t)
        }
        k => Err(format!("unknown kind {}", k)),
    }
}
fn set_inv<F: PrimeField>(p: &mut Perm<F>, i: Result<Arc<dyn Fn(&[F]) -> Vec<F>>, String>) {
    match i {
        Ok(f) => p.inv = Some(f),
        Err(e) => p.bad = Some(e),
    }
}
fn go_p2<F: PrimeField>(c: &Case, p: Arc<Poseidon2Params<F>>, t: usize) -> R {
    let mut pm = wrap_p2(&c.text, Poseidon2::new(&p), p.clone(), t);
    if ["spec", "inv"].contains(&c.s("do")) {
        if let Some(s) = p2_consts(&p) {
            pm.spec = Some(Arc::new(move |x| spec::poseidon2(&s, x)));
        }
        if let (Some(s), "inv") = (p2_consts(&p), c.s("do")) { set_inv(&mut pm, p2_inverse(s)); }
    }
    check(c, pm)
}
fn go_pos<F: PrimeField>(c: &Case, p: Arc<PoseidonParams<F>>, t: usize) -> R {
    let mut pm = wrap_pos(&c.text, Poseidon::new(&p), p.clone(), t);
    if ["spec", "inv"].contains(&c.s("do")) {
        if let Some((t, d, rf, rp, mds, rc)) = pos_consts(&p) {
            if c.s("do") == "inv" { set_inv(&mut pm, pos_inverse(t, d, rf, rp, mds.clone(), rc.clone())); }
            pm.spec = Some(Arc::new(move |x| spec::poseidon(t, d, rf, rp, &mds, &rc, x)));
        }
    }
    check(c, pm)
}
fn go_gm<F: PrimeField>(c: &Case, p: Arc<GmimcParams<F>>, t: usize) -> R {
    let mut pm = wrap_gm(&c.text, Gmimc::new(&p), p.clone(), t);
    if ["spec", "inv"].contains(&c.s("do")) {
        if let Some((_, d, n, rc)) = gm_consts(&p) {
            if rc.len() == n {
                let r2 = rc.clone();
                pm.spec = Some(Arc::new(move |x| spec::gmimc(d, &rc, x)));
                pm.inv = Some(gm_inverse(d, r2));
            }
        }
    }
    check(c, pm)
}
fn go_nep<F: PrimeField>(c: &Case, p: Arc<NeptuneParams<F>>, t: usize) -> R {
    let mut pm = wrap_nep(&c.text, Neptune::new(&p), p.clone(), t);
    if ["spec", "inv"].contains(&c.s("do")) {
        if let Some(s) = nep_consts(&p) {
            pm.spec = Some(Arc::new(move |x| spec::neptune(&s, x)));
        }
        if let (Some(s), "inv") = (nep_consts(&p), c.s("do")) { set_inv(&mut pm, nep_inverse(s)); }
    }
    check(c, pm)
}

// ---------------------------------------------------------------- what is checked of a permutation
fn check<F: PrimeField>(c: &Case, p: Perm<F>) -> R {
    let mut r = c.rng();
    r.next();
    let mut input = |r: &mut Rng| -> Vec<F> {
        match c.vals("x") {
            Some(v) => v,
            None => r.vec(p.t),
        }
    };
    match c.s("do") {
        "spec" => {
            let s = match &p.spec { Some(s) => s, None => return Ok(false) };
            for _ in 0..3 {
                let x = input(&mut r);
                let want = s(&x);
                for (n, f) in &p.f {
                    if c.kv.contains_key("var") && c.s("var") != *n { continue; }
                    neq(n, &x, &f(&x), &want)?;
                }
            }
            Ok(true)
        }
        "opt" => {
            for _ in 0..3 {
                let x = input(&mut r);
                neq("optimised against plain evaluation", &x, &(p.f[0].1)(&x), &(p.f[1].1)(&x))?;
            }
            Ok(true)
        }
        "inv" => {
            if let Some(b) = &p.bad { return Err(format!("no bijection: {}", b)); }
            let inv = match &p.inv { Some(s) => s, None => return Ok(false) };
            for _ in 0..2 {
                let x = input(&mut r);
                for (n, f) in &p.f {
                    neq(&format!("inverse of {}", n), &x, &inv(&f(&x)), &x)?;
                    neq(&format!("{} of inverse", n), &x, &f(&inv(&x)), &x)?;
                }
            }
            Ok(true)
        }
        "len" => {
            let mut ls: Vec<usize> = (0..3 * p.t + 9).chain([4 * p.t, 64, 100, 128, 256]).collect();
            for n in dict() { if *n < 5000 { ls.extend([*n as usize, *n as usize + 1, (*n as usize).max(1) - 1, *n as usize + p.t]); } }
            if let Ok(n) = c.s("n").parse() { ls = vec![n]; }
            for l in ls {
                let x: Vec<F> = r.vec(l);
                for (n, f) in &p.f {
                    match quiet(|| f(&x)) {
                        Some(y) if l != p.t => return Err(format!("{} of {} elements returned {} elements for width {}", n, l, y.len(), p.t)),
                        Some(y) if y.len() != p.t => return Err(format!("{} returned {} elements for width {}", n, y.len(), p.t)),
                        None if l == p.t => return Err(format!("{} of the right length {} did not return", n, l)),
                        _ => {}
                    }
                }
            }
            Ok(true)
        }
        "compress" => {
            let w = if c.kind == "nep" { 4 } else { 3 };
            for _ in 0..3 {
                let x = match c.vals("x") { Some(v) => v, None => r.vec::<F>(2) };
                let got = quiet(|| (p.compress)(&[&x[0], &x[1]]));
                if p.t != w {
                    if let Some(g) = got { return Err(format!("compression at width {} returned {} for {}", p.t, g, show(&x))); }
                } else {
                    let mut st = vec![F::zero(); w];
                    st[0] = x[0];
                    st[1] = x[1];
                    let want = (p.f[0].1)(&st)[0];
                    match got {
                        Some(g) => { neq("compression", &x, &[g], &[want])?; }
                        None => return Err(format!("compression did not return for {}", show(&x))),
                    }
                }
            }
            Ok(true)
        }
        "tree" => {
            let w = if c.kind == "nep" { 4 } else { 3 };
            if p.t != w { return Ok(false); }
            struct H<F>(Arc<dyn Fn(&[&F]) -> F + Send + Sync>);
            impl<F: PrimeField> MerkleTreeHash<F> for H<F> { fn compress(&self, i: &[&F]) -> F { (self.0)(i) } }
            trees::check_perm(c, H(p.compress.clone()), &|x| (p.f[0].1)(x), w)
        }
        "get_t" => if p.get_t == p.t { Ok(true) } else { Err(format!("reported width {} for {}", p.get_t, p.t)) },
        "pure" => pure(c, p, &mut r),
        "long" => {
            // many calls on one thread: each gives what the first gave
            let x: Vec<F> = r.vec(p.t);
            let w = if c.kind == "nep" { 4 } else { 3 };
            let y: Vec<Vec<F>> = p.f.iter().map(|(_, f)| f(&x)).collect();
            let z = if p.t == w { Some((p.compress)(&[&x[0], &x[1]])) } else { None };
            for k in 0..c.n("n") {
                for (i, (n, f)) in p.f.iter().enumerate() {
                    if quiet(|| f(&x)).as_ref() != Some(&y[i]) { return Err(format!("{}: call {} differs from the first call | x={}", n, k + 1, show(&x))); }
                }
                if let Some(z) = z { if quiet(|| (p.compress)(&[&x[0], &x[1]])) != Some(z) { return Err(format!("compress: call {} differs from the first call | x={}", k + 1, show(&x))); } }
            }
            Ok(true)
        }
        x => Err(format!("unknown check {}", x)),
    }
}

extern "C" {
    fn fork() -> i32;
    fn pipe(f: *mut i32) -> i32;
    fn close(f: i32) -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}
/// The text f yields in a process of its own, started from this state; None when it panics.
fn isolated(f: impl FnOnce() -> String) -> Option<String> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    unsafe {
        let mut fd = [0i32; 2];
        if pipe(fd.as_mut_ptr()) != 0 { return None; }
        let pid = fork();
        if pid == 0 {
            close(fd[0]);
            let mut out = std::fs::File::from_raw_fd(fd[1]);
            let s = quiet(f);
            if let Some(s) = &s { let _ = out.write_all(s.as_bytes()); }
            drop(out);
            _exit(if s.is_some() { 0 } else { 3 });
        }
        close(fd[1]);
        let mut s = String::new();
        let _ = std::fs::File::from_raw_fd(fd[0]).read_to_string(&mut s);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st == 0 { Some(s) } else { None }
    }
}

/// Calls in some history give what each gives in a process where nothing was evaluated before.
fn pure<F: PrimeField>(c: &Case, p: Perm<F>, r: &mut Rng) -> R {
    let res = isolated(|| match pure_(c, p, r) { Ok(b) => format!("O{}", b), Err(e) => format!("E{}", e) });
    match res {
        Some(s) if s.starts_with('O') => Ok(s == "Otrue"),
        Some(s) => Err(s[1..].to_string()),
        None => Err("history case stopped".into()),
    }
}
fn pure_<F: PrimeField>(c: &Case, p: Perm<F>, r: &mut Rng) -> R {
    // inputs that agree in parts, so that a cache or left-over state would show
    let base: Vec<F> = r.vec(p.t);
    let mut xs = vec![base.clone()];
    let many = c.n("k");
    for k in 0..7 + many {
        let mut y = base.clone();
        match k {
            0 => y[p.t - 1] += F::one(),
            1 => y[0] += F::one(),
            2 => { let i = r.below(p.t); y[i] = r.field(); }
            3 => y.reverse(),
            4 => { y[0] += F::one(); y[p.t - 1] -= F::one(); }
            5 => y.rotate_left(1),
            _ => y = r.vec(p.t),
        }
        xs.push(y);
    }
    let w = if c.kind == "nep" { 4 } else { 3 };
    let objs: Vec<Perm<F>> = vec![(p.clone)(), (p.clone_obj)(), (p.clone_par)(), p];
    let nf = objs[0].f.len();
    // (variant, input): results on their own
    let call = |o: &Perm<F>, v: usize, i: usize, xs: &[Vec<F>]| -> String {
        if v < nf { show(&(o.f[v].1)(&xs[i])) } else { show(&[(o.compress)(&[&xs[i][0], &xs[i][1]])]) }
    };
    let nv = if objs[0].t == w { nf + 1 } else { nf };
    let mut alone = vec![];
    for v in 0..nv {
        for i in 0..xs.len() {
            alone.push(isolated(|| call(&objs[0], v, i, &xs)));
        }
    }
    let before = (objs[0].debug)();
    let n = xs.len();
    for step in 0..40 + 6 * many {
        let (o, v, i) = (r.below(objs.len()), r.below(nv), r.below(n));
        if r.below(5) == 0 {
            // an interrupted call leaves no trace either
            let bad: Vec<F> = r.vec(objs[o].t + 1);
            let _ = quiet(|| (objs[o].f[v % nf].1)(&bad));
        }
        let keep = xs[i].clone();
        let got = quiet(|| call(&objs[o], v, i, &xs));
        if got != alone[v * n + i] {
            return Err(format!("call {} (object {}, variant {}) on {}: {:?}, on its own {:?}", step, o, v, show(&xs[i]), got, alone[v * n + i]));
        }
        if keep != xs[i] { return Err("input changed".into()); }
    }
    let plans: Vec<Vec<(usize, usize, usize)>> = (0..4).map(|_| (0..12).map(|_| (r.below(objs.len()), r.below(nv), r.below(n))).collect()).collect();
    // threads share the objects' evaluation functions
    let shared: Vec<Vec<Arc<dyn Fn(&[F]) -> Vec<F> + Send + Sync>>> = objs.iter().map(|o| o.f.iter().map(|x| x.1.clone()).collect()).collect();
    let comp: Vec<_> = objs.iter().map(|o| o.compress.clone()).collect();
    let bad: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = plans.iter().map(|pl| {
            let (shared, comp, xs, alone) = (&shared, &comp, &xs, &alone);
            s.spawn(move || {
                for (o, v, i) in pl {
                    let got = quiet(|| if *v < nf { show(&(shared[*o][*v])(&xs[*i])) } else { show(&[(comp[*o])(&[&xs[*i][0], &xs[*i][1]])]) });
                    if got != alone[v * n + i] { return Some(format!("in a thread (object {}, variant {}) on {}: {:?}, on its own {:?}", o, v, show(&xs[*i]), got, alone[v * n + i])); }
                }
                None
            })
        }).collect();
        hs.into_iter().filter_map(|h| h.join().ok().flatten()).collect()
    });
    if let Some(b) = bad.into_iter().next() { return Err(b); }
    if (objs[0].debug)() != before { return Err("parameters changed by evaluation".into()); }
    Ok(true)
}

/// Two parameter sets of one type used in turn; and trees reused.
fn pure_pair<F: PrimeField>(c: &Case) -> R {
    let res = isolated(|| {
        let (t, d, rf, rp) = (c.n("t"), c.n("d"), c.n("rf"), c.n("rp"));
        let mut r = c.rng();
        let mk = |r: &mut Rng, d: usize| -> Option<Perm<F>> {
            let rc: M<F> = r.mat(rf + rp, t);
            match c.s("of") {
                "p2" => { let diag: Vec<F> = r.vec(t); let p = Arc::new(Poseidon2Params::new(t, d, rf, rp, &diag, &spec::p2_internal(t, &diag), &rc)); Some(wrap_p2("", Poseidon2::new(&p), p, t)) }
                "pos" => { let mds: M<F> = r.mat(t, t); let p = Arc::new(quiet(|| PoseidonParams::new(t, d, rf, rp, &mds, &rc))?); Some(wrap_pos("", Poseidon::new(&p), p, t)) }
                "gm" => { let p = Arc::new(GmimcParams::new(t, d, rp)); Some(wrap_gm("", Gmimc::new(&p), p, t)) }
                _ => { let p = Arc::new(NeptuneParams::new(t, d, rf, rp)); Some(wrap_nep("", Neptune::new(&p), p, t)) }
            }
        };
        let d2 = if r.below(2) == 0 { d } else { 3 };
        let (a, b) = match (mk(&mut r, d), mk(&mut r, d2)) { (Some(a), Some(b)) => (a, b), _ => return "Ofalse".to_string() };
        let xs: Vec<Vec<F>> = (0..3).map(|_| r.vec(t)).collect();
        let objs = [a, b];
        let mut alone = vec![];
        for o in 0..2 { for v in 0..objs[0].f.len() { for x in &xs { alone.push(isolated(|| show(&(objs[o].f[v].1)(x)))); } } }
        for _ in 0..24 {
            let (o, v, i) = (r.below(2), r.below(objs[0].f.len()), r.below(3));
            let got = quiet(|| show(&(objs[o].f[v].1)(&xs[i])));
            let want = &alone[(o * objs[0].f.len() + v) * 3 + i];
            if got != *want { return format!("Ewith two parameter sets in turn, set {} on {}: {:?}, on its own {:?}", o, show(&xs[i]), got, want); }
        }
        "Otrue".into()
    });
    match res {
        Some(s) if s.starts_with('O') => Ok(s == "Otrue"),
        Some(s) => Err(s[1..].to_string()),
        None => Ok(false),
    }
}

/// Accumulating on used, cloned and fresh objects gives what a fresh process gives.
fn pure_tree(c: &Case) -> R {
    use sha2::Digest;
    let res = isolated(|| {
        let mut r = c.rng();
        let sz = trees::sizes(c);
        macro_rules! hist {
            ($mk:expr, $sets:expr) => {{
                let sets = $sets;
                let alone: Vec<Option<String>> = sets.iter().map(|s| isolated(|| format!("{:?}", ($mk)().accumulate(s)))).collect();
                let mut ts = vec![($mk)()];
                for step in 0..16 {
                    let k = r.below(sets.len());
                    if r.below(3) == 0 { let j = r.below(ts.len()); let x = ts[j].clone(); ts.push(x); }
                    let j = r.below(ts.len());
                    let got = quiet(|| format!("{:?}", ts[j].accumulate(&sets[k])));
                    if got != alone[k] { return format!("Eaccumulation {} of {} leaves on a used tree: {:?}, on its own {:?}", step, sets[k].len(), got, alone[k]); }
                }
            }};
        }
        let mix = trees::Mix::<FpGoldiLocks>::new(&mut r);
        let sets: Vec<Vec<FpGoldiLocks>> = sz.iter().map(|s| r.vec(*s)).collect();
        hist!(|| zkhash::merkle_tree::merkle_tree_fp::MerkleTree::new(&mix), sets);
        let sets: Vec<Vec<_>> = sz.iter().map(|s| (0..*s).map(|_| sha2::Sha256::digest(r.next().to_le_bytes())).collect()).collect();
        hist!(|| zkhash::merkle_tree::merkle_tree_f2::MerkleTree::<sha2::Sha256>::new(), sets);
        "Otrue".into()
    });
    match res {
        Some(s) if s.starts_with('O') => Ok(true),
        Some(s) => Err(s[1..].to_string()),
        None => Err("history case stopped".into()),
    }
}

/// Many accumulations on one object: each gives what the first gave.
fn long_tree(c: &Case) -> R {
    let mut r = c.rng();
    let mix = trees::Mix::<FpGoldiLocks>::new(&mut r);
    let set: Vec<FpGoldiLocks> = (0..3).map(|_| r.field()).collect();
    let mut t = zkhash::merkle_tree::merkle_tree_fp::MerkleTree::new(&mix);
    let set2: Vec<_> = (0..2).map(|i| sha2::digest::Output::<trees::Tiny>::from([i as u8 + 1])).collect();
    let mut t2 = zkhash::merkle_tree::merkle_tree_f2::MerkleTree::<trees::Tiny>::new();
    let (a, b) = (t.accumulate(&set), t2.accumulate(&set2));
    for k in 0..c.n("n") {
        if quiet(|| t.accumulate(&set)) != Some(a) { return Err(format!("accumulation {} on one object differs from the first", k + 2)); }
        if quiet(|| t2.accumulate(&set2)) != Some(b) { return Err(format!("digest tree: accumulation {} on one object differs from the first", k + 2)); }
    }
    Ok(true)
}

// ---------------------------------------------------------------- matrices
fn rand_square<F: PrimeField>(c: &Case, r: &mut Rng, n: usize) -> M<F> {
    if let Some(v) = c.vals("m") { return rows(v, n); }
    match c.s("sh") {
        "upper" => (0..n).map(|i| (0..n).map(|j| if j >= i { r.field() } else { F::zero() }).collect()).collect(),
        "lower" => (0..n).map(|i| (0..n).map(|j| if j <= i { r.field() } else { F::zero() }).collect()).collect(),
        "diag" => (0..n).map(|i| (0..n).map(|j| if j == i { r.field() } else { F::zero() }).collect()).collect(),
        "unit" => (0..n).map(|i| (0..n).map(|j| if j == i { F::one() } else { F::from(r.below(2) as u64) }).collect()).collect(),
        "perm" => { let k = r.below(n); (0..n).map(|i| (0..n).map(|j| if (i + k) % n == j { F::one() } else { F::zero() }).collect()).collect() }
        "sing" => { let mut m: M<F> = r.mat(n, n); if n > 1 { let i = r.below(n - 1) + 1; m[i] = m[0].iter().map(|x| *x + x).collect(); } else { m[0][0] = F::zero(); } m }
        "late" => { // leading minors fine up to the last
            let mut m: M<F> = r.mat(n, n);
            if n > 1 { let a: Vec<F> = (0..n).map(|j| (0..n - 1).fold(F::zero(), |s, i| s + m[i][j])).collect(); m[n - 1] = a; }
            m
        }
        _ => r.mat(n, n),
    }
}
fn inverse_case<F: PrimeField>(c: &Case) -> R {
    let n = c.n("n");
    let mut r = c.rng();
    let m: M<F> = rand_square(c, &mut r, n);
    let keep = m.clone();
    let got = quiet(|| mat_inverse(&m));
    if keep != m { return Err("argument changed".into()); }
    let text = show(&m.iter().flatten().cloned().collect::<Vec<F>>());
    match got {
        Some(x) => {
            if x.len() != n || x.iter().any(|y| y.len() != n) { return Err(format!("result is not {0}x{0} | m={1}", n, text)); }
            for (w, p) in [("result times input", spec::mm(&x, &m)), ("input times result", spec::mm(&m, &x))] {
                for i in 0..n { for j in 0..n {
                    let want = if i == j { F::one() } else { F::zero() };
                    if p[i][j] != want { return Err(format!("{}: entry ({},{}) is {} | m={}", w, i, j, p[i][j], text)); }
                } }
            }
            Ok(true)
        }
        None if spec::leading_minors_ok(&m) => Err(format!("did not return although all leading minors are non-zero | m={}", text)),
        None => Ok(true),
    }
}
fn helper_case<F: PrimeField>(c: &Case) -> R {
    let mut r = c.rng();
    let (a, b) = (c.n("a"), c.n("b"));
    let fl = |m: &M<F>| show(&m.iter().flatten().cloned().collect::<Vec<F>>());
    match c.s("op") {
        "tr" => {
            let m: M<F> = r.mat(a, b);
            let keep = m.clone();
            let g = mat_transpose(&m);
            if m != keep { return Err("argument changed".into()); }
            let want: M<F> = (0..b).map(|j| (0..a).map(|i| m[i][j]).collect()).collect();
            if g != want { return Err(format!("transpose of {}x{} | m={} got={}", a, b, fl(&m), fl(&g))); }
        }
        "mv" => {
            let m: M<F> = r.mat(a, a);
            let x: Vec<F> = r.vec(a);
            let want = spec::mv(&m, &x);
            neq(&format!("Poseidon mat_vec_mul m={}", fl(&m)), &x, &PoseidonParams::<F>::mat_vec_mul(&m, &x), &want)?;
            neq(&format!("Poseidon2 mat_vec_mul m={}", fl(&m)), &x, &Poseidon2Params::<F>::mat_vec_mul(&m, &x), &want)?;
        }
        "mm" => {
            let (m, k): (M<F>, M<F>) = (r.mat(a, a), r.mat(a, a));
            let g = PoseidonParams::<F>::mat_mat_mul(&m, &k);
            if g != spec::mm(&m, &k) { return Err(format!("product {}x{} m={} k={}", a, a, fl(&m), fl(&k))); }
        }
        _ => {
            // moved constants: the partial rounds with them equal the partial rounds with the plain ones
            let (rf, rp, d) = (c.n("rf"), c.n("rp"), 3);
            let m: M<F> = r.mat(a, a);
            let rc: M<F> = r.mat(rf + rp + rf, a);
            let opt = match quiet(|| Poseidon2Params::<F>::equivalent_round_constants(&rc, &m, rf, rp)) { Some(o) => o, None => { return if spec::leading_minors_ok(&m) { Err(format!("moved constants: did not return for rf={} rp={} m={}", rf, rp, fl(&m))) } else { Ok(false) }; } };
            for _ in 0..3 {
                let x: Vec<F> = r.vec(a);
                let (mut s, mut o) = (x.clone(), x.clone());
                for i in 0..a { o[i] += opt[0][i]; }
                for k in 0..rp {
                    for i in 0..a { s[i] += rc[rf + k][i]; }
                    s[0] = spec::pow(s[0], d);
                    s = spec::mv(&m, &s);
                    o[0] = spec::pow(o[0], d) + opt[k + 1][0];
                    o = spec::mv(&m, &o);
                }
                neq(&format!("partial rounds with moved constants, rf={} rp={} m={} rc={}", rf, rp, fl(&m), fl(&rc)), &x, &o, &s)?;
            }
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- hex
fn hex_case<F: PrimeField>(c: &Case) -> R {
    let s = unesc(c.s("s"));
    if s.len() < 2 || !s.as_bytes()[..2].is_ascii() {
        return Ok(false);
    }
    let digits = &s[2..];
    let ok = digits.len() % 2 == 0 && digits.chars().all(|x| x.is_ascii_hexdigit());
    let got = quiet(|| from_hex::<F>(&s));
    if !ok {
        return match got { Some(g) => Err(format!("{:?} is no even run of hex digits but yields {}", s, g)), None => Ok(true) };
    }
    let sixteen = F::from(16u64);
    let want = digits.chars().fold(F::zero(), |a, d| a * sixteen + F::from(d.to_digit(16).unwrap() as u64));
    match got {
        Some(g) if g == want => Ok(true),
        Some(g) => Err(format!("{:?} yields {}, expected {}", s, g.into_bigint(), want.into_bigint())),
        None => Err(format!("{:?} did not parse", s)),
    }
}
fn esc(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02x}", b) }).collect() }
fn unesc(s: &str) -> String {
    let b = s.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == b'%' { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; } else { o.push(b[i]); i += 1; }
    }
    String::from_utf8(o).unwrap()
}

// ---------------------------------------------------------------- parameter generation
fn gen_case<F: PrimeField>(c: &Case) -> R {
    let (t, d, rf, rp) = (c.n("t"), c.n("d"), c.n("rf"), c.n("rp"));
    let big = F::MODULUS_BIT_SIZE > 200;
    let distinct = |v: &[F], what: &str| -> Result<(), String> {
        if !big { return Ok(()); }
        let mut s = v.to_vec();
        s.sort();
        s.dedup();
        if s.len() != v.len() { return Err(format!("{}: {} drawn values, only {} different ones", what, v.len(), s.len())); }
        // uniform draws: all in the lower (upper) half has probability 2^-n
        let half = (-F::one()) * F::from(2u64).inverse().unwrap();
        for (w, k) in [("lower", v.iter().filter(|x| **x <= half).count()), ("upper", v.iter().filter(|x| **x > half).count())] {
            if v.len() >= 64 && k == v.len() { return Err(format!("{}: all {} drawn values lie in the {} half of the field", what, k, w)); }
        }
        Ok(())
    };
    if c.s("of") == "gm" {
        let p = GmimcParams::<F>::new(t, d, rp);
        if p.get_t() != t || p.get_rounds() != rp { return Err(format!("reported width {} and rounds {} for {} and {}", p.get_t(), p.get_rounds(), t, rp)); }
        let (t_, d_, n, rc) = match gm_consts(&p) { Some(x) => x, None => return Ok(false) };
        if (t_, d_, n) != (t, d, rp) { return Err(format!("stored t={} d={} rounds={}, asked for {} {} {}", t_, d_, n, t, d, rp)); }
        if rc.len() != rp { return Err(format!("{} round constants for {} rounds", rc.len(), rp)); }
        distinct(&rc, "GMiMC round constants")?;
        let q = GmimcParams::<F>::new(t, d, rp);
        if let Some((_, _, _, r2)) = gm_consts(&q) { distinct(&[rc, r2].concat(), "round constants of two GMiMC parameter sets")?; }
        return Ok(true);
    }
    if c.s("of") == "proc" {
        // another process draws other values
        let run = || -> Option<Vec<String>> {
            let o = std::process::Command::new(std::env::current_exe().ok()?).arg("draw").output().ok()?;
            if !o.status.success() { return None; }
            Some(String::from_utf8_lossy(&o.stdout).lines().map(|x| x.to_string()).collect())
        };
        let (a, b) = match (run(), run()) { (Some(a), Some(b)) => (a, b), _ => return Ok(false) };
        for x in &a { if b.contains(x) { return Err(format!("two processes draw the same value {}", x)); } }
        return Ok(a.len() > 10);
    }
    if c.s("of") == "draw" {
        // all residues come up, zero never where it is excluded
        let mut seen = std::collections::HashSet::new();
        for _ in 0..60 * F::MODULUS.as_ref()[0] as usize {
            seen.insert(random_scalar::<F>().into_bigint().as_ref()[0]);
            if random_scalar_without_0::<F>().is_zero() { return Err("the draw without zero gave zero".into()); }
        }
        if seen.len() != F::MODULUS.as_ref()[0] as usize { return Err(format!("only {} residues are ever drawn", seen.len())); }
        return Ok(true);
    }
    let p = NeptuneParams::<F>::new(t, d, rf, rp);
    let dd = match parse_debug(&format!("{:?}", p)) { Some(x) => x, None => return Ok(false) };
    let s = match nep_consts(&p) { Some(x) => x, None => return Ok(false) };
    if (s.t, s.d, s.rf, s.rp) != (t, d, rf, rp) { return Err(format!("stored t={} d={} rf={} rp={}, asked for {} {} {} {}", s.t, s.d, s.rf, s.rp, t, d, rf, rp)); }
    if let Some(n) = dd.field("rounds").and_then(|x| x.usize()) { if n != rf + rp { return Err(format!("{} rounds in total for {}+{}", n, rf, rp)); } }
    if s.rc.len() != rf + rp || s.rc.iter().any(|x| x.len() != t) { return Err(format!("round constants are not {}x{}", rf + rp, t)); }
    if s.me.len() != t || s.me.iter().any(|x| x.len() != t) { return Err("external matrix has the wrong size".into()); }
    if s.mu.len() != t { return Err("internal diagonal has the wrong length".into()); }
    for m in &s.mu { if (*m + F::one()).is_zero() { return Err("an internal diagonal multiplier is zero".into()); } }
    let abc: Vec<F> = dd.field("abc").and_then(|x| x.vec()).unwrap();
    if abc[0] != F::one() || abc[1] != F::one() { return Err("alpha or beta is not 1".into()); }
    let mut drawn: Vec<F> = s.rc.iter().flatten().cloned().collect();
    let h = t / 2;
    for i in 0..t { for j in 0..t {
        let v = s.me[i][j];
        if (i + j) % 2 == 1 { if !v.is_zero() { return Err(format!("external matrix entry ({},{}) is not zero", i, j)); } continue; }
        let k = (j / 2 + h - i / 2) % h;
        let want = match (t, i % 2) {
            (4, 0) => [2u64, 1][k], (4, 1) => [1, 2][k],
            (8, 0) => [3, 2, 1, 1][k], (8, 1) => [1, 1, 2, 3][k],
            _ => { drawn.push(v); continue; }
        };
        if v != F::from(want) { return Err(format!("external matrix entry ({},{}) is {}, expected {}", i, j, v, want)); }
    } }
    drawn.extend(s.mu.iter().map(|x| *x + F::one()));
    drawn.push(s.gamma);
    distinct(&drawn, "Neptune constants")?;
    let q = NeptuneParams::<F>::new(t, d, rf, rp);
    if let Some(s2) = nep_consts(&q) {
        drawn.extend(s2.rc.iter().flatten().cloned());
        drawn.extend(s2.mu.iter().map(|x| *x + F::one()));
        drawn.push(s2.gamma);
        distinct(&drawn, "constants of two Neptune parameter sets")?;
    }
    Ok(true)
}
/// Drawn values, one per line (each kind of draw).
pub fn draws() {
    type F = FpBLS12;
    for _ in 0..6 { println!("{}", random_scalar::<F>().into_bigint()); println!("{}", random_scalar_without_0::<F>().into_bigint()); }
    if let Some((_, _, _, rc)) = gm_consts(&GmimcParams::<F>::new(3, 5, 10)) { for x in rc { println!("{}", x.into_bigint()); } }
    if let Some(s) = nep_consts(&NeptuneParams::<F>::new(6, 5, 2, 3)) {
        for x in s.rc.iter().flatten().chain(s.mu.iter()).chain([&s.gamma]) { println!("{}", x.into_bigint()); }
        for (i, r) in s.me.iter().enumerate() { for (j, x) in r.iter().enumerate() { if (i + j) % 2 == 0 { println!("{}", x.into_bigint()); } } }
    }
}
fn ceil_log(p: &[u64], d: u64, num: usize) -> usize {
    // ceil(num * log_d(p)): least n with d^n >= p^num
    fn mul(a: &[u64], b: &[u64]) -> Vec<u64> {
        let mut r = vec![0u64; a.len() + b.len()];
        for i in 0..a.len() { let mut c = 0u128; for j in 0..b.len() { let v = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c; r[i + j] = v as u64; c = v >> 64; } r[i + b.len()] = c as u64; }
        while r.len() > 1 && *r.last().unwrap() == 0 { r.pop(); }
        r
    }
    fn less(a: &[u64], b: &[u64]) -> bool { if a.len() != b.len() { return a.len() < b.len(); } for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i] < b[i]; } } false }
    let mut t = vec![1u64];
    for _ in 0..num { t = mul(&t, p); }
    let (mut n, mut x) = (0, vec![1u64]);
    while less(&x, &t) { x = mul(&x, &[d]); n += 1; }
    n
}
fn inst_gen(c: &Case) -> R {
    let i = c.s("i");
    if c.s("of") == "gm" {
        macro_rules! m { ($n:expr, $F:ty, $m:ident, $P:ident, $t:expr, $d:expr) => {
            if i == $n {
                let p = &*zkhash::gmimc::$m::$P;
                let want = (2 + 2 * ($t + $t * $t)).max(ceil_log(<$F as PrimeField>::MODULUS.as_ref(), $d, 2) + 2 * $t);
                if p.get_t() != $t { return Err(format!("width {}", p.get_t())); }
                if p.get_rounds() < want { return Err(format!("{} rounds, the documented formula asks for {}", p.get_rounds(), want)); }
                if let Some((_, d, n, rc)) = gm_consts(p) {
                    if d != $d { return Err(format!("degree {}", d)); }
                    if n < want || rc.len() != n { return Err(format!("{} rounds, {} constants, the documented formula asks for {}", n, rc.len(), want)); }
                    let k = rc.iter().collect::<std::collections::HashSet<_>>().len();
                    if <$F as PrimeField>::MODULUS_BIT_SIZE > 200 && k != n { return Err(format!("only {} of {} round constants are different", k, n)); }
                }
                return Ok(true);
            } } }
        each_gm!(m);
    } else {
        macro_rules! m { ($n:expr, $F:ty, $P:ident, $t:expr, $d:expr) => {
            if i == $n {
                let p = &*zkhash::neptune::neptune_instances::$P;
                // ceil(1.125 * ceil(log_d(2) * (min(128, log2 p) - 6) + 3 + t + log_d(t)))
                let bits = (<$F as PrimeField>::MODULUS.as_ref().iter().rev().fold(0f64, |a, l| a * 18446744073709551616.0 + *l as f64)).log2();
                let l = |x: f64| x.ln() / ($d as f64).ln();
                let inner = (l(2.0) * (bits.min(128.0) - 6.0) + 3.0 + $t as f64 + l($t as f64)).ceil() as usize;
                let want = (inner * 9 + 7) / 8;
                let s = match nep_consts(p) { Some(s) => s, None => return Ok(false) };
                if s.t != $t || s.d != $d { return Err(format!("width {} degree {}", s.t, s.d)); }
                if s.rf < 6 { return Err(format!("{} external rounds", s.rf)); }
                if s.rc.len() != s.rf + s.rp { return Err("number of constants".into()); }
                let k = s.rc.iter().flatten().collect::<std::collections::HashSet<_>>().len();
                if <$F as PrimeField>::MODULUS_BIT_SIZE > 200 && k != (s.rf + s.rp) * s.t { return Err(format!("only {} different round constants", k)); }
                if s.rp < want { return Err(format!("{} internal rounds, the documented formula asks for {}", s.rp, want)); }
                return Ok(true);
            } } }
        each_nep!(m);
    }
    Err(format!("unknown instance {}", i))
}

// ---------------------------------------------------------------- constructors
fn ctor_case<F: PrimeField>(c: &Case) -> R {
    let (t, d, rf, rp) = (c.n("t"), c.n("d"), c.n("rf"), c.n("rp"));
    let mut r = c.rng();
    let known = [3usize, 5, 7].contains(&d);
    let stored = |dbg: String, rfs: bool| -> Result<(), String> {
        let dd = match parse_debug(&dbg) { Some(x) => x, None => return Ok(()) };
        let mut want = vec![("t", t), ("d", d)];
        if rfs { want.extend([("rounds_f_beginning", rf / 2), ("rounds_f_end", rf / 2), ("rounds_p", rp), ("rounds", rf + rp)]); } else { want.push(("rounds", rp)); }
        for (k, v) in want {
            if let Some(g) = dd.field(k).and_then(|x| x.usize()) { if g != v { return Err(format!("stored {}={}, asked for {}", k, g, v)); } }
        }
        Ok(())
    };
    let mats = |dbg: &str, l: &[(&str, &M<F>)]| -> Result<(), String> {
        let dd = match parse_debug(dbg) { Some(x) => x, None => return Ok(()) };
        for (k, v) in l { if let Some(g) = dd.field(k).and_then(|x| x.mat::<F>()) { if g != **v { return Err(format!("stored {} differs from the argument", k)); } } }
        Ok(())
    };
    match c.s("of") {
        "p2" => {
            let rc: M<F> = r.mat(rf + rp, t);
            let diag: Vec<F> = r.vec(t);
            let mi: M<F> = if t >= 2 && P2W.contains(&t) { spec::p2_internal(t, &diag) } else { r.mat(t, t) };
            let p = quiet(|| Poseidon2Params::new(t, d, rf, rp, &diag, &mi, &rc));
            let p = match p {
                None => return if rf % 2 == 0 && known { Err("valid arguments were not accepted".into()) } else { Ok(true) },
                Some(p) => Arc::new(p),
            };
            if rf % 2 == 1 { return Err("odd number of full rounds accepted".into()); }
            let dbg = format!("{:?}", p);
            stored(dbg.clone(), true)?;
            mats(&dbg, &[("round_constants", &rc), ("_mat_internal", &mi)])?;
            if let Some(g) = parse_debug(&dbg).and_then(|x| x.field("mat_internal_diag_m_1").and_then(|y| y.vec::<F>())) { if g != diag { return Err("stored diagonal differs".into()); } }
            let h = Poseidon2::new(&p);
            if h.get_t() != t { return Err(format!("reported width {}", h.get_t())); }
            if P2W.contains(&t) {
                let x: Vec<F> = r.vec(t);
                match quiet(|| h.permutation(&x)) {
                    None => return Err(format!("degree {} is accepted but cannot be evaluated", d)),
                    Some(y) => if !known { neq("accepted degree", &x, &y, &spec::poseidon2(&spec::P2 { t, d, rf, rp, diag, rc }, &x))?; },
                }
            }
            Ok(true)
        }
        "pos" => {
            let (mr, mc) = (c.n("mr"), c.n("mc"));
            let rc: M<F> = r.mat(rf + rp, t);
            let mds: M<F> = r.mat(mr, mc);
            let p = match quiet(|| PoseidonParams::new(t, d, rf, rp, &mds, &rc)) {
                None => {
                    if !(rf % 2 == 0 && known && mr == t && mc == t && rp >= 1 && t >= 2) { return Ok(true); }
                    // must be accepted when every matrix to invert has non-zero leading minors
                    let mut p: M<F> = spec::ident(t);
                    let mut fine = spec::leading_minors_ok(&mds);
                    for _ in 0..rp {
                        let w = spec::mm(&p, &mds);
                        let sub: M<F> = (1..t).map(|i| w[i][1..].to_vec()).collect();
                        fine = fine && spec::leading_minors_ok(&sub);
                        p = (0..t).map(|i| (0..t).map(|j| if i > 0 && j > 0 { w[i][j] } else if i == j { F::one() } else { F::zero() }).collect()).collect();
                    }
                    return if fine { Err(format!("valid arguments were not accepted: mds={}", show(&mds.concat()))) } else { Ok(false) };
                }
                Some(p) => Arc::new(p),
            };
            if rf % 2 == 1 { return Err("odd number of full rounds accepted".into()); }
            if mr != t || mc != t { return Err(format!("{}x{} matrix accepted for width {}", mr, mc, t)); }
            let dbg = format!("{:?}", p);
            stored(dbg.clone(), true)?;
            mats(&dbg, &[("round_constants", &rc), ("mds", &mds)])?;
            let h = Poseidon::new(&p);
            if h.get_t() != t { return Err(format!("reported width {}", h.get_t())); }
            let x: Vec<F> = r.vec(t);
            for (n, y) in [("permutation", quiet(|| h.permutation(&x))), ("permutation_not_opt", quiet(|| h.permutation_not_opt(&x)))] {
                match y {
                    None => return Err(format!("degree {} is accepted but {} cannot evaluate it", d, n)),
                    Some(y) => if !known { neq("accepted degree", &x, &y, &spec::poseidon(t, d, rf, rp, &mds, &rc, &x))?; },
                }
            }
            Ok(true)
        }
        "gm" => {
            let p = match quiet(|| GmimcParams::<F>::new(t, d, rp)) {
                None => return if known { Err("valid arguments were not accepted".into()) } else { Ok(true) },
                Some(p) => Arc::new(p),
            };
            stored(format!("{:?}", p), false)?;
            if p.get_t() != t || p.get_rounds() != rp { return Err(format!("reported width {} and rounds {}", p.get_t(), p.get_rounds())); }
            let h = Gmimc::new(&p);
            if h.get_t() != t { return Err(format!("reported width {}", h.get_t())); }
            if t >= 2 && rp >= 1 {
                let x: Vec<F> = r.vec(t);
                for y in [quiet(|| h.permutation(&x)), quiet(|| h.permutation_not_opt(&x))] {
                    match y {
                        None => return Err(format!("degree {} is accepted but cannot be evaluated", d)),
                        Some(y) => if let (false, Some((_, _, _, rc))) = (known, gm_consts(&p)) { neq("accepted degree", &x, &y, &spec::gmimc(d, &rc, &x))?; },
                    }
                }
            }
            Ok(true)
        }
        _ => {
            let p = match quiet(|| NeptuneParams::<F>::new(t, d, rf, rp)) {
                None => return if known && rf % 2 == 0 && t % 2 == 0 && t >= 2 { Err("valid arguments were not accepted".into()) } else { Ok(true) },
                Some(p) => Arc::new(p),
            };
            if rf % 2 == 1 { return Err("odd number of external rounds accepted".into()); }
            if t % 2 == 1 { return Err("odd width accepted".into()); }
            stored(format!("{:?}", p), true)?;
            let h = Neptune::new(&p);
            if h.get_t() != t { return Err(format!("reported width {}", h.get_t())); }
            if t >= 2 {
                let x: Vec<F> = r.vec(t);
                match quiet(|| h.permutation(&x)) {
                    None => return Err(format!("degree {} is accepted but cannot be evaluated", d)),
                    Some(y) => if let (false, Some(s)) = (known, nep_consts(&p)) { neq("accepted degree", &x, &y, &spec::neptune(&s, &x))?; },
                }
            }
            Ok(true)
        }
    }
}

// ---------------------------------------------------------------- arithmetic of the field types
fn big<F: PrimeField>(x: &F) -> String { x.into_bigint().to_string() }
fn q(s: impl std::fmt::Display) -> String { format!("\"{}\"", s) }
fn jl(v: impl IntoIterator<Item = String>) -> String { format!("[{}]", v.into_iter().collect::<Vec<_>>().join(",")) }
fn jv<F: PrimeField>(v: &[F]) -> String { jl(v.iter().map(|x| q(big(x)))) }
fn jm<F: PrimeField>(m: &[Vec<F>]) -> String { jl(m.iter().map(|r| jv(r))) }
fn jd(d: &D) -> String {
    match d {
        D::Num(s) => q(s),
        D::List(l) => jl(l.iter().map(jd)),
        D::Struct(f) => format!("{{{}}}", f.iter().map(|(k, v)| format!("{}:{}", q(k), jd(v))).collect::<Vec<_>>().join(",")),
    }
}
fn jdbg(s: String) -> String { parse_debug(&s).map(|d| jd(&d)).unwrap_or("null".into()) }

fn dump_field<F: PrimeField + FftField>(n: &str) {
    let mut r = Rng(std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1) + 77);
    let mut ops = vec![];
    let edge: Vec<F> = vec![F::zero(), F::one(), -F::one(), F::from(2u64), -F::from(2u64), F::from(u64::MAX), F::from(1u64 << 32), F::from(0xffff_ffffu64), F::ONE.double().inverse().unwrap_or(F::zero())];
    let mut pairs: Vec<(F, F)> = vec![];
    for a in &edge { for b in &edge { pairs.push((*a, *b)); } }
    for _ in 0..300 { pairs.push((r.field(), r.field())); }
    for (a, b) in pairs {
        let mut dbl = a; dbl.double_in_place();
        let mut sq = a; sq.square_in_place();
        let mut neg = a; neg.neg_in_place();
        let inv = a.inverse().map(|x| q(big(&x))).unwrap_or("null".into());
        ops.push(jl([q(big(&a)), q(big(&b)), q(big(&(a + b))), q(big(&(a - b))), q(big(&(a * b))), q(big(&dbl)), q(big(&sq)), q(big(&neg)), inv, q(big(&a.pow([5u64])))]));
    }
    println!("{{\"kind\":\"field\",\"name\":{},\"modulus\":{},\"bits\":{},\"gen\":{},\"two_adicity\":{},\"root2\":{},\"trace\":{},\"ops\":{}}}",
        q(n), q(F::MODULUS.to_string()), F::MODULUS_BIT_SIZE, q(big(&F::GENERATOR)), F::TWO_ADICITY, q(big(&F::TWO_ADIC_ROOT_OF_UNITY)), q(F::TRACE.to_string()), jl(ops));
}

pub fn dump() {
    dump_field::<FpBabyBear>("babybear");
    dump_field::<FpBLS12>("bls12");
    dump_field::<FpBN256>("bn256");
    dump_field::<FpGoldiLocks>("goldilocks");
    dump_field::<FpPallas>("pallas");
    dump_field::<FpVesta>("vesta");
    macro_rules! m { ($n:expr, $F:ty, $m:ident, $P:ident, $di:ident, $mi:ident, $rc:ident, $t:expr, $d:expr, $rf:expr, $rp:expr) => {
        { use zkhash::poseidon2::$m::*;
          println!("{{\"kind\":\"p2\",\"name\":{},\"p\":{},\"t\":{},\"d\":{},\"rf\":{},\"rp\":{},\"diag\":{},\"mat\":{},\"rc\":{},\"params\":{},\"agrees\":{}}}", q($n), q(<$F as PrimeField>::MODULUS.to_string()), $t, $d, $rf, $rp, jv(&$di), jm(&$mi), jm(&$rc), jdbg(format!("{:?}", **$P)),
            agrees::<$F>(&|x| Poseidon2::new(&$P).permutation(x), &|x| spec::poseidon2(&spec::P2 { t: $t, d: $d, rf: $rf, rp: $rp, diag: $di.clone(), rc: $rc.clone() }, x), $t)); } } }
    each_p2!(m);
    macro_rules! m { ($n:expr, $F:ty, $m:ident, $P:ident, $mds:ident, $rc:ident, $t:expr, $d:expr, $rf:expr, $rp:expr) => {
        { use zkhash::poseidon::$m::*;
          println!("{{\"kind\":\"pos\",\"name\":{},\"p\":{},\"t\":{},\"d\":{},\"rf\":{},\"rp\":{},\"mds\":{},\"rc\":{},\"params\":{},\"agrees\":{}}}", q($n), q(<$F as PrimeField>::MODULUS.to_string()), $t, $d, $rf, $rp, jm(&$mds), jm(&$rc), jdbg(format!("{:?}", **$P)),
            agrees::<$F>(&|x| Poseidon::new(&$P).permutation_not_opt(x), &|x| spec::poseidon($t, $d, $rf, $rp, &$mds, &$rc, x), $t)); } } }
    each_pos!(m);
}
/// Does the instance evaluate like the specification with the exported tables?
fn agrees<F: PrimeField>(f: &dyn Fn(&[F]) -> Vec<F>, s: &dyn Fn(&[F]) -> Vec<F>, t: usize) -> bool {
    let mut r = Rng(5);
    (0..3).all(|_| { let x: Vec<F> = r.vec(t); quiet(|| f(&x)) == quiet(|| s(&x)) })
}

// ---------------------------------------------------------------- dispatch and generation
pub fn eval(c: &Case) -> R {
    match c.kind.as_str() {
        "p2" | "pos" | "gm" | "nep" => with_perm(c),
        "tree" => match c.s("of") {
            "orchard" => trees::check_orchard(c),
            "sapling" => trees::check_sapling(c),
            _ => by_field!(c.s("f"), F, trees::check_fp::<F>(c)),
        },
        "f2" => match c.s("dg") {
            "sha256" => trees::check_f2::<sha2::Sha256>(c),
            "sha512" => trees::check_f2::<sha2::Sha512>(c),
            "tiny" => trees::check_f2::<trees::Tiny>(c),
            "sha3" => trees::check_f2::<sha3::Sha3_256>(c),
            "blake2b" => trees::check_f2::<blake2::Blake2b512>(c),
            _ => trees::check_f2::<blake2::Blake2s256>(c),
        },
        "inverse" => by_field!(c.s("f"), F, inverse_case::<F>(c)),
        "helper" => by_field!(c.s("f"), F, helper_case::<F>(c)),
        "hex" => by_field!(c.s("f"), F, hex_case::<F>(c)),
        "gen" => by_field!(c.s("f"), F, gen_case::<F>(c)),
        "igen" => inst_gen(c),
        "ctor" => by_field!(c.s("f"), F, ctor_case::<F>(c)),
        "pair" => by_field!(c.s("f"), F, pure_pair::<F>(c)),
        "ptree" => pure_tree(c),
        "ltree" => long_tree(c),
        k => Err(format!("unknown kind {}", k)),
    }
}

fn instances() -> Vec<(&'static str, &'static str)> {
    let mut v = vec![];
    macro_rules! m { ($n:expr, $($x:tt)*) => { v.push(("p2", $n)); } }
    each_p2!(m);
    macro_rules! m { ($n:expr, $($x:tt)*) => { v.push(("pos", $n)); } }
    each_pos!(m);
    macro_rules! m { ($n:expr, $($x:tt)*) => { v.push(("gm", $n)); } }
    each_gm!(m);
    macro_rules! m { ($n:expr, $($x:tt)*) => { v.push(("nep", $n)); } }
    each_nep!(m);
    v
}
fn inst_cases(kinds: &[&str], what: &str, seed: u64) -> Vec<String> {
    instances().into_iter().filter(|(k, _)| kinds.contains(k)).map(|(k, n)| format!("{} i={} do={} seed={}", k, n, what, seed)).collect()
}

fn rnum(r: &mut Rng, small: usize) -> usize {
    if r.below(6) == 0 {
        if let Some(n) = pick(r, 3000) { return n; }
    }
    if r.below(60) == 0 { [100, 128, 129, 256, 257, 300][r.below(6)] } else { small }
}
fn custom_text(kind: &str, what: &str, r: &mut Rng) -> String {
    let f = if r.below(3) == 0 { FIELDS[r.below(9)] } else { FIELDS[r.below(3)] };
    let d = [3, 5, 7][r.below(3)];
    let s = r.next() >> 20;
    let (a, b) = (r.below(5), r.below(8));
    match kind {
        "p2" => format!("p2 f={} t={} d={} rf={} rp={} do={} seed={}", f, P2W[r.below(8)], if r.below(4) == 0 { 11 } else { d }, 2 * rnum(r, a), rnum(r, b), what, s),
        "pos" => { let t = if r.below(4) == 0 { 2 + r.upto(4, 40, 23) } else { 2 + r.below(6) }; format!("pos f={} t={} d={} rf={} rp={} do={} seed={}", if f == "17" { "gold" } else { f }, t, d, 2 * rnum(r, a), 1 + if t < 5 { rnum(r, b) } else { b }, what, s) }
        "gm" => { let n = r.below(60); format!("gm f={} t={} d={} rp={} do={} seed={}", f, 2 + r.upto(4, 130, 23), d, 1 + rnum(r, n), what, s) }
        _ => format!("nep f={} t={} d={} rf={} rp={} do={} seed={}", f, 2 * (1 + r.upto(6, 34, 12)), d, 2 * rnum(r, a), rnum(r, b), what, s),
    }
}
fn tree_sizes(r: &mut Rng) -> String {
    let n = 1 + r.below(4);
    (0..n).map(|_| { let k = r.below(9); if r.below(4) == 0 { if let Some(n) = pick(r, 40000) { return n.max(1).to_string(); } } match r.below(4) { 0 => (1usize << k).to_string(), 1 => ((1usize << k) + 1).to_string(), 2 => ((1usize << k).max(2) - 1).to_string(), _ => (1 + r.below(300)).to_string() } }).collect::<Vec<_>>().join(",")
}
const DG: [&str; 6] = ["sha256", "sha512", "sha3", "blake2b", "blake2s", "tiny"];
fn hex_text(r: &mut Rng) -> String {
    let f = FIELDS[r.below(9)];
    let pre = ["0x", "0X", "zz", "--", "00", "ff"][r.below(6)];
    let n = match pick(r, 5000) { Some(n) if r.below(3) == 0 => n, _ => match r.below(4) { 0 => r.below(6), 1 => 60 + r.below(10), 2 => r.below(200), _ => 2 * r.below(300) } };
    let mut s: String = pre.into();
    let up = r.below(3);
    for _ in 0..n { let c = b"0123456789abcdef"[r.below(16)] as char; s.push(if up == 0 || (up == 1 && r.below(2) == 0) { c.to_ascii_uppercase() } else { c }); }
    for _ in 0..[0, 0, 0, 1, 1, 2][r.below(6)] {
        // one odd character or word of the sources: put in or in place of a digit, at either end or anywhere
        let i = 2 + match r.below(4) { 0 => 0, 1 => s.len() - 2, _ => r.below(s.len() - 1) };
        let w = match r.below(4) {
            0 => ["g", "G", "x", "X", " ", "_", "+", "-", "/", ":", "@", "`", "\u{e9}", "\n", "\u{ff11}", "\u{a0}", "0x", "\u{662}"][r.below(18)].to_string(),
            1 if !words().is_empty() => words()[r.below(words().len())].clone(),
            _ => (r.below(128) as u8 as char).to_string(),
        };
        let w = w.repeat(1 + r.below(8) / 6);
        if !s.is_char_boundary(i) { continue; }
        if r.below(2) == 0 && i < s.len() && s.is_char_boundary(i + 1) { s.replace_range(i..i + 1, &w); } else { s.insert_str(i, &w); }
    }
    format!("hex f={} s={}", f, esc(&s))
}

/// Cases run in every run.
pub fn fixed(prop: &str, seed: u64) -> Vec<String> {
    let mut v = vec![];
    let mut r = Rng(seed + 99);
    let grid = |v: &mut Vec<String>, kind: &str, what: &str, r: &mut Rng| {
        for f in ["101", "bls"] {
            for d in [3, 5, 7] {
                match kind {
                    "p2" => for t in P2W { for (rf, rp) in [(0, 0), (2, 0), (0, 1), (4, 3), (8, 13)] { v.push(format!("p2 f={} t={} d={} rf={} rp={} do={} seed={}", f, t, d, rf, rp, what, r.next() >> 20)); } },
                    "pos" => for t in (2..25).chain([25, 28, 32, 33]) { for (rf, rp) in [(0, 1), (2, 2), (4, 3), (8, 5)] { if (t > 8 && rp == 5) || (t > 24 && rp > 2) { continue; } v.push(format!("pos f={} t={} d={} rf={} rp={} do={} seed={}", f, t, d, rf, rp, what, r.next() >> 20)); } },
                    "gm" => for t in (2..25).chain([25, 28, 31, 32, 33, 40, 48, 64, 65, 128, 129]) { for n in [1, 2, 3, t - 1, t, t + 1, 2 * t + 3] { if n == 0 { continue; } v.push(format!("gm f={} t={} d={} rp={} do={} seed={}", f, t, d, n, what, r.next() >> 20)); } },
                    _ => for t in (2..25).step_by(2).chain([26, 32, 34, 48, 64, 66]) { for (rf, rp) in [(0, 0), (2, 0), (0, 1), (4, 3), (6, 9)] { v.push(format!("nep f={} t={} d={} rf={} rp={} do={} seed={}", f, t, d, rf, rp, what, r.next() >> 20)); } },
                }
            }
        }
    };
    match prop {
        "C01" => { v.extend(inst_cases(&["p2"], "spec", seed)); grid(&mut v, "p2", "spec", &mut r); }
        "C02" => { v.extend(inst_cases(&["pos"], "spec", seed).into_iter().map(|x| x + " var=permutation_not_opt")); let mut w = vec![]; grid(&mut w, "pos", "spec", &mut r); v.extend(w.into_iter().map(|x| x + " var=permutation_not_opt")); }
        "C03" => { v.extend(inst_cases(&["pos"], "opt", seed)); grid(&mut v, "pos", "opt", &mut r); }
        "C04" => { v.extend(inst_cases(&["gm"], "spec", seed)); grid(&mut v, "gm", "spec", &mut r); }
        "C05" => { v.extend(inst_cases(&["nep"], "spec", seed)); grid(&mut v, "nep", "spec", &mut r); }
        "C06" => { v.extend(inst_cases(&["p2", "pos", "gm", "nep"], "inv", seed)); }
        "C07" => {
            for of in ["fp", "orchard", "sapling"] {
                for n in dict() { if *n > 1000 && *n < 1200000 { for n in [*n - 1, *n, *n + 1] { v.push(format!("tree of={} f=gold s={} seed={}", of, n, r.next() >> 20)); } } }
                for s in (1..70).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025]) { v.push(format!("tree of={} f={} s={} seed={}", of, ["101", "gold", "bls"][s % 3], s, r.next() >> 20)); }
                for k in 0..40 { v.push(format!("tree of={} f={} s={},{},{} seed={}", of, ["17", "gold", "bb"][k % 3], 2 + k % 3, 4 + k % 5, 3 + k % 14, r.next() >> 20)); }
                for s in [4097, 32769, 65537, 98304, 131073, 262145, 600000] { v.push(format!("tree of={} f=gold s={} seed={}", of, s, r.next() >> 20)); }
                v.push(format!("tree of={} f=gold s=5,3,8,1,2,16,17,4 seed={}", of, r.next() >> 20));
            }
            for x in inst_cases(&["p2", "pos", "gm", "nep"], "tree", seed) { if x.contains("_3 ") || x.contains("_4 ") { v.push(x + " s=1,2,3,5"); } }
        }
        "C08" => { for n in dict() { if *n > 1000 && *n < 1200000 { for n in [*n - 1, *n, *n + 1] { v.push(format!("f2 dg=tiny s={} seed={}", n, r.next() >> 20)); v.push(format!("f2 dg=sha256 s={} seed={}", n, r.next() >> 20)); } } }
            for (k, s) in (1..70).chain([127, 128, 129, 255, 257, 1025, 4097, 65537, 131073]).enumerate() {
            v.push(format!("f2 dg={} s={} seed={}", DG[k % 6], s, r.next() >> 20));
            v.push(format!("f2 dg={} s={},3,{},1,8 make=default seed={}", DG[(k + 1) % 6], s, s + 1, r.next() >> 20));
        } },
        "C09" => { v.extend(inst_cases(&["p2", "pos", "gm", "nep"], "compress", seed)); for k in ["p2", "pos", "gm", "nep"] { let mut w = vec![]; grid(&mut w, k, "compress", &mut r); v.extend(w.into_iter().step_by(3)); } }
        "C10" => for n in (1..25).chain([25, 28, 32, 33, 40]) { for sh in ["rnd", "upper", "lower", "diag", "unit", "perm", "sing", "late"] { for f in ["17", "101", "gold", "bls"] { v.push(format!("inverse f={} n={} sh={} seed={}", f, n, sh, r.next() >> 20)); } } },
        "C11" => {
            for a in 1..25 { for b in [1, 2, 3, a, 24, 25 - a] { v.push(format!("helper f=gold op=tr a={} b={} seed={}", a, b, r.next() >> 20)); }
                for op in ["mv", "mm"] { for f in ["101", "bls"] { v.push(format!("helper f={} op={} a={} seed={}", f, op, a, r.next() >> 20)); } } }
            for a in 1..13 { for (rf, rp) in [(0, 1), (1, 1), (0, 2), (2, 3), (4, 7)] { v.push(format!("helper f=gold op=eq a={} rf={} rp={} seed={}", a, rf, rp, r.next() >> 20)); } }
        }
        "C12" => {
            for f in FIELDS { for s in ["0x", "0x00", "0xff", "0XFf", "0x0", "0xfff", "0xg0", "0x0g", "0x 1", "0x+1", "0x-1", "0x0x", "0x00000000000000000000", "0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", "0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"] { v.push(format!("hex f={} s={}", f, esc(s))); } }
            for i in 0..128u8 { let c = i as char; v.push(format!("hex f=bls s={}", esc(&format!("0x{}1", c)))); v.push(format!("hex f=gold s={}", esc(&format!("0x1{}", c)))); }
            let mut odd: Vec<String> = (0..128u8).map(|i| (i as char).to_string()).chain(["\u{a0}", "\u{2003}", "\u{ff11}", "\u{660}", "\u{feff}"].map(String::from)).collect();
            odd.extend(words().iter().cloned());
            for c in odd { for p in ["0x$12", "0x12$", "0x1$2", "0x$123", "0x123$", "0x12$$", "0x$$12", "0x12$34", "0x$", "$12", "$0x12", "0x$0x12"] { v.push(format!("hex f=bls s={}", esc(&p.replace('$', &c)))); } }
            for n in 0..140 { v.push(format!("hex f=bls s=0x{}", "c".repeat(n))); v.push(format!("hex f=bb s=0x{}", "F".repeat(n))); v.push(format!("hex f=pal s=0x1{}", "0".repeat(n))); }
        }
        "C14" => {
            for n in [255, 256, 257, 300, 513, 700, 1025, 1202, 2049, 5000] { v.push(format!("gen of=gm f=bls t={} d=5 rf=0 rp={}", 2 + n % 20, n)); }
            for (t, n) in [(4, 300), (8, 260), (12, 130), (24, 70), (6, 1100)] { v.push(format!("gen of=nep f=bls t={} d=5 rf=6 rp={}", t, n)); }
            for t in [102, 130, 200] { v.push(format!("gen of=nep f=bls t={} d=5 rf=2 rp=1", t)); }
            for n in dict().iter().filter(|n| **n > 2 && **n < 150) { let n = *n as usize; for t in [n + n % 2, n + n % 2 + 2, 2 * n, 2 * n + 2] { if t > 24 && t < 260 { v.push(format!("gen of=nep f=bls t={} d=3 rf=2 rp=1", t)); } } }
            for (k, n) in instances() { if k == "gm" || k == "nep" { v.push(format!("igen of={} i={}", k, n)); } }
            for f in ["bls", "17"] { for d in [3, 5, 7] {
                for t in (1..25).chain([25, 32, 33, 64, 100]) { for n in [1, 2, t, 3 * t + 1] { v.push(format!("gen of=gm f={} t={} d={} rp={}", f, t, d, n)); } }
                for t in (2..25).step_by(2).chain([26, 32, 34, 64]) { for (rf, rp) in [(0, 0), (2, 1), (6, 20)] { v.push(format!("gen of=nep f={} t={} d={} rf={} rp={}", f, t, d, rf, rp)); } }
            } }
            for _ in 0..20 { v.push("gen of=nep f=17 t=24 d=3 rf=2 rp=3".into()); }
            v.push("gen of=proc f=bls".into());
            v.push("gen of=draw f=17".into());
            v.push("gen of=draw f=101".into());
        }
        "C15" => { v.extend(inst_cases(&["p2", "pos", "gm", "nep"], "len", seed)); for k in ["p2", "pos", "gm", "nep"] { let mut w = vec![]; grid(&mut w, k, "len", &mut r); v.extend(w.into_iter().step_by(3)); } }
        "C16" => {
            for d in 0..26 { for rf in 0..10 { for t in [2, 3, 4, 8] {
                v.push(format!("ctor of=p2 f=101 t={} d={} rf={} rp={} seed={}", t, d, rf, r.below(6), r.next() >> 20));
                v.push(format!("ctor of=pos f=bls t={} d={} rf={} rp={} mr={} mc={} seed={}", t, d, rf, 1 + r.below(3), t, t, r.next() >> 20));
            } } }
            for d in [3, 5, 7, 11] { for t in 1..30 { for rf in [0, 1, 2, 7, 8] { v.push(format!("ctor of=p2 f=gold t={} d={} rf={} rp={} seed={}", t, d, rf, r.below(6), r.next() >> 20)); } } }
            for d in 0..26 { for t in 1..25 { v.push(format!("ctor of=gm f=gold t={} d={} rp={} seed={}", t, d, r.below(9), r.next() >> 20)); for rf in [0, 1, 2, 3, 8] { if t < 9 || d == 5 { v.push(format!("ctor of=nep f=gold t={} d={} rf={} rp={} seed={}", t, d, rf, r.below(5), r.next() >> 20)); } } } }
            for t in 2..7 { for mr in 1..9 { for mc in 1..9 { for rp in [1, 3] { v.push(format!("ctor of=pos f=bls t={} d=5 rf=4 rp={} mr={} mc={} seed={}", t, rp, mr, mc, r.next() >> 20)); } } } }
            for k in instances() { v.push(format!("{} i={} do=get_t", k.0, k.1)); }
        }
        "C18" => {
            v.extend(inst_cases(&["p2", "pos", "gm", "nep"], "pure", seed));
            for of in ["p2", "pos", "gm", "nep"] { for t in [2, 3, 4, 8, 12] { for _ in 0..3 { if of == "nep" && t == 3 { continue; } v.push(format!("pair of={} f=gold t={} d=7 rf=4 rp=5 seed={}", of, t, r.next() >> 20)); } } }
            let mut ns = vec![70000];
            ns.extend(dict().iter().filter(|n| **n > 70000 && **n < 3000000).map(|n| *n as usize + 3));
            for n in ns {
                for t in [3, 2] {
                    v.push(format!("p2 f=17 t={} d=3 rf=0 rp=1 do=long n={} seed={}", t, n, r.next() >> 20));
                    v.push(format!("pos f=101 t={} d=3 rf=0 rp=1 do=long n={} seed={}", t, n, r.next() >> 20));
                    v.push(format!("gm f=17 t={} d=3 rp=1 do=long n={} seed={}", t, n, r.next() >> 20));
                    v.push(format!("nep f=17 t=4 d=3 rf=0 rp=1 do=long n={} seed={}", n, r.next() >> 20));
                }
                v.push(format!("ltree n={} seed={}", n, r.next() >> 20));
            }
            for k in ["p2", "pos", "gm", "nep"] { for t in [2, 3, 4, 8] { if k == "nep" && t == 3 { continue; } for f in ["17", "101"] { v.push(format!("{} f={} t={} d=3 rf=2 rp=2 do=pure k=20 seed={}", k, f, t, r.next() >> 20)); } } }
            for _ in 0..8 { v.push(format!("ptree s={},{},1,2,3 seed={}", 1 + r.below(20), 1 + r.below(40), r.next() >> 20)); }
        }
        _ => {}
    }
    v
}

pub fn random(prop: &str, r: &mut Rng) -> Option<String> {
    let any = |r: &mut Rng| ["p2", "pos", "gm", "nep"][r.below(4)];
    Some(match prop {
        "C01" => custom_text("p2", "spec", r),
        "C02" => custom_text("pos", "spec", r) + " var=permutation_not_opt",
        "C03" => custom_text("pos", "opt", r),
        "C04" => custom_text("gm", "spec", r),
        "C05" => custom_text("nep", "spec", r),
        "C06" => { let v = instances(); let (k, n) = v[r.below(v.len())]; format!("{} i={} do=inv seed={}", k, n, r.next() >> 20) }
        "C07" => format!("tree of={} f={} s={} seed={}", ["fp", "orchard", "sapling"][r.below(3)], FIELDS[r.below(9)], tree_sizes(r), r.next() >> 20),
        "C08" => format!("f2 dg={} s={} seed={}", DG[r.below(6)], tree_sizes(r), r.next() >> 20),
        "C09" => { let k = any(r); custom_text(k, "compress", r) }
        "C10" => format!("inverse f={} n={} sh={} seed={}", FIELDS[r.below(9)], 1 + r.upto(6, 48, 24), ["rnd", "rnd", "upper", "lower", "diag", "unit", "perm", "sing", "late"][r.below(9)], r.next() >> 20),
        "C11" => format!("helper f={} op={} a={} b={} rf={} rp={} seed={}", FIELDS[r.below(9)], ["tr", "mv", "mm", "eq"][r.below(4)], 1 + r.upto(6, 48, 24), 1 + r.upto(6, 70, 24), r.below(6), 1 + r.below(9), r.next() >> 20),
        "C12" => hex_text(r),
        "C14" => if r.below(2) == 0 { format!("gen of=gm f={} t={} d={} rp={}", ["bls", "17", "pal"][r.below(3)], 1 + r.below(30), [3, 5, 7][r.below(3)], r.below(300)) } else { format!("gen of=nep f={} t={} d={} rf={} rp={}", ["bls", "17", "pal"][r.below(3)], 2 * (1 + r.below(12)), [3, 5, 7][r.below(3)], 2 * r.below(5), r.below(80)) },
        "C15" => { let k = any(r); custom_text(k, "len", r) }
        "C16" => { let k = any(r); let t = 1 + r.upto(8, 70, 26);
            let (a, b) = (r.below(20), r.below(9));
            let (a, b) = (rnum(r, a), rnum(r, b).min(if t < 6 { 400 } else { 20 }));
            let dd = pick(r, 100000);
            format!("ctor of={} f={} t={} d={} rf={} rp={} mr={} mc={} seed={}", k, ["gold", "bls", "101"][r.below(3)], t, if r.below(2) == 0 { [3, 5, 7, 11][r.below(4)] } else { match dd { Some(d) if r.below(2) == 0 => d, _ => r.below(40) } }, a, b, if r.below(3) > 0 { t } else { 1 + r.below(26) }, if r.below(3) > 0 { t } else { 1 + r.below(26) }, r.next() >> 20) }
        "C18" => { let v = instances(); match r.below(4) { 3 => { let k = any(r); custom_text(k, "pure", r) + " k=12" } 0 => format!("pair of={} f={} t={} d=7 rf=4 rp=5 seed={}", any(r), ["gold", "bls", "101"][r.below(3)], [2, 4, 8, 12, 16][r.below(5)], r.next() >> 20), 1 => format!("ptree s={} seed={}", tree_sizes(r), r.next() >> 20), _ => { let (k, n) = v[r.below(v.len())]; format!("{} i={} do=pure seed={}", k, n, r.next() >> 20) } } }
        _ => return None,
    })
}
