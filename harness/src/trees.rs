//! Merkle trees: a compression function that tells order, position and level apart, for every tree type.
use crate::spec;
use crate::util::*;
use ark_ff::PrimeField;
use sha2::digest::{Digest, FixedOutputReset, Output};
use std::cell::RefCell;
use zkhash::merkle_tree::{merkle_tree_f2 as f2, merkle_tree_fp as fp, merkle_tree_orchard as orchard, merkle_tree_sapling as sapling};

pub type R = Result<bool, String>;

pub struct Mix<F> {
    pub k: [F; 5],
    /// Some: a function on the three values 0, 1, 2 (collisions, fixed points, constant functions)
    pub small: Option<[u8; 36]>,
    pub bad: RefCell<Option<String>>,
}
/// Half of the time: a table of three values, by level (mod 4) and arguments.
fn small(r: &mut Rng) -> Option<[u8; 36]> {
    if r.below(2) == 0 {
        return None;
    }
    let mut t = [0u8; 36];
    let n = 1 + r.below(3);
    for x in t.iter_mut() {
        *x = r.below(n) as u8;
    }
    if r.below(2) == 0 {
        // idempotent on level 0: the node equals its children
        for i in 0..3 {
            t[4 * i] = i as u8;
        }
    }
    Some(t)
}

impl<F: PrimeField> Mix<F> {
    pub fn new(r: &mut Rng) -> Self {
        Mix { k: [r.field(), r.field(), r.field(), r.field(), r.field()], small: small(r), bad: RefCell::new(None) }
    }
    pub fn mix(&self, a: &F, b: &F) -> F {
        if let Some(t) = &self.small {
            let ix = |x: &F| if x.is_zero() { 0 } else if x.is_one() { 1 } else { 2 };
            return F::from(t[3 * ix(a) + ix(b)] as u64);
        }
        self.k[0] * a + self.k[1] * b + self.k[2] * a * a * b + self.k[3] * b * b + self.k[4]
    }
}
impl<F: PrimeField> fp::MerkleTreeHash<F> for &Mix<F> {
    fn compress(&self, input: &[&F]) -> F {
        if input.len() != 2 {
            *self.bad.borrow_mut() = Some(format!("compression called with {} inputs", input.len()));
        }
        self.mix(input[0], input[1])
    }
}

macro_rules! curve_mix {
    ($name:ident, $F:ty, $m:ident, $check:ident) => {
        #[derive(Clone, Debug)]
        pub struct $name {
            k: [$F; 6],
            small: Option<[u8; 36]>,
        }
        impl $name {
            fn mix(&self, lv: usize, a: &$F, b: &$F) -> $F {
                if let Some(t) = &self.small {
                    let ix = |x: &$F| if *x == <$F>::from(0) { 0 } else if *x == <$F>::from(1) { 1 } else { 2 };
                    return <$F>::from(t[9 * (lv % 4) + 3 * ix(a) + ix(b)] as u64);
                }
                self.k[0] * a + self.k[1] * b + self.k[2] * a * a * b + self.k[3] * b * b + self.k[4] + self.k[5] * <$F>::from(lv as u64)
            }
        }
        impl $m::MerkleTreeHash for $name {
            fn compress(&self, level: usize, input: &[&$F; 2]) -> $F {
                self.mix(level, input[0], input[1])
            }
        }
        pub fn $check(c: &Case) -> R {
            let mut r = c.rng();
            let mut el = |r: &mut Rng| {
                if !dict().is_empty() && r.below(4) == 0 {
                    return <$F>::from(dict()[r.below(dict().len())] as u64);
                }
                if r.below(16) == 0 {
                    return <$F>::from(r.below(3) as u64);
                }
                let a = <$F>::from(r.next());
                let b = <$F>::from(r.next());
                a * b + <$F>::from(r.next())
            };
            let k = [el(&mut r), el(&mut r), el(&mut r), el(&mut r), el(&mut r), el(&mut r)];
            let h = $name { k, small: small(&mut r) };
            let mut tree = $m::MerkleTree::new(h.clone());
            for (n, s) in sizes(c).into_iter().enumerate() {
                let same = r.below(6) == 0;
                let x = el(&mut r);
                let set: Vec<$F> = (0..s).map(|_| if h.small.is_some() { <$F>::from(if same { 1 } else { r.below(3) as u64 }) } else if same { x } else { el(&mut r) }).collect();
                let keep = set.clone();
                if r.below(4) == 0 {
                    tree = tree.clone();
                }
                let got = tree.accumulate(&set);
                let want = spec::merkle(&set, &mut |lv, a, b| h.mix(lv, a, b));
                if got != want {
                    return Err(format!("accumulation {} of {} leaves: got {:?}, specified root {:?}", n, s, got, want));
                }
                if keep != set {
                    return Err("leaves changed".into());
                }
            }
            Ok(true)
        }
    };
}
curve_mix!(MixO, pasta_curves::pallas::Base, orchard, check_orchard);
curve_mix!(MixS, jubjub::Base, sapling, check_sapling);

pub fn sizes(c: &Case) -> Vec<usize> {
    c.s("s").split(',').filter_map(|x| x.parse().ok()).filter(|x| *x >= 1).collect()
}

pub fn check_fp<F: PrimeField>(c: &Case) -> R {
    let mut r = c.rng();
    let h = Mix::<F>::new(&mut r);
    let mut tree = fp::MerkleTree::new(&h);
    for (n, s) in sizes(c).into_iter().enumerate() {
        let set: Vec<F> = if h.small.is_some() { (0..s).map(|_| F::from(r.below(3) as u64)).collect() } else { r.vec(s) };
        let keep = set.clone();
        if r.below(4) == 0 {
            tree = tree.clone();
        }
        let got = tree.accumulate(&set);
        let want = spec::merkle(&set, &mut |_, a, b| h.mix(a, b));
        if let Some(b) = h.bad.borrow().clone() {
            return Err(b);
        }
        if got != want {
            return Err(format!("accumulation {} of {} leaves: got {}, specified root {}", n, s, got, want));
        }
        if keep != set {
            return Err("leaves changed".into());
        }
    }
    Ok(true)
}
impl<F> std::fmt::Debug for Mix<F> {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}

/// The tree over a real permutation.
pub fn check_perm<F: PrimeField, P: fp::MerkleTreeHash<F>>(c: &Case, tree_hash: P, perm: &dyn Fn(&[F]) -> Vec<F>, t: usize) -> R {
    let mut r = c.rng();
    let mut tree = fp::MerkleTree::new(tree_hash);
    for s in sizes(c) {
        let set: Vec<F> = r.vec(s);
        let got = tree.accumulate(&set);
        let want = spec::merkle(&set, &mut |_, a, b| {
            let mut x = vec![F::zero(); t];
            x[0] = *a;
            x[1] = *b;
            perm(&x)[0]
        });
        if got != want {
            return Err(format!("{} leaves: got {}, specified root {}", s, got, want));
        }
    }
    Ok(true)
}

pub fn check_f2<D: Digest + FixedOutputReset + Clone>(c: &Case) -> R {
    let mut r = c.rng();
    let mut trees = vec![if c.s("make") == "default" { f2::MerkleTree::<D>::default() } else { f2::MerkleTree::<D>::new() }];
    for (n, s) in sizes(c).into_iter().enumerate() {
        let i = r.below(trees.len());
        match r.below(5) {
            0 => {
                let k = trees[i].clone();
                trees.push(k)
            }
            1 => trees.push(f2::MerkleTree::default()),
            2 => trees.push(f2::MerkleTree::new()),
            _ => {}
        }
        let i = r.below(trees.len());
        let same = r.below(6) == 0;
        let x = D::digest(r.next().to_le_bytes());
        let special = r.below(3) == 0;
        let set: Vec<Output<D>> = (0..s).map(|_| {
            let mut d = if same { x.clone() } else { D::digest(r.next().to_le_bytes()) };
            if special {
                // leaves are arbitrary bytes
                let style = r.below(4);
                for b in d.iter_mut() {
                    match style {
                        0 => *b = 0,
                        1 => *b = 255,
                        2 if r.below(3) == 0 => *b = [0, 1, 127, 128, 255][r.below(5)],
                        3 if !dict().is_empty() && r.below(2) == 0 => *b = dict()[r.below(dict().len())] as u8,
                        _ => {}
                    }
                }
            }
            d
        }).collect();
        let keep = set.clone();
        let got = trees[i].accumulate(&set);
        let want = spec::merkle(&set, &mut |_, a, b| {
            let mut v = a.to_vec();
            v.extend_from_slice(b);
            D::digest(&v)
        });
        if got != want {
            return Err(format!("accumulation {} (object {} of {}) of {} leaves: got {:02x?}, specified root {:02x?}", n, i, trees.len(), s, got.to_vec(), want.to_vec()));
        }
        if keep != set {
            return Err("leaves changed".into());
        }
    }
    Ok(true)
}

/// A digest of one byte with fixed points and collisions.
#[derive(Clone, Default, Debug)]
pub struct Tiny(Vec<u8>);
impl sha2::digest::HashMarker for Tiny {}
impl sha2::digest::OutputSizeUser for Tiny {
    type OutputSize = sha2::digest::consts::U1;
}
impl sha2::digest::Update for Tiny {
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data)
    }
}
impl sha2::digest::FixedOutput for Tiny {
    fn finalize_into(self, out: &mut Output<Self>) {
        let b = &self.0;
        out[0] = if b.len() == 2 && b[0] == b[1] && b[0] < 4 { b[0] } else { b.iter().fold(b.len() as u8, |a, x| a.wrapping_mul(3).wrapping_add(*x)) % 7 };
    }
}
impl sha2::digest::Reset for Tiny {
    fn reset(&mut self) {
        self.0.clear()
    }
}
impl FixedOutputReset for Tiny {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        sha2::digest::FixedOutput::finalize_into(self.clone(), out);
        self.0.clear()
    }
}
