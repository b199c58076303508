//! Assumed contracts of the standard library, written as Rust code that the verifier executes in
//! place of the library's own (unsafe) implementation.  `A__b` stands for the method `A::b`;
//! `nat_*` are primitives implemented by the verifier.
#![allow(non_snake_case, unused_variables, dead_code, unused_mut, clippy::all)]
use std::marker::PhantomData;
use std::ops::{Range, RangeInclusive};

pub fn nat_unsup<R>() -> R { loop {} }
pub fn nat_ref<S, R>(s: &S, i: usize) -> R { loop {} } // reference to element i of the slice s refers to
pub fn nat_elem<S, R>(s: &S, i: usize) -> R { loop {} } // element i of the owned sequence s
pub fn nat_view<S, R>(s: &S, lo: usize, len: usize) -> R { loop {} } // subslice
pub fn nat_copy<A, R>(a: A) -> R { loop {} } // *a
pub fn nat_vec<R>() -> R { loop {} }
pub fn nat_push<V, T>(v: &mut V, x: T) { loop {} }
pub fn nat_add<A, B>(a: A, b: B) -> A { loop {} }
pub fn nat_mul<A, B>(a: A, b: B) -> A { loop {} }
pub fn nat_eq<A, B>(a: &A, b: &B) -> bool { loop {} }
pub fn nat_lt<A, B>(a: &A, b: &B) -> bool { loop {} }
pub fn nat_iter<A, R>(a: A) -> R { loop {} } // IntoIterator::into_iter
pub fn nat_panic<R>() -> R { loop {} }
pub fn nat_default<R>() -> R { loop {} }

pub trait It {
    type Item;
    fn next(&mut self) -> Option<Self::Item>;
    fn next_back(&mut self) -> Option<Self::Item> { nat_unsup() }
    fn len(&self) -> usize { nat_unsup() }
}

impl It for Range<usize> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.start < self.end { let x = self.start; self.start = x + 1; Some(x) } else { None }
    }
    fn next_back(&mut self) -> Option<usize> {
        if self.start < self.end { self.end -= 1; Some(self.end) } else { None }
    }
    fn len(&self) -> usize { if self.start < self.end { self.end - self.start } else { 0 } }
}

pub struct RangeFromIt { start: usize }
impl It for std::ops::RangeFrom<usize> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> { let x = self.start; self.start = x + 1; Some(x) }
}

pub struct RangeIncl { lo: usize, hi: usize, done: bool }
impl It for RangeIncl {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.done { return None; }
        if self.lo < self.hi { let x = self.lo; self.lo = x + 1; Some(x) }
        else if self.lo == self.hi { self.done = true; Some(self.lo) }
        else { None }
    }
    fn next_back(&mut self) -> Option<usize> {
        if self.done { return None; }
        if self.lo < self.hi { let x = self.hi; self.hi = x - 1; Some(x) }
        else if self.lo == self.hi { self.done = true; Some(self.lo) }
        else { None }
    }
    fn len(&self) -> usize { if self.done || self.lo > self.hi { 0 } else { self.hi - self.lo + 1 } }
}

/// slice::Iter / IterMut
pub struct SliceIter<S, R> { s: S, f: usize, b: usize, p: PhantomData<R> }
impl<S, R> It for SliceIter<S, R> {
    type Item = R;
    fn next(&mut self) -> Option<R> {
        if self.f < self.b { let i = self.f; self.f = i + 1; Some(nat_ref(&self.s, i)) } else { None }
    }
    fn next_back(&mut self) -> Option<R> {
        if self.f < self.b { self.b -= 1; Some(nat_ref(&self.s, self.b)) } else { None }
    }
    fn len(&self) -> usize { self.b - self.f }
}

/// vec::IntoIter, array::IntoIter
pub struct OwnIter<S, R> { s: S, f: usize, b: usize, p: PhantomData<R> }
impl<S, R> It for OwnIter<S, R> {
    type Item = R;
    fn next(&mut self) -> Option<R> {
        if self.f < self.b { let i = self.f; self.f = i + 1; Some(nat_elem(&self.s, i)) } else { None }
    }
    fn next_back(&mut self) -> Option<R> {
        if self.f < self.b { self.b -= 1; Some(nat_elem(&self.s, self.b)) } else { None }
    }
    fn len(&self) -> usize { self.b - self.f }
}

/// (a..b).step_by(step): values start, start+step, ..., rem of them
pub struct StepRange { start: usize, step: usize, rem: usize }
impl It for StepRange {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.rem > 0 { let x = self.start; self.start = x + self.step; self.rem -= 1; Some(x) } else { None }
    }
    fn next_back(&mut self) -> Option<usize> {
        if self.rem > 0 { self.rem -= 1; Some(self.start + self.step * self.rem) } else { None }
    }
    fn len(&self) -> usize { self.rem }
}

/// chunks, chunks_exact, chunks_mut, windows(size, step 1)
pub struct ChunkIter<S, R> { s: S, pos: usize, rem: usize, size: usize, n: usize, p: PhantomData<R> }
impl<S, R> It for ChunkIter<S, R> {
    type Item = R;
    fn next(&mut self) -> Option<R> {
        if self.rem > 0 {
            let p = self.pos;
            self.rem -= 1;
            self.pos = p + self.size;
            if p + self.size <= self.n { Some(nat_view(&self.s, p, self.size)) } else { Some(nat_view(&self.s, p, self.n - p)) }
        } else { None }
    }
    fn next_back(&mut self) -> Option<R> {
        if self.rem > 0 {
            self.rem -= 1;
            let p = self.pos + self.size * self.rem;
            if p + self.size <= self.n { Some(nat_view(&self.s, p, self.size)) } else { Some(nat_view(&self.s, p, self.n - p)) }
        } else { None }
    }
    fn len(&self) -> usize { self.rem }
}
pub struct WindowIter<S, R> { s: S, pos: usize, rem: usize, size: usize, p: PhantomData<R> }
impl<S, R> It for WindowIter<S, R> {
    type Item = R;
    fn next(&mut self) -> Option<R> {
        if self.rem > 0 { let p = self.pos; self.rem -= 1; self.pos = p + 1; Some(nat_view(&self.s, p, self.size)) } else { None }
    }
    fn next_back(&mut self) -> Option<R> {
        if self.rem > 0 { self.rem -= 1; Some(nat_view(&self.s, self.pos + self.rem, self.size)) } else { None }
    }
    fn len(&self) -> usize { self.rem }
}

pub struct Map<I, F> { it: I, f: F }
impl<I: It, F: FnMut(I::Item) -> B, B> It for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { None => None, Some(x) => Some((self.f)(x)) } }
    fn next_back(&mut self) -> Option<B> { match self.it.next_back() { None => None, Some(x) => Some((self.f)(x)) } }
    fn len(&self) -> usize { self.it.len() }
}
pub fn Iterator__map<I, F>(it: I, f: F) -> Map<I, F> { Map { it, f } }

pub struct Enumerate<I> { it: I, n: usize }
impl<I: It> It for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.it.next() { None => None, Some(x) => { let i = self.n; self.n = i + 1; Some((i, x)) } }
    }
    fn next_back(&mut self) -> Option<(usize, I::Item)> {
        match self.it.next_back() { None => None, Some(x) => { let l = self.it.len(); Some((self.n + l, x)) } }
    }
    fn len(&self) -> usize { self.it.len() }
}
pub fn Iterator__enumerate<I>(it: I) -> Enumerate<I> { Enumerate { it, n: 0 } }

pub struct Zip<A, B> { a: A, b: B }
impl<A: It, B: It> It for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() { None => None, Some(x) => match self.b.next() { None => None, Some(y) => Some((x, y)) } }
    }
    fn next_back(&mut self) -> Option<(A::Item, B::Item)> {
        let mut la = self.a.len();
        let mut lb = self.b.len();
        while la > lb { self.a.next_back(); la -= 1; }
        while lb > la { self.b.next_back(); lb -= 1; }
        match self.a.next_back() { None => None, Some(x) => match self.b.next_back() { None => None, Some(y) => Some((x, y)) } }
    }
    fn len(&self) -> usize { let a = self.a.len(); let b = self.b.len(); if a < b { a } else { b } }
}
pub fn Iterator__zip<A, B, C>(a: A, b: B) -> Zip<A, C> { Zip { a, b: nat_iter(b) } }
pub fn iter__zip<A, B, C, D>(a: A, b: B) -> Zip<C, D> { Zip { a: nat_iter(a), b: nat_iter(b) } }

pub struct Skip<I> { it: I, n: usize }
impl<I: It> It for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while self.n > 0 { self.n -= 1; match self.it.next() { None => return None, Some(_) => {} } }
        self.it.next()
    }
    fn next_back(&mut self) -> Option<I::Item> { if self.it.len() > self.n { self.it.next_back() } else { None } }
    fn len(&self) -> usize { let l = self.it.len(); if l > self.n { l - self.n } else { 0 } }
}
pub fn Iterator__skip<I>(it: I, n: usize) -> Skip<I> { Skip { it, n } }

pub struct Take<I> { it: I, n: usize }
impl<I: It> It for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.n > 0 { self.n -= 1; self.it.next() } else { None } }
    fn next_back(&mut self) -> Option<I::Item> {
        if self.n == 0 { return None; }
        let mut l = self.it.len();
        while l > self.n { self.it.next_back(); l -= 1; }
        self.n -= 1;
        self.it.next_back()
    }
    fn len(&self) -> usize { let l = self.it.len(); if l < self.n { l } else { self.n } }
}
pub fn Iterator__take<I>(it: I, n: usize) -> Take<I> { Take { it, n } }

pub struct Rev<I> { it: I }
impl<I: It> It for Rev<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.it.next_back() }
    fn next_back(&mut self) -> Option<I::Item> { self.it.next() }
    fn len(&self) -> usize { self.it.len() }
}
pub fn Iterator__rev<I>(it: I) -> Rev<I> { Rev { it } }

pub struct StepBy<I> { it: I, step: usize, first: bool }
impl<I: It> It for StepBy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.first { self.first = false; self.it.next() } else {
            let mut k = self.step;
            while k > 1 { k -= 1; match self.it.next() { None => return None, Some(_) => {} } }
            self.it.next()
        }
    }
    fn len(&self) -> usize { let l = self.it.len(); if self.first { (l + self.step - 1) / self.step } else { l / self.step } }
}
pub fn Iterator__step_by<I>(it: I, step: usize) -> StepBy<I> {
    if step == 0 { nat_panic() } else { StepBy { it, step, first: true } }
}

pub struct Chain<A, B> { a: A, b: B, in_a: bool, in_b: bool }
impl<A: It, B: It<Item = A::Item>> It for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if self.in_a { match self.a.next() { Some(x) => return Some(x), None => { self.in_a = false; } } }
        self.b.next()
    }
    fn next_back(&mut self) -> Option<A::Item> {
        if self.in_b { match self.b.next_back() { Some(x) => return Some(x), None => { self.in_b = false; } } }
        self.a.next_back()
    }
    fn len(&self) -> usize { self.a.len() + self.b.len() }
}
pub fn Iterator__chain<A, B, C>(a: A, b: B) -> Chain<A, C> { Chain { a, b: nat_iter(b), in_a: true, in_b: true } }

pub struct Copied<I> { it: I }
impl<I: It> It for Copied<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.it.next() { None => None, Some(x) => Some(nat_copy(x)) } }
    fn next_back(&mut self) -> Option<I::Item> { match self.it.next_back() { None => None, Some(x) => Some(nat_copy(x)) } }
    fn len(&self) -> usize { self.it.len() }
}
pub fn Iterator__copied<I>(it: I) -> Copied<I> { Copied { it } }
pub fn Iterator__cloned<I>(it: I) -> Copied<I> { Copied { it } }

pub struct Filter<I, F> { it: I, f: F }
impl<I: It, F: FnMut(&I::Item) -> bool> It for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop { match self.it.next() { None => return None, Some(x) => if (self.f)(&x) { return Some(x); } } }
    }
    fn next_back(&mut self) -> Option<I::Item> {
        loop { match self.it.next_back() { None => return None, Some(x) => if (self.f)(&x) { return Some(x); } } }
    }
}
pub fn Iterator__filter<I, F>(it: I, f: F) -> Filter<I, F> { Filter { it, f } }
pub struct FilterMap<I, F> { it: I, f: F }
impl<I: It, B, F: FnMut(I::Item) -> Option<B>> It for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        loop { match self.it.next() { None => return None, Some(x) => match (self.f)(x) { Some(y) => return Some(y), None => {} } } }
    }
}
pub fn Iterator__filter_map<I, F>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }
pub struct TakeWhile<I, F> { it: I, f: F, done: bool }
impl<I: It, F: FnMut(&I::Item) -> bool> It for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return None; }
        match self.it.next() { None => None, Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None } }
    }
}
pub fn Iterator__take_while<I, F>(it: I, f: F) -> TakeWhile<I, F> { TakeWhile { it, f, done: false } }
pub struct SkipWhile<I, F> { it: I, f: F, started: bool }
impl<I: It, F: FnMut(&I::Item) -> bool> It for SkipWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop {
            match self.it.next() {
                None => return None,
                Some(x) => if self.started || !(self.f)(&x) { self.started = true; return Some(x); },
            }
        }
    }
}
pub fn Iterator__skip_while<I, F>(it: I, f: F) -> SkipWhile<I, F> { SkipWhile { it, f, started: false } }
pub struct Inspect<I, F> { it: I, f: F }
impl<I: It, F: FnMut(&I::Item)> It for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.it.next() { None => None, Some(x) => { (self.f)(&x); Some(x) } } }
    fn len(&self) -> usize { self.it.len() }
}
pub fn Iterator__inspect<I, F>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub struct Scan<I, S, F> { it: I, s: S, f: F }
impl<I: It, S, B, F: FnMut(&mut S, I::Item) -> Option<B>> It for Scan<I, S, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { None => None, Some(x) => (self.f)(&mut self.s, x) } }
}
pub fn Iterator__scan<I, S, F>(it: I, s: S, f: F) -> Scan<I, S, F> { Scan { it, s, f } }
pub struct FlatMap<I, F, U> { it: I, f: F, cur: Option<U> }
impl<I: It, B, U: It, F: FnMut(I::Item) -> B> It for FlatMap<I, F, U> {
    type Item = U::Item;
    fn next(&mut self) -> Option<U::Item> {
        loop {
            match &mut self.cur { Some(c) => match c.next() { Some(x) => return Some(x), None => {} }, None => {} }
            match self.it.next() { None => return None, Some(x) => { let y = (self.f)(x); self.cur = Some(nat_iter(y)); } }
        }
    }
}
pub fn Iterator__flat_map<I, F, U>(it: I, f: F) -> FlatMap<I, F, U> { FlatMap { it, f, cur: None } }
pub struct Flatten<I, U> { it: I, cur: Option<U> }
impl<I: It, U: It> It for Flatten<I, U> {
    type Item = U::Item;
    fn next(&mut self) -> Option<U::Item> {
        loop {
            match &mut self.cur { Some(c) => match c.next() { Some(x) => return Some(x), None => {} }, None => {} }
            match self.it.next() { None => return None, Some(x) => { self.cur = Some(nat_iter(x)); } }
        }
    }
}
pub fn Iterator__flatten<I, U>(it: I) -> Flatten<I, U> { Flatten { it, cur: None } }
pub struct Peekable<I: It> { it: I, pk: Option<Option<I::Item>> }
impl<I: It> It for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.pk.take() { Some(x) => x, None => self.it.next() } }
}
pub fn Iterator__peekable<I: It>(it: I) -> Peekable<I> { Peekable { it, pk: None } }
pub fn Peekable__peek<I: It>(p: &mut Peekable<I>) -> Option<&I::Item> {
    if let None = p.pk { let x = p.it.next(); p.pk = Some(x); }
    match &p.pk { Some(Some(x)) => Some(x), _ => None }
}
pub fn Iterator__fuse<I>(it: I) -> I { it }
pub fn Iterator__by_ref<I>(it: &mut I) -> &mut I { it }
pub struct Repeat<T> { x: T }
impl<T: Clone> It for Repeat<T> { type Item = T; fn next(&mut self) -> Option<T> { Some(nat_copy(&self.x)) } }
pub fn iter__repeat<T>(x: T) -> Repeat<T> { Repeat { x } }
pub fn iter__repeat_n<T>(x: T, n: usize) -> Take<Repeat<T>> { Take { it: Repeat { x }, n } }
pub struct Cycle<I> { orig: I, it: I }
impl<I: It + Clone> It for Cycle<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.it.next() {
            Some(x) => Some(x),
            None => { self.it = nat_copy(&self.orig); self.it.next() }
        }
    }
}
pub fn Iterator__cycle<I>(it: I) -> Cycle<I> { Cycle { orig: nat_copy(&it), it } }
pub struct RepeatWith<F> { f: F }
impl<T, F: FnMut() -> T> It for RepeatWith<F> { type Item = T; fn next(&mut self) -> Option<T> { Some((self.f)()) } }
pub fn iter__repeat_with<F>(f: F) -> RepeatWith<F> { RepeatWith { f } }
pub struct Once<T> { x: Option<T> }
impl<T> It for Once<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.x.take() }
    fn next_back(&mut self) -> Option<T> { self.x.take() }
    fn len(&self) -> usize { if let Some(_) = &self.x { 1 } else { 0 } }
}
pub fn iter__once<T>(x: T) -> Once<T> { Once { x: Some(x) } }
pub fn iter__empty<T>() -> Once<T> { Once { x: None } }
pub struct Successors<T, F> { x: Option<T>, f: F }
impl<T, F: FnMut(&T) -> Option<T>> It for Successors<T, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> { match self.x.take() { None => None, Some(v) => { self.x = (self.f)(&v); Some(v) } } }
}
pub fn iter__successors<T, F>(x: Option<T>, f: F) -> Successors<T, F> { Successors { x, f } }
pub struct FromFn<F> { f: F }
impl<T, F: FnMut() -> Option<T>> It for FromFn<F> { type Item = T; fn next(&mut self) -> Option<T> { (self.f)() } }
pub fn iter__from_fn<F>(f: F) -> FromFn<F> { FromFn { f } }

// ---- consumers
pub fn Iterator__for_each<I: It, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x) } }
pub fn Iterator__fold<I: It, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn Iterator__rfold<I: It, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() { acc = f(acc, x); }
    acc
}
pub fn Iterator__reduce<I: It, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    match it.next() {
        None => None,
        Some(x) => { let mut acc = x; while let Some(y) = it.next() { acc = f(acc, y); } Some(acc) }
    }
}
pub fn collect_vec<I: It, V>(mut it: I) -> V {
    let mut v: V = nat_vec();
    while let Some(x) = it.next() { nat_push(&mut v, x); }
    v
}
pub fn collect_result<I: It<Item = Result<T, E>>, T, E, V>(mut it: I) -> Result<V, E> {
    let mut v: V = nat_vec();
    while let Some(x) = it.next() { match x { Ok(y) => nat_push(&mut v, y), Err(e) => return Err(e) } }
    Ok(v)
}
pub fn collect_option<I: It<Item = Option<T>>, T, V>(mut it: I) -> Option<V> {
    let mut v: V = nat_vec();
    while let Some(x) = it.next() { match x { Some(y) => nat_push(&mut v, y), None => return None } }
    Some(v)
}
pub fn sum_from<I: It, A>(mut it: I, zero: A) -> A {
    let mut acc = zero;
    while let Some(x) = it.next() { acc = nat_add(acc, x); }
    acc
}
pub fn prod_from<I: It, A>(mut it: I, one: A) -> A {
    let mut acc = one;
    while let Some(x) = it.next() { acc = nat_mul(acc, x); }
    acc
}
pub fn extend_vec<V, J, I: It>(v: &mut V, j: J) {
    let mut it: I = nat_iter(j);
    while let Some(x) = it.next() { nat_push(v, nat_copy::<I::Item, I::Item>(x)); }
}
pub fn extend_vec_val<V, J, I: It>(v: &mut V, j: J) {
    let mut it: I = nat_iter(j);
    while let Some(x) = it.next() { nat_push(v, x); }
}
pub fn Iterator__count<I: It>(mut it: I) -> usize { let mut n = 0; while let Some(_) = it.next() { n += 1; } n }
pub fn Iterator__last<I: It>(mut it: I) -> Option<I::Item> { let mut l = None; while let Some(x) = it.next() { l = Some(x); } l }
pub fn Iterator__nth<I: It>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = n;
    while k > 0 { k -= 1; match it.next() { None => return None, Some(_) => {} } }
    it.next()
}
pub fn Iterator__all<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn Iterator__any<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn Iterator__find<I: It, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = it.next() { if f(&x) { return Some(x); } } None }
pub fn Iterator__position<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; }
    None
}
pub fn Iterator__try_for_each<I: It, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() { match f(x) { Ok(_) => {}, Err(e) => return Err(e) } }
    Ok(())
}
pub fn Iterator__unzip<A, B, I: It<Item = (A, B)>, U, V>(mut it: I) -> (U, V) {
    let mut u: U = nat_vec();
    let mut v: V = nat_vec();
    while let Some((a, b)) = it.next() { nat_push(&mut u, a); nat_push(&mut v, b); }
    (u, v)
}
pub fn Iterator__eq<A: It, J, B: It>(mut a: A, b: J) -> bool {
    let mut b: B = nat_iter(b);
    loop {
        match a.next() {
            None => match b.next() { None => return true, Some(_) => return false },
            Some(x) => match b.next() { None => return false, Some(y) => if !nat_eq(&x, &y) { return false; } },
        }
    }
}
pub fn Iterator__max<I: It>(mut it: I) -> Option<I::Item> {
    match it.next() { None => None, Some(x) => { let mut m = x; while let Some(y) = it.next() { if !nat_lt(&y, &m) { m = y; } } Some(m) } }
}
pub fn Iterator__min<I: It>(mut it: I) -> Option<I::Item> {
    match it.next() { None => None, Some(x) => { let mut m = x; while let Some(y) = it.next() { if nat_lt(&y, &m) { m = y; } } Some(m) } }
}
pub fn array__map<S, F, V, R, T>(s: S, mut f: F) -> V where F: FnMut(R) -> T {
    let mut it = OwnIter::<S, R> { b: nat_len(&s), s, f: 0, p: PhantomData };
    let mut v: V = nat_vec();
    while let Some(x) = it.next() { let y = f(x); nat_push(&mut v, y); }
    v
}
pub fn nat_len<S>(s: &S) -> usize { loop {} }
pub fn array_from_fn<F, V, T>(mut f: F, n: usize) -> V where F: FnMut(usize) -> T {
    let mut v: V = nat_vec();
    let mut i = 0;
    while i < n { let y = f(i); nat_push(&mut v, y); i += 1; }
    v
}
pub fn resize_with<F, V, T>(v: &mut V, n: usize, mut f: F) where F: FnMut() -> T {
    while nat_len(&*v) < n { let y = f(); nat_push(v, y); }
}
pub fn slice_fill_with<F, S, T, R>(s: &mut S, n: usize, mut f: F) where F: FnMut() -> T {
    let mut i = 0;
    while i < n { let y = f(); nat_set(s, i, y); i += 1; }
}
pub fn nat_set<S, T>(s: &mut S, i: usize, x: T) { loop {} }
pub fn retain<V, T, F>(v: &mut V, mut f: F) where F: FnMut(&T) -> bool {
    let n = nat_len(&*v);
    let mut out: V = nat_vec();
    let mut i = 0;
    while i < n { let x: T = nat_elem(&*v, i); if f(&x) { nat_push(&mut out, x); } i += 1; }
    *v = out;
}

// ---- Option / Result
pub fn Option__map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn Option__and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn Option__unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn Option__unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn Option__map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn Option__map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn Option__or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn Option__or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn Option__filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn Option__ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn Option__ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn Option__is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn Option__is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn Option__is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn Option__is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn Option__as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn Option__as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn Option__take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn Option__replace<T>(o: &mut Option<T>, x: T) -> Option<T> { std::mem::replace(o, Some(x)) }
pub fn Option__insert<T>(o: &mut Option<T>, x: T) -> &mut T { *o = Some(x); match o { Some(y) => y, None => nat_unsup() } }
pub fn Option__unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => nat_panic() } }
pub fn Option__expect<T>(o: Option<T>, m: &str) -> T { match o { Some(x) => x, None => nat_panic() } }
pub fn Option__copied<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(nat_copy(x)), None => None } }
pub fn Option__cloned<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(nat_copy(x)), None => None } }
pub fn Option__zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn Option__unwrap_or_default<T>(o: Option<T>) -> T { match o { Some(x) => x, None => nat_default() } }
pub fn Result__map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn Result__map_err<T, E, G, F: FnOnce(E) -> G>(o: Result<T, E>, f: F) -> Result<T, G> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn Result__and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn Result__unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => nat_panic() } }
pub fn Result__expect<T, E>(o: Result<T, E>, m: &str) -> T { match o { Ok(x) => x, Err(_) => nat_panic() } }
pub fn Result__unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn Result__unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn Result__unwrap_or_default<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => nat_default() } }
pub fn Result__ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn Result__err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn Result__is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn Result__is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn Result__unwrap_err<T, E>(o: Result<T, E>) -> E { match o { Ok(_) => nat_panic(), Err(e) => e } }
pub fn bool__then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool__then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }

// ---- integers
pub fn int__is_power_of_two(x: usize) -> bool { x != 0 && nat_pow2test(x) }
pub fn nat_pow2test(x: usize) -> bool { loop {} }
pub fn int__next_power_of_two(x: usize) -> usize {
    let mut p = 1;
    while p < x { p *= 2; }
    p
}
pub fn int__pow(b: usize, e: u32) -> usize {
    let mut r = 1;
    let mut i = 0;
    while i < e { r *= b; i += 1; }
    r
}
