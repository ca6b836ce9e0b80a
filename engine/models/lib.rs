//! Abstract-interpretation models of the std combinators: what they do to their arguments, with no
//! unsafe code. The interpreter analyses these bodies in place of std's. The functions are selected by
//! name: `m_<type>_<method>`; see vf/absint.py for the mapping from std paths.
#![allow(dead_code, unused)]
use std::ops::ControlFlow;

// ---------- Option
pub fn m_option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn m_option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn m_option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn m_option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn m_option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn m_option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn m_option_unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => T::default() } }
pub fn m_option_is_some<T>(o: Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn m_option_is_none<T>(o: Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn m_option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn m_option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn m_option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn m_option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn m_option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn m_option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn m_option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn m_option_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match (o, p) { (Some(a), None) => Some(a), (None, Some(b)) => Some(b), _ => None } }
pub fn m_option_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match (o, p) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
pub fn m_option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn m_option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn m_option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn m_option_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!() } }
pub fn m_option_unwrap1<T>(o: Option<T>, m: &str) -> T { match o { Some(x) => x, None => panic!() } }
pub fn m_result_unwrap1<T, E>(o: Result<T, E>, m: &str) -> T { match o { Ok(x) => x, Err(_) => panic!() } }
pub fn m_option_take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn m_option_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { std::mem::replace(o, Some(v)) }
pub fn m_option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }

// ---------- Result
pub fn m_result_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn m_result_map_err<T, E, G, F: FnOnce(E) -> G>(o: Result<T, E>, f: F) -> Result<T, G> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn m_result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn m_result_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(o: Result<T, E>, f: F) -> Result<T, G> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn m_result_and<T, E, U>(o: Result<T, E>, p: Result<U, E>) -> Result<U, E> { match o { Ok(_) => p, Err(e) => Err(e) } }
pub fn m_result_or<T, E, G>(o: Result<T, E>, p: Result<T, G>) -> Result<T, G> { match o { Ok(x) => Ok(x), Err(_) => p } }
pub fn m_result_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn m_result_err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn m_result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn m_result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn m_result_unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => T::default() } }
pub fn m_result_is_ok<T, E>(o: Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn m_result_is_err<T, E>(o: Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn m_result_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn m_result_is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(_) => false, Err(e) => f(e) } }
pub fn m_result_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
pub fn m_result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(x) => f(x), Err(e) => d(e) } }
pub fn m_result_transpose<T, E>(o: Result<Option<T>, E>) -> Option<Result<T, E>> { match o { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) } }
pub fn m_result_unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => panic!() } }
pub fn m_result_inspect<T, E, F: FnOnce(&T)>(o: Result<T, E>, f: F) -> Result<T, E> { match o { Ok(x) => { f(&x); Ok(x) } Err(e) => Err(e) } }
pub fn m_result_inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> { match o { Ok(x) => Ok(x), Err(e) => { f(&e); Err(e) } } }
pub fn m_result_flatten<T, E>(o: Result<Result<T, E>, E>) -> Result<T, E> { match o { Ok(x) => x, Err(e) => Err(e) } }
pub fn m_result_iter<T, E>(o: Result<T, E>) -> OptIter<T> { match o { Ok(x) => OptIter { o: Some(x) }, Err(_) => OptIter { o: None } } }
pub fn m_option_iter<T>(o: Option<T>) -> OptIter<T> { OptIter { o } }

// ---------- bool
pub fn m_bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn m_bool_then_some<T>(b: bool, v: T) -> Option<T> { if b { Some(v) } else { None } }

// ---------- iterators
pub struct OptIter<T> { o: Option<T> }
impl<T> Iterator for OptIter<T> { type Item = T; fn next(&mut self) -> Option<T> { std::mem::replace(&mut self.o, None) } }
pub struct Map<I, F> { it: I, f: F }
impl<I: Iterator, B, F: FnMut(I::Item) -> B> Iterator for Map<I, F> { type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => Some((self.f)(x)), None => None } } }
pub struct Filter<I, F> { it: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { loop { match self.it.next() { Some(x) => if (self.f)(&x) { return Some(x) }, None => return None } } } }
pub struct FilterMap<I, F> { it: I, f: F }
impl<I: Iterator, B, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> { type Item = B;
    fn next(&mut self) -> Option<B> { loop { match self.it.next() { Some(x) => match (self.f)(x) { Some(y) => return Some(y), None => {} }, None => return None } } } }
pub struct MapWhile<I, F> { it: I, f: F }
impl<I: Iterator, B, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> { type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => (self.f)(x), None => None } } }
pub struct FlatMap<I, F, U: IntoIterator> { it: I, f: F, cur: Option<U::IntoIter> }
impl<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U> Iterator for FlatMap<I, F, U> { type Item = U::Item;
    fn next(&mut self) -> Option<U::Item> { loop {
        if let Some(c) = &mut self.cur { match c.next() { Some(x) => return Some(x), None => { self.cur = None; } } }
        match self.it.next() { Some(x) => { self.cur = Some((self.f)(x).into_iter()); } None => return None } } } }
pub struct Flatten<I: Iterator> where I::Item: IntoIterator { it: I, cur: Option<<I::Item as IntoIterator>::IntoIter> }
impl<I: Iterator> Iterator for Flatten<I> where I::Item: IntoIterator { type Item = <I::Item as IntoIterator>::Item;
    fn next(&mut self) -> Option<<I::Item as IntoIterator>::Item> { loop {
        if let Some(c) = &mut self.cur { match c.next() { Some(x) => return Some(x), None => { self.cur = None; } } }
        match self.it.next() { Some(x) => { self.cur = Some(x.into_iter()); } None => return None } } } }
pub struct Chain<A, B> { a: A, b: B, second: bool }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> { type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> { if !self.second { match self.a.next() { Some(x) => return Some(x), None => { self.second = true; } } } self.b.next() } }
pub struct Zip<A, B> { a: A, b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> { type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> { match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None } } }
pub struct Enumerate<I> { it: I, n: usize }
impl<I: Iterator> Iterator for Enumerate<I> { type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> { match self.it.next() { Some(x) => { let n = self.n; self.n = self.n + 1; Some((n, x)) } None => None } } }
pub struct Peekable<I: Iterator> { it: I, p: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for Peekable<I> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match std::mem::replace(&mut self.p, None) { Some(v) => v, None => self.it.next() } } }
pub fn m_peekable_peek<I: Iterator>(p: &mut Peekable<I>) -> Option<&I::Item> { if p.p.is_none() { p.p = Some(p.it.next()); } match &p.p { Some(Some(v)) => Some(v), _ => None } }
pub struct Inspect<I, F> { it: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.it.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } } }
pub struct TakeWhile<I, F> { it: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.done { return None } match self.it.next() { Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None }, None => None } } }
pub struct SkipWhile<I, F> { it: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { loop { match self.it.next() { Some(x) => { if self.done { return Some(x) } if !(self.f)(&x) { self.done = true; return Some(x) } } None => return None } } } }
pub struct Take<I> { it: I, n: usize }
impl<I: Iterator> Iterator for Take<I> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.n == 0 { None } else { self.n = self.n - 1; self.it.next() } } }
pub struct Skip<I> { it: I, n: usize }
impl<I: Iterator> Iterator for Skip<I> { type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { while self.n > 0 { self.n = self.n - 1; match self.it.next() { Some(_) => {}, None => return None } } self.it.next() } }

pub fn m_iter_map<I: Iterator, B, F: FnMut(I::Item) -> B>(it: I, f: F) -> Map<I, F> { Map { it, f } }
pub fn m_iter_filter<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> Filter<I, F> { Filter { it, f } }
pub fn m_iter_filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }
pub fn m_iter_map_while<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> MapWhile<I, F> { MapWhile { it, f } }
pub fn m_iter_flat_map<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(it: I, f: F) -> FlatMap<I, F, U> { FlatMap { it, f, cur: None } }
pub fn m_iter_flatten<I: Iterator>(it: I) -> Flatten<I> where I::Item: IntoIterator { Flatten { it, cur: None } }
pub fn m_iter_chain<A: Iterator, U: IntoIterator<Item = A::Item>>(a: A, b: U) -> Chain<A, U::IntoIter> { Chain { a, b: b.into_iter(), second: false } }
pub fn m_iter_zip<A: Iterator, U: IntoIterator>(a: A, b: U) -> Zip<A, U::IntoIter> { Zip { a, b: b.into_iter() } }
pub fn m_iter_enumerate<I: Iterator>(it: I) -> Enumerate<I> { Enumerate { it, n: 0 } }
pub fn m_iter_peekable<I: Iterator>(it: I) -> Peekable<I> { Peekable { it, p: None } }
pub fn m_iter_inspect<I: Iterator, F: FnMut(&I::Item)>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub fn m_iter_take_while<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> TakeWhile<I, F> { TakeWhile { it, f, done: false } }
pub fn m_iter_skip_while<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> SkipWhile<I, F> { SkipWhile { it, f, done: false } }
pub fn m_iter_take<I: Iterator>(it: I, n: usize) -> Take<I> { Take { it, n } }
pub fn m_iter_skip<I: Iterator>(it: I, n: usize) -> Skip<I> { Skip { it, n } }
pub fn m_iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { loop { match it.next() { Some(x) => if f(x) { return true }, None => return false } } }
pub fn m_iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { loop { match it.next() { Some(x) => if !f(x) { return false }, None => return true } } }
pub fn m_iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { loop { match it.next() { Some(x) => if f(&x) { return Some(x) }, None => return None } } }
pub fn m_iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { loop { match it.next() { Some(x) => match f(x) { Some(y) => return Some(y), None => {} }, None => return None } } }
pub fn m_iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> { let mut n = 0; loop { match it.next() { Some(x) => { if f(x) { return Some(n) } n = n + 1; } None => return None } } }
pub fn m_iter_count<I: Iterator>(mut it: I) -> usize { let mut n = 0; loop { match it.next() { Some(_) => { n = n + 1; } None => return n } } }
pub fn m_iter_last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; loop { match it.next() { Some(x) => { l = Some(x); } None => return l } } }
pub fn m_iter_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> { loop { match it.next() { Some(x) => { if n == 0 { return Some(x) } n = n - 1; } None => return None } } }
pub fn m_iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B { let mut acc = init; loop { match it.next() { Some(x) => { acc = f(acc, x); } None => return acc } } }
pub fn m_iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> { let mut acc = match it.next() { Some(x) => x, None => return None }; loop { match it.next() { Some(x) => { acc = f(acc, x); } None => return Some(acc) } } }
pub fn m_iter_max<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord { let mut best = match it.next() { Some(x) => x, None => return None }; loop { match it.next() { Some(x) => { if x >= best { best = x; } } None => return Some(best) } } }
pub fn m_iter_min<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: Ord { let mut best = match it.next() { Some(x) => x, None => return None }; loop { match it.next() { Some(x) => { if x < best { best = x; } } None => return Some(best) } } }
pub fn m_iter_max_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> { let mut best = match it.next() { Some(x) => x, None => return None }; let mut k = f(&best); loop { match it.next() { Some(x) => { let n = f(&x); if n >= k { best = x; k = n; } } None => return Some(best) } } }
pub fn m_iter_min_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> { let mut best = match it.next() { Some(x) => x, None => return None }; let mut k = f(&best); loop { match it.next() { Some(x) => { let n = f(&x); if n < k { best = x; k = n; } } None => return Some(best) } } }
pub fn m_iter_max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> core::cmp::Ordering>(mut it: I, mut f: F) -> Option<I::Item> { let mut best = match it.next() { Some(x) => x, None => return None }; loop { match it.next() { Some(x) => match f(&best, &x) { core::cmp::Ordering::Greater => {} _ => { best = x; } }, None => return Some(best) } } }
pub fn m_iter_min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> core::cmp::Ordering>(mut it: I, mut f: F) -> Option<I::Item> { let mut best = match it.next() { Some(x) => x, None => return None }; loop { match it.next() { Some(x) => match f(&best, &x) { core::cmp::Ordering::Greater => { best = x; } _ => {} }, None => return Some(best) } } }
pub fn m_iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { loop { match it.next() { Some(x) => { f(x); } None => return } } }
pub fn m_iter_try_for_each_result<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> { loop { match it.next() { Some(x) => match f(x) { Ok(()) => {}, Err(e) => return Err(e) }, None => return Ok(()) } } }
pub fn m_iter_try_fold_result<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> { let mut acc = init; loop { match it.next() { Some(x) => match f(acc, x) { Ok(a) => { acc = a; } Err(e) => return Err(e) }, None => return Ok(acc) } } }
pub fn m_iter_try_fold_option<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> { let mut acc = init; loop { match it.next() { Some(x) => match f(acc, x) { Some(a) => { acc = a; } None => return None }, None => return Some(acc) } } }
pub fn m_iter_collect_seq<I: Iterator>(mut it: I) -> Vec<I::Item> { let mut v = Vec::new(); loop { match it.next() { Some(x) => { v.push(x); } None => return v } } }
pub fn m_from_iter<C, I: IntoIterator>(it: I) -> Vec<I::Item> { let mut it = it.into_iter(); let mut v = Vec::new(); loop { match it.next() { Some(x) => { v.push(x); } None => return v } } }
pub fn m_iter_collect_result<I: Iterator<Item = Result<T, E>>, T, E>(mut it: I) -> Result<Vec<T>, E> { let mut v = Vec::new(); loop { match it.next() { Some(Ok(x)) => { v.push(x); } Some(Err(e)) => return Err(e), None => return Ok(v) } } }
pub fn m_iter_collect_option<I: Iterator<Item = Option<T>>, T>(mut it: I) -> Option<Vec<T>> { let mut v = Vec::new(); loop { match it.next() { Some(Some(x)) => { v.push(x); } Some(None) => return None, None => return Some(v) } } }
pub fn m_iter_sum<I: Iterator<Item = usize>>(mut it: I) -> usize { let mut n = 0; loop { match it.next() { Some(x) => { n = n + x; } None => return n } } }
pub fn m_iter_partition<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) { let mut a = Vec::new(); let mut b = Vec::new(); loop { match it.next() { Some(x) => if f(&x) { a.push(x) } else { b.push(x) }, None => return (a, b) } } }
pub fn m_iter_unzip<A, B, I: Iterator<Item = (A, B)>>(mut it: I) -> (Vec<A>, Vec<B>) { let mut a = Vec::new(); let mut b = Vec::new(); loop { match it.next() { Some((x, y)) => { a.push(x); b.push(y); } None => return (a, b) } } }
pub fn m_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); loop { match it.next() { Some(x) => { v.push(x); } None => return } } }
pub fn m_vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) { let old = std::mem::replace(v, Vec::new()); let mut it = old.into_iter(); loop { match it.next() { Some(x) => if f(&x) { v.push(x) }, None => return } } }

// ---------- Try
pub fn m_branch_result<T, E>(r: Result<T, E>) -> ControlFlow<Result<std::convert::Infallible, E>, T> { match r { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) } }
pub fn m_branch_option<T>(r: Option<T>) -> ControlFlow<Option<std::convert::Infallible>, T> { match r { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) } }
pub fn m_branch_cf<B, C>(r: ControlFlow<B, C>) -> ControlFlow<ControlFlow<B, std::convert::Infallible>, C> { match r { ControlFlow::Continue(x) => ControlFlow::Continue(x), ControlFlow::Break(b) => ControlFlow::Break(ControlFlow::Break(b)) } }
pub fn m_residual_result<T, E, F: From<E>>(r: Result<std::convert::Infallible, E>) -> Result<T, F> { match r { Err(e) => Err(From::from(e)), Ok(_) => loop {} } }
