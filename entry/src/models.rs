//! Reference semantics of standard-library items whose own implementation is
//! specialised on memory layout.  The analyser substitutes them for the
//! library functions.  A hash map is a list of its entries.
use crate::rt::{any, assume, cast, frozen, take_range, unsupported};
use std::borrow::Borrow;
use std::collections::{btree_map, btree_set, hash_map, hash_set, vec_deque, BTreeMap, BTreeSet, HashSet, VecDeque};
use std::ops::{ControlFlow, FromResidual, Try};

// ------------------------------------------------------------- iterators
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop {
        match it.next() {
            Some(x) => acc = f(acc, x),
            None => return acc,
        }
    }
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    loop {
        match it.next() {
            Some(x) => f(x),
            None => return,
        }
    }
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    loop {
        match it.next() {
            Some(_) => n += 1,
            None => return n,
        }
    }
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    loop {
        match it.next() {
            Some(x) => l = Some(x),
            None => return l,
        }
    }
}
pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut n = n;
    loop {
        match it.next() {
            Some(x) => {
                if n == 0 {
                    return Some(x);
                }
                n -= 1;
            }
            None => return None,
        }
    }
}
pub fn iter_nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut n = n;
    loop {
        match it.next_back() {
            Some(x) => {
                if n == 0 {
                    return Some(x);
                }
                n -= 1;
            }
            None => return None,
        }
    }
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop {
        match it.next() {
            Some(x) => {
                if !f(x) {
                    return false;
                }
            }
            None => return true,
        }
    }
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop {
        match it.next() {
            Some(x) => {
                if f(x) {
                    return true;
                }
            }
            None => return false,
        }
    }
}
pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    loop {
        match it.next() {
            Some(x) => {
                if p(&x) {
                    return Some(x);
                }
            }
            None => return None,
        }
    }
}
pub fn iter_rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    loop {
        match it.next_back() {
            Some(x) => {
                if p(&x) {
                    return Some(x);
                }
            }
            None => return None,
        }
    }
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    loop {
        match it.next() {
            Some(x) => match f(x) {
                Some(y) => return Some(y),
                None => {}
            },
            None => return None,
        }
    }
}
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0;
    loop {
        match it.next() {
            Some(x) => {
                if p(x) {
                    return Some(i);
                }
                i += 1;
            }
            None => return None,
        }
    }
}
pub fn iter_rposition<I: DoubleEndedIterator + ExactSizeIterator, P: FnMut(I::Item) -> bool>(
    it: &mut I,
    mut p: P,
) -> Option<usize> {
    let mut i = it.len();
    loop {
        match it.next_back() {
            Some(x) => {
                i -= 1;
                if p(x) {
                    return Some(i);
                }
            }
            None => return None,
        }
    }
}
pub fn iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(
    it: &mut I,
    init: B,
    mut f: F,
) -> R {
    let mut acc = init;
    loop {
        match it.next() {
            Some(x) => match f(acc, x).branch() {
                ControlFlow::Continue(a) => acc = a,
                ControlFlow::Break(r) => return R::from_residual(r),
            },
            None => return R::from_output(acc),
        }
    }
}
pub fn iter_try_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(
    it: &mut I,
    init: B,
    mut f: F,
) -> R {
    let mut acc = init;
    loop {
        match it.next_back() {
            Some(x) => match f(acc, x).branch() {
                ControlFlow::Continue(a) => acc = a,
                ControlFlow::Break(r) => return R::from_residual(r),
            },
            None => return R::from_output(acc),
        }
    }
}
pub fn iter_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop {
        match it.next_back() {
            Some(x) => acc = f(acc, x),
            None => return acc,
        }
    }
}
pub fn iter_partition<I: Iterator, B: Default + Extend<I::Item>, F: FnMut(&I::Item) -> bool>(
    mut it: I,
    mut f: F,
) -> (B, B) {
    let mut l = B::default();
    let mut r = B::default();
    loop {
        match it.next() {
            Some(x) => {
                if f(&x) {
                    l.extend(Some(x))
                } else {
                    r.extend(Some(x))
                }
            }
            None => return (l, r),
        }
    }
}
pub fn zip_new<Z, A: Iterator, B: Iterator>(a: A, b: B) -> Z {
    cast((a, b, 0usize, 0usize))
}
pub fn zip_next<Z, A: Iterator, B: Iterator>(z: &mut (A, B, usize, usize)) -> Option<(A::Item, B::Item)> {
    match z.0.next() {
        Some(x) => match z.1.next() {
            Some(y) => Some((x, y)),
            None => None,
        },
        None => None,
    }
}
pub fn zip_next_back<Z, A, B>(z: &mut (A, B, usize, usize)) -> Option<(A::Item, B::Item)>
where
    A: DoubleEndedIterator + ExactSizeIterator,
    B: DoubleEndedIterator + ExactSizeIterator,
{
    while z.0.len() > z.1.len() {
        z.0.next_back();
    }
    while z.1.len() > z.0.len() {
        z.1.next_back();
    }
    match z.0.next_back() {
        Some(x) => match z.1.next_back() {
            Some(y) => Some((x, y)),
            None => None,
        },
        None => None,
    }
}

// --------------------------------------------------------------- vectors
pub trait VecLike {
    type E;
}
impl<T> VecLike for Vec<T> {
    type E = T;
}
impl<T> VecLike for std::vec::IntoIter<T> {
    type E = T;
}
impl<T, const N: usize> VecLike for std::array::IntoIter<T, N> {
    type E = T;
}
impl<'a, T, F: FnMut(&mut T) -> bool> VecLike for std::vec::ExtractIf<'a, T, F> {
    type E = T;
}
impl<'a, T> VecLike for std::vec::Drain<'a, T> {
    type E = T;
}
impl<'a, I: Iterator> VecLike for std::vec::Splice<'a, I> {
    type E = I::Item;
}
impl<T> VecLike for VecDeque<T> {
    type E = T;
}
impl<T> VecLike for vec_deque::IntoIter<T> {
    type E = T;
}
impl<'a, T> VecLike for vec_deque::Drain<'a, T> {
    type E = T;
}
impl<T, S> VecLike for HashSet<T, S> {
    type E = T;
}
impl<T> VecLike for hash_set::IntoIter<T> {
    type E = T;
}
impl<'a, T> VecLike for hash_set::Drain<'a, T> {
    type E = T;
}
impl<T> VecLike for BTreeSet<T> {
    type E = T;
}
impl<T> VecLike for btree_set::IntoIter<T> {
    type E = T;
}
impl<K, V, S> VecLike for hash_map::HashMap<K, V, S> {
    type E = (K, V);
}
impl<K, V> VecLike for BTreeMap<K, V> {
    type E = (K, V);
}
impl<T> Sl for VecDeque<T> {
    type E = T;
    fn sl(&self) -> &[T] {
        let v: &Vec<T> = cast(self);
        v
    }
}
pub trait Sl {
    type E;
    fn sl(&self) -> &[Self::E];
}
impl<T> Sl for [T] {
    type E = T;
    fn sl(&self) -> &[T] {
        self
    }
}
impl<T, const N: usize> Sl for [T; N] {
    type E = T;
    fn sl(&self) -> &[T] {
        self
    }
}
impl<T> Sl for Vec<T> {
    type E = T;
    fn sl(&self) -> &[T] {
        self
    }
}
impl<S: ?Sized + Sl> Sl for &S {
    type E = S::E;
    fn sl(&self) -> &[S::E] {
        (**self).sl()
    }
}
impl<S: ?Sized + Sl> Sl for &mut S {
    type E = S::E;
    fn sl(&self) -> &[S::E] {
        (**self).sl()
    }
}
pub fn into_iter_next<V: VecLike>(it: &mut Vec<V::E>) -> Option<V::E> {
    if it.is_empty() {
        None
    } else {
        Some(it.remove(0))
    }
}
pub fn into_iter_next_back<V: VecLike>(it: &mut Vec<V::E>) -> Option<V::E> {
    it.pop()
}
pub fn vec_from_iter<V, T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    loop {
        match it.next() {
            Some(x) => v.push(x),
            None => return v,
        }
    }
}
pub fn vec_extend<V, T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    loop {
        match it.next() {
            Some(x) => v.push(x),
            None => return,
        }
    }
}
pub fn vec_extend_ref<'a, V, A: RefTo, I: IntoIterator<Item = A>>(v: &mut Vec<A::T>, it: I)
where
    A::T: Copy,
{
    let mut it = it.into_iter();
    loop {
        match it.next() {
            Some(x) => v.push(*x.get()),
            None => return,
        }
    }
}
pub trait RefTo {
    type T;
    fn get(&self) -> &Self::T;
}
impl<'a, T> RefTo for &'a T {
    type T = T;
    fn get(&self) -> &T {
        self
    }
}
impl<'a, T> RefTo for &'a mut T {
    type T = T;
    fn get(&self) -> &T {
        self
    }
}
/// `into_iter` of a (mutable) reference to an ordered container
pub fn seq_ref_iter<'a, R: RefTo>(m: &'a mut Vec<<R::T as VecLike>::E>) -> std::slice::Iter<'a, <R::T as VecLike>::E>
where
    R::T: VecLike,
{
    m.iter()
}
pub fn vec_clone<V: VecLike>(v: &Vec<V::E>) -> Vec<V::E>
where
    V::E: Clone,
{
    slice_to_vec(v)
}
pub fn vec_clone_from<V: VecLike>(v: &mut Vec<V::E>, from: &Vec<V::E>)
where
    V::E: Clone,
{
    *v = slice_to_vec(from);
}
pub fn string_clone_from<S>(v: &mut S1, from: &S1) {
    v.0 = slice_to_vec(&from.0);
}
pub fn slice_to_vec<T: Clone>(s: &[T]) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = s.iter();
    loop {
        match it.next() {
            Some(x) => v.push(x.clone()),
            None => return v,
        }
    }
}
pub fn slice_to_owned<S: Sl + ?Sized>(s: &S) -> Vec<S::E>
where
    S::E: Clone,
{
    slice_to_vec(s.sl())
}
pub fn vec_from_slice<V, S: Sl>(s: S) -> Vec<S::E>
where
    S::E: Clone,
{
    slice_to_vec(s.sl())
}
pub fn array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> [T; N] {
    let mut v = Vec::new();
    for i in 0..N {
        v.push(f(i));
    }
    match v.try_into() {
        Ok(a) => a,
        Err(_) => loop {},
    }
}
pub fn array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] {
    let mut v = Vec::new();
    for x in a {
        v.push(f(x));
    }
    match v.try_into() {
        Ok(a) => a,
        Err(_) => loop {},
    }
}
pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> Vec<T> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(x.clone());
    }
    v
}
pub fn slice_eq<A: ?Sized + Sl, B: ?Sized + Sl>(a: &A, b: &B) -> bool
where
    A::E: PartialEq<B::E>,
{
    let (a, b) = (a.sl(), b.sl());
    if a.len() != b.len() {
        return false;
    }
    let mut x = a.iter();
    let mut y = b.iter();
    loop {
        match x.next() {
            Some(p) => match y.next() {
                Some(q) => {
                    if *p != *q {
                        return false;
                    }
                }
                None => return false,
            },
            None => return true,
        }
    }
}
pub fn slice_ne<A: ?Sized + Sl, B: ?Sized + Sl>(a: &A, b: &B) -> bool
where
    A::E: PartialEq<B::E>,
{
    !slice_eq(a, b)
}
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    for y in s.iter() {
        if *y == *x {
            return true;
        }
    }
    false
}
pub fn slice_swap<T>(s: &mut [T], a: usize, b: usize) {
    let p: *mut T = &mut s[a];
    let q: *mut T = &mut s[b];
    unsafe {
        let x = p.read();
        let y = q.read();
        p.write(y);
        q.write(x);
    }
}
pub fn slice_reverse<T>(s: &mut [T]) {
    let n = s.len();
    let mut i = 0;
    while i < n / 2 {
        slice_swap(s, i, n - 1 - i);
        i += 1;
    }
}
pub fn slice_fill<T: Clone>(s: &mut [T], x: T) {
    for y in s.iter_mut() {
        *y = x.clone();
    }
}
pub fn slice_concat<I: Sl<E = T>, T: Clone>(s: &[I]) -> Vec<T> {
    let mut v = Vec::new();
    for p in s.iter() {
        for x in p.sl().iter() {
            v.push(x.clone());
        }
    }
    v
}
pub fn f32_powi(a: f32, n: i32) -> f32 {
    let (mut a, mut b, mut r) = (a, n, 1.0f32);
    loop {
        if b % 2 != 0 {
            r *= a;
        }
        b /= 2;
        if b == 0 {
            break;
        }
        a *= a;
    }
    if n < 0 { 1.0 / r } else { r }
}
pub fn f64_powi(a: f64, n: i32) -> f64 {
    let (mut a, mut b, mut r) = (a, n, 1.0f64);
    loop {
        if b % 2 != 0 {
            r *= a;
        }
        b /= 2;
        if b == 0 {
            break;
        }
        a *= a;
    }
    if n < 0 { 1.0 / r } else { r }
}
pub fn slice_repeat<T: Copy>(s: &[T], n: usize) -> Vec<T> {
    let mut v = Vec::new();
    for _ in 0..n {
        for x in s {
            v.push(*x);
        }
    }
    v
}
pub fn slice_swap_with_slice<T>(a: &mut [T], b: &mut [T]) {
    if a.len() != b.len() {
        panic!("destination and source slices have different lengths");
    }
    for i in 0..a.len() {
        std::mem::swap(&mut a[i], &mut b[i]);
    }
}
pub fn slice_starts_with<T: PartialEq>(s: &[T], p: &[T]) -> bool {
    if p.len() > s.len() {
        return false;
    }
    let mut i = 0;
    while i < p.len() {
        if s[i] != p[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn slice_copy_from_slice<T: Copy>(d: &mut [T], s: &[T]) {
    if d.len() != s.len() {
        panic!("slice lengths differ");
    }
    let mut x = d.iter_mut();
    let mut y = s.iter();
    loop {
        match x.next() {
            Some(p) => match y.next() {
                Some(q) => *p = *q,
                None => return,
            },
            None => return,
        }
    }
}
pub fn slice_clone_from_slice<T: Clone>(d: &mut [T], s: &[T]) {
    if d.len() != s.len() {
        panic!("slice lengths differ");
    }
    let mut x = d.iter_mut();
    let mut y = s.iter();
    loop {
        match x.next() {
            Some(p) => match y.next() {
                Some(q) => *p = q.clone(),
                None => return,
            },
            None => return,
        }
    }
}
pub fn slice_rotate_left<T>(s: &mut [T], k: usize) {
    if k > s.len() {
        panic!("rotation too large");
    }
    slice_reverse(&mut s[..k]);
    slice_reverse(&mut s[k..]);
    slice_reverse(s);
}
pub fn slice_rotate_right<T>(s: &mut [T], k: usize) {
    if k > s.len() {
        panic!("rotation too large");
    }
    let n = s.len();
    slice_rotate_left(s, n - k)
}
pub fn slice_sort<T: Ord>(s: &mut [T]) {
    let n = s.len();
    let mut i = 1;
    while i < n {
        let mut j = i;
        while j > 0 && s[j] < s[j - 1] {
            slice_swap(s, j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}
pub fn slice_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) {
    slice_sort_by(s, |a, b| f(a).cmp(&f(b)))
}
pub fn slice_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(s: &mut [T], mut f: F) {
    let n = s.len();
    let mut i = 1;
    while i < n {
        let mut j = i;
        while j > 0 && f(&s[j], &s[j - 1]) == std::cmp::Ordering::Less {
            slice_swap(s, j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}
pub fn slice_binary_search_by<T, F: FnMut(&T) -> std::cmp::Ordering>(s: &[T], mut f: F) -> Result<usize, usize> {
    let mut i = 0;
    while i < s.len() {
        match f(&s[i]) {
            std::cmp::Ordering::Less => i += 1,
            std::cmp::Ordering::Equal => return Ok(i),
            std::cmp::Ordering::Greater => return Err(i),
        }
    }
    Err(i)
}
pub fn vec_extend_from_slice<T: Clone, A>(v: &mut Vec<T>, s: &[T]) {
    let mut it = s.iter();
    loop {
        match it.next() {
            Some(x) => v.push(x.clone()),
            None => return,
        }
    }
}
pub fn vec_append_elements<T, A>(v: &mut Vec<T>, s: *const [T]) {
    let s: &[T] = cast(s);
    for x in s.iter() {
        let p: *const T = x;
        v.push(unsafe { p.read() });
    }
}
pub fn vec_extend_one<V, T>(v: &mut Vec<T>, x: T) {
    v.push(x)
}
pub trait Rg {
    fn lo(&self) -> usize;
    fn hi(&self, n: usize) -> usize;
}
impl<R: std::ops::RangeBounds<usize>> Rg for R {
    fn lo(&self) -> usize {
        match self.start_bound() {
            std::ops::Bound::Included(x) => *x,
            std::ops::Bound::Excluded(x) => *x + 1,
            std::ops::Bound::Unbounded => 0,
        }
    }
    fn hi(&self, n: usize) -> usize {
        match self.end_bound() {
            std::ops::Bound::Included(x) => *x + 1,
            std::ops::Bound::Excluded(x) => *x,
            std::ops::Bound::Unbounded => n,
        }
    }
}
pub fn vec_extend_from_within<T: Clone, A, R: Rg>(v: &mut Vec<T>, r: R) {
    let c = slice_to_vec(&v[r.lo()..r.hi(v.len())]);
    vec_extend_from_slice::<T, A>(v, &c);
}
pub fn vec_append<T, A>(v: &mut Vec<T>, o: &mut Vec<T>) {
    while !o.is_empty() {
        v.push(o.remove(0));
    }
}
pub fn vec_split_off<T, A: Clone>(v: &mut Vec<T>, at: usize) -> Vec<T> {
    let n = v.len();
    if at > n {
        panic!("split_off index out of bounds");
    }
    take_range(v, at, n)
}
pub fn vec_resize<T: Clone, A>(v: &mut Vec<T>, n: usize, x: T) {
    v.truncate(n);
    while v.len() < n {
        v.push(x.clone());
    }
}
pub fn vec_resize_with<T, A, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    v.truncate(n);
    while v.len() < n {
        v.push(f());
    }
}
/// the drained range leaves the vector at once
pub fn vec_drain<T, A, R: Rg>(v: &mut Vec<T>, r: R) -> Vec<T> {
    let n = v.len();
    let (s, e) = (r.lo(), r.hi(n));
    if s > e {
        panic!("drain range starts after its end");
    }
    if e > n {
        panic!("drain range out of bounds");
    }
    take_range(v, s, e)
}
/// the replacement happens at once
pub fn vec_splice<T, A, R: Rg, I: IntoIterator<Item = T>>(v: &mut Vec<T>, r: R, it: I) -> Vec<T> {
    let mut i = r.lo();
    let old = vec_drain::<T, A, R>(v, r);
    let mut it = it.into_iter();
    loop {
        match it.next() {
            Some(x) => {
                v.insert(i, x);
                i += 1;
            }
            None => return old,
        }
    }
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&v[i]) {
            i += 1;
        } else {
            v.remove(i);
        }
    }
}
pub fn vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&mut v[i]) {
            i += 1;
        } else {
            v.remove(i);
        }
    }
}
pub fn vec_swap_remove<T, A>(v: &mut Vec<T>, i: usize) -> T {
    let n = v.len();
    if i >= n {
        panic!("swap_remove index out of bounds");
    }
    slice_swap(v, i, n - 1);
    v.remove(n - 1)
}
pub fn vec_dedup_by_key<T, A, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let (a, b) = v.split_at_mut(i);
        if f(&mut b[0]) == f(&mut a[i - 1]) {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}
pub fn vec_pop_if<T, A, F: FnOnce(&mut T) -> bool>(v: &mut Vec<T>, f: F) -> Option<T> {
    let n = v.len();
    if n > 0 && f(&mut v[n - 1]) {
        v.pop()
    } else {
        None
    }
}
pub fn vec_dedup<T: PartialEq, A>(v: &mut Vec<T>) {
    let mut i = 1;
    while i < v.len() {
        if v[i] == v[i - 1] {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}
pub fn vec_index<V: VecLike, I: std::slice::SliceIndex<[V::E]>>(v: &Vec<V::E>, i: I) -> &I::Output {
    &v.as_slice()[i]
}
pub fn vec_index_mut<V: VecLike, I: std::slice::SliceIndex<[V::E]>>(v: &mut Vec<V::E>, i: I) -> &mut I::Output {
    &mut v.as_mut_slice()[i]
}
pub fn call_bool<F: FnOnce() -> bool>(f: F) -> bool {
    f()
}
pub fn call_once<F: FnOnce()>(f: F) {
    f()
}

// --------------------------------------------------------------- strings
fn string(v: Vec<u8>) -> String {
    cast((v,))
}
pub fn str_eq(a: &str, b: &str) -> bool {
    slice_eq(a.as_bytes(), b.as_bytes())
}
pub fn str_ne(a: &str, b: &str) -> bool {
    !str_eq(a, b)
}
pub fn str_to_owned(s: &str) -> String {
    string(slice_to_vec(s.as_bytes()))
}
pub fn string_from_str(s: &str) -> String {
    str_to_owned(s)
}
fn map_ascii(s: &str, lo: u8, hi: u8) -> String {
    let mut v = Vec::new();
    for b in s.as_bytes().iter() {
        // the clients pass ASCII text only
        assume(*b < 128);
        v.push(if *b >= lo && *b <= hi { *b ^ 0x20 } else { *b });
    }
    string(v)
}
pub fn str_to_uppercase(s: &str) -> String {
    map_ascii(s, b'a', b'z')
}
pub fn str_to_lowercase(s: &str) -> String {
    map_ascii(s, b'A', b'Z')
}
pub fn str_eq_ignore_ascii_case(a: &str, b: &str) -> bool {
    str_eq(&map_ascii(a, b'a', b'z'), &map_ascii(b, b'a', b'z'))
}
pub fn str_replace<P>(s: &str, p: P, to: &str) -> String {
    let c: u8 = if std::mem::size_of::<P>() == 4 {
        let c: char = cast(p);
        c as u32 as u8
    } else if std::mem::size_of::<P>() == 16 {
        let t: &str = cast(p);
        if t.len() != 1 {
            unsupported("replacement of a longer text");
        }
        t.as_bytes()[0]
    } else {
        unsupported("replacement pattern");
        0
    };
    let mut v = Vec::new();
    for b in s.as_bytes().iter() {
        if *b == c {
            for t in to.as_bytes().iter() {
                v.push(*t);
            }
        } else {
            v.push(*b);
        }
    }
    string(v)
}
pub fn str_replacen<P>(s: &str, p: P, to: &str, n: usize) -> String {
    let c: u8 = if std::mem::size_of::<P>() == 4 {
        let c: char = cast(p);
        c as u32 as u8
    } else if std::mem::size_of::<P>() == 16 {
        let t: &str = cast(p);
        if t.len() != 1 {
            unsupported("replacement of a longer text");
        }
        t.as_bytes()[0]
    } else {
        unsupported("replacement pattern");
        0
    };
    let mut k = 0;
    let mut v = Vec::new();
    for b in s.as_bytes().iter() {
        if *b == c && k < n {
            k += 1;
            for t in to.as_bytes().iter() {
                v.push(*t);
            }
        } else {
            v.push(*b);
        }
    }
    string(v)
}
type S1 = (Vec<u8>,);
pub fn string_push(s: &mut S1, c: char) {
    if c as u32 >= 128 {
        unsupported("text outside ASCII");
    }
    s.0.push(c as u32 as u8)
}
pub fn string_push_str(s: &mut S1, t: &str) {
    for b in t.as_bytes().iter() {
        s.0.push(*b)
    }
}
pub fn string_len(s: &S1) -> usize {
    s.0.len()
}
pub fn string_is_empty(s: &S1) -> bool {
    s.0.is_empty()
}
pub fn string_clear(s: &mut S1) {
    s.0.clear()
}
pub fn string_pop(s: &mut S1) -> Option<char> {
    match s.0.pop() {
        Some(b) => Some(ascii(b)),
        None => None,
    }
}
pub trait St {
    fn st(&self) -> &str;
}
impl St for str {
    fn st(&self) -> &str {
        self
    }
}
impl St for String {
    fn st(&self) -> &str {
        self.as_str()
    }
}
impl<S: ?Sized + St> St for &S {
    fn st(&self) -> &str {
        (**self).st()
    }
}
pub fn st_eq<A: ?Sized + St, B: ?Sized + St>(a: &A, b: &B) -> bool {
    str_eq(a.st(), b.st())
}
pub fn st_ne<A: ?Sized + St, B: ?Sized + St>(a: &A, b: &B) -> bool {
    !str_eq(a.st(), b.st())
}
pub fn string_add<S, P: St>(s: S1, t: P) -> S1 {
    let mut s = s;
    string_push_str(&mut s, t.st());
    s
}
pub fn string_add_assign<S, P: St>(s: &mut S1, t: P) {
    string_push_str(s, t.st());
}
pub fn str_concat<S: St, I: ?Sized>(s: &[S]) -> String {
    let mut v = Vec::new();
    for p in s.iter() {
        for b in p.st().as_bytes().iter() {
            v.push(*b);
        }
    }
    string(v)
}
pub fn str_join<S: St, P: St>(s: &[S], sep: P) -> String {
    let mut v = Vec::new();
    let mut first = true;
    for p in s.iter() {
        if first {
            first = false;
        } else {
            for b in sep.st().as_bytes().iter() {
                v.push(*b);
            }
        }
        for b in p.st().as_bytes().iter() {
            v.push(*b);
        }
    }
    string(v)
}
fn ascii(b: u8) -> char {
    if b >= 128 {
        unsupported("text outside ASCII");
    }
    b as char
}
type Ch<'a> = (std::slice::Iter<'a, u8>,);
pub fn chars_next<I>(c: &mut Ch) -> Option<char> {
    match c.0.next() {
        Some(b) => Some(ascii(*b)),
        None => None,
    }
}
pub fn chars_next_back<I>(c: &mut Ch) -> Option<char> {
    match c.0.next_back() {
        Some(b) => Some(ascii(*b)),
        None => None,
    }
}
pub fn chars_size_hint<I>(c: &Ch) -> (usize, Option<usize>) {
    c.0.size_hint()
}
pub fn bytes_next<I>(c: &mut (Ch,)) -> Option<u8> {
    match c.0 .0.next() {
        Some(b) => Some(*b),
        None => None,
    }
}
pub fn bytes_next_back<I>(c: &mut (Ch,)) -> Option<u8> {
    match c.0 .0.next_back() {
        Some(b) => Some(*b),
        None => None,
    }
}
pub fn char_indices_next<I>(c: &mut (usize, Ch)) -> Option<(usize, char)> {
    match c.1 .0.next() {
        Some(b) => {
            let i = c.0;
            c.0 += 1;
            Some((i, ascii(*b)))
        }
        None => None,
    }
}
pub fn memchr(x: u8, s: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < s.len() {
        if s[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memrchr(x: u8, s: &[u8]) -> Option<usize> {
    let mut i = s.len();
    while i > 0 {
        i -= 1;
        if s[i] == x {
            return Some(i);
        }
    }
    None
}
fn blank(b: u8) -> bool {
    ascii(b);
    b == 32 || (b >= 9 && b <= 13)
}
pub fn str_trim_start(s: &str) -> &str {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() && blank(b[i]) {
        i += 1;
    }
    cast(&b[i..])
}
pub fn str_trim_end(s: &str) -> &str {
    let b = s.as_bytes();
    let mut i = b.len();
    while i > 0 && blank(b[i - 1]) {
        i -= 1;
    }
    cast(&b[..i])
}
pub fn str_trim(s: &str) -> &str {
    str_trim_end(str_trim_start(s))
}

// ------------------------------------------------------------- hash maps
type M<K, V> = Vec<(K, V)>;
fn hm_find<K: Borrow<Q>, V, Q: ?Sized + Eq>(m: &M<K, V>, k: &Q) -> Option<usize> {
    let mut i = 0;
    while i < m.len() {
        if *m[i].0.borrow() == *k {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn hm_insert<K: Eq, V, S, A>(m: &mut M<K, V>, k: K, v: V) -> Option<V> {
    match hm_find::<K, V, K>(m, &k) {
        Some(i) => Some(std::mem::replace(&mut m[i].1, v)),
        None => {
            m.push((k, v));
            None
        }
    }
}
pub fn hm_get<'a, K: Borrow<Q>, V, S, A, Q: ?Sized + Eq>(m: &'a M<K, V>, k: &Q) -> Option<&'a V> {
    let mut it = m.iter();
    loop {
        match it.next() {
            Some(e) => {
                if *e.0.borrow() == *k {
                    return Some(&e.1);
                }
            }
            None => return None,
        }
    }
}
pub fn hm_get_mut<'a, K: Borrow<Q>, V, S, A, Q: ?Sized + Eq>(m: &'a mut M<K, V>, k: &Q) -> Option<&'a mut V> {
    let mut it = m.iter_mut();
    loop {
        match it.next() {
            Some(e) => {
                if *e.0.borrow() == *k {
                    return Some(&mut e.1);
                }
            }
            None => return None,
        }
    }
}
pub fn hm_get_key_value<'a, K: Borrow<Q>, V, S, A, Q: ?Sized + Eq>(m: &'a M<K, V>, k: &Q) -> Option<(&'a K, &'a V)> {
    let mut it = m.iter();
    loop {
        match it.next() {
            Some(e) => {
                if *e.0.borrow() == *k {
                    return Some((&e.0, &e.1));
                }
            }
            None => return None,
        }
    }
}
pub fn hm_contains_key<K: Borrow<Q>, V, S, A, Q: ?Sized + Eq>(m: &M<K, V>, k: &Q) -> bool {
    hm_find(m, k).is_some()
}
pub fn hm_remove<K: Borrow<Q>, V, S, A, Q: ?Sized + Eq>(m: &mut M<K, V>, k: &Q) -> Option<V> {
    match hm_find(m, k) {
        Some(i) => Some(m.remove(i).1),
        None => None,
    }
}
pub fn hm_remove_entry<K: Borrow<Q>, V, S, A, Q: ?Sized + Eq>(m: &mut M<K, V>, k: &Q) -> Option<(K, V)> {
    match hm_find(m, k) {
        Some(i) => Some(m.remove(i)),
        None => None,
    }
}
pub fn hm_retain<K, V, S, A, F: FnMut(&K, &mut V) -> bool>(m: &mut M<K, V>, mut f: F) {
    let mut i = 0;
    while i < m.len() {
        let e = &mut m[i];
        if f(&e.0, &mut e.1) {
            i += 1;
        } else {
            m.remove(i);
        }
    }
}
pub fn hm_clear<K, V, S, A>(m: &mut M<K, V>) {
    m.clear()
}
pub fn hm_len<K, V, S, A>(m: &M<K, V>) -> usize {
    m.len()
}
pub fn hm_is_empty<K, V, S, A>(m: &M<K, V>) -> bool {
    m.is_empty()
}
/// the iteration order is unspecified: the analysis covers both directions
fn order<K, V>(m: &mut M<K, V>) {
    if m.len() > 1 && any::<bool>("hash map order") {
        slice_reverse(m);
    }
}
pub fn hm_drain<'a, K, V, S, A>(m: &'a mut M<K, V>) -> M<K, V> {
    order(m);
    std::mem::replace(m, Vec::new())
}
pub fn hm_into_iter<H: Kv>(m: M<H::K, H::V>) -> M<H::K, H::V> {
    let mut m = m;
    order(&mut m);
    m
}
pub fn hm_iter<'a, K, V, S, A>(m: &'a mut M<K, V>) -> std::slice::Iter<'a, (K, V)> {
    order(m);
    m.iter()
}
/// `into_iter` of a (mutable) reference to a map
pub fn hm_ref_iter<'a, R: RefTo>(m: &'a mut M<<R::T as Kv>::K, <R::T as Kv>::V>) -> std::slice::Iter<'a, (<R::T as Kv>::K, <R::T as Kv>::V)>
where
    R::T: Kv,
{
    order(m);
    m.iter()
}
pub fn hm_iter_mut<'a, K, V, S, A>(m: &'a mut M<K, V>) -> std::slice::IterMut<'a, (K, V)> {
    order(m);
    m.iter_mut()
}
pub fn hm_keys<'a, K, V, S, A>(m: &'a mut M<K, V>) -> std::slice::Iter<'a, (K, V)> {
    order(m);
    m.iter()
}
pub fn hm_values<'a, K, V, S, A>(m: &'a mut M<K, V>) -> std::slice::Iter<'a, (K, V)> {
    order(m);
    m.iter()
}
pub fn hm_values_mut<'a, K, V, S, A>(m: &'a mut M<K, V>) -> std::slice::IterMut<'a, (K, V)> {
    order(m);
    m.iter_mut()
}
pub trait Kv {
    type K;
    type V;
}
impl<'a, K, V> Kv for hash_map::Iter<'a, K, V> {
    type K = K;
    type V = V;
}
impl<'a, K, V> Kv for hash_map::IterMut<'a, K, V> {
    type K = K;
    type V = V;
}
impl<'a, K, V> Kv for hash_map::Keys<'a, K, V> {
    type K = K;
    type V = V;
}
impl<'a, K, V> Kv for hash_map::Values<'a, K, V> {
    type K = K;
    type V = V;
}
impl<'a, K, V> Kv for hash_map::ValuesMut<'a, K, V> {
    type K = K;
    type V = V;
}
impl<'a, K, V> Kv for hash_map::Drain<'a, K, V> {
    type K = K;
    type V = V;
}
impl<K, V> Kv for hash_map::IntoIter<K, V> {
    type K = K;
    type V = V;
}
impl<K, V, S> Kv for hash_map::HashMap<K, V, S> {
    type K = K;
    type V = V;
}
pub fn hm_iter_next<'a, I: Kv>(it: &mut std::slice::Iter<'a, (I::K, I::V)>) -> Option<(&'a I::K, &'a I::V)> {
    match it.next() {
        Some(e) => Some((&e.0, &e.1)),
        None => None,
    }
}
pub fn hm_iter_mut_next<'a, I: Kv>(
    it: &mut std::slice::IterMut<'a, (I::K, I::V)>,
) -> Option<(&'a I::K, &'a mut I::V)> {
    match it.next() {
        Some(e) => Some((&e.0, &mut e.1)),
        None => None,
    }
}
pub fn hm_keys_next<'a, I: Kv>(it: &mut std::slice::Iter<'a, (I::K, I::V)>) -> Option<&'a I::K> {
    match it.next() {
        Some(e) => Some(&e.0),
        None => None,
    }
}
pub fn hm_values_next<'a, I: Kv>(it: &mut std::slice::Iter<'a, (I::K, I::V)>) -> Option<&'a I::V> {
    match it.next() {
        Some(e) => Some(&e.1),
        None => None,
    }
}
pub fn hm_values_mut_next<'a, I: Kv>(it: &mut std::slice::IterMut<'a, (I::K, I::V)>) -> Option<&'a mut I::V> {
    match it.next() {
        Some(e) => Some(&mut e.1),
        None => None,
    }
}
pub fn hm_into_iter_next<I: Kv>(it: &mut M<I::K, I::V>) -> Option<(I::K, I::V)> {
    if it.is_empty() {
        None
    } else {
        Some(it.remove(0))
    }
}
pub fn hm_drain_next<I: Kv>(it: &mut M<I::K, I::V>) -> Option<(I::K, I::V)> {
    hm_into_iter_next::<I>(it)
}
pub fn hm_from_iter<H: Kv, A, I: IntoIterator<Item = (H::K, H::V)>>(it: I) -> M<H::K, H::V>
where
    H::K: Eq,
{
    let mut m = Vec::new();
    let mut it = it.into_iter();
    loop {
        match it.next() {
            Some((k, v)) => {
                hm_insert::<H::K, H::V, (), ()>(&mut m, k, v);
            }
            None => return m,
        }
    }
}
pub fn hm_extend<H: Kv, A, I: IntoIterator<Item = (H::K, H::V)>>(m: &mut M<H::K, H::V>, it: I)
where
    H::K: Eq,
{
    let mut it = it.into_iter();
    loop {
        match it.next() {
            Some((k, v)) => {
                hm_insert::<H::K, H::V, (), ()>(m, k, v);
            }
            None => return,
        }
    }
}
pub fn hm_index<'a, H: Kv, Q: RefTo>(m: &'a M<H::K, H::V>, k: Q) -> &'a H::V
where
    H::K: Borrow<Q::T>,
    Q::T: Eq,
{
    match hm_get::<H::K, H::V, (), (), Q::T>(m, k.get()) {
        Some(v) => v,
        None => panic!("no entry found for key"),
    }
}

// entries: a vacant entry is (map, key), an occupied one (map, position)
pub fn hm_entry<'a, K: Eq, V, S, A>(m: &'a mut M<K, V>, k: K) -> hash_map::Entry<'a, K, V> {
    match hm_find::<K, V, K>(m, &k) {
        Some(i) => hash_map::Entry::Occupied(cast((m, i))),
        None => hash_map::Entry::Vacant(cast((m, k))),
    }
}
type Occ<'a, K, V> = (&'a mut M<K, V>, usize);
pub fn occ_key<'a, K, V, A>(e: &'a Occ<'a, K, V>) -> &'a K {
    &e.0[e.1].0
}
pub fn occ_get<'a, K, V, A>(e: &'a Occ<'a, K, V>) -> &'a V {
    &e.0[e.1].1
}
pub fn occ_get_mut<'a, K, V, A>(e: &'a mut Occ<'a, K, V>) -> &'a mut V {
    &mut e.0[e.1].1
}
pub fn occ_into_mut<'a, K, V, A>(e: Occ<'a, K, V>) -> &'a mut V {
    &mut e.0[e.1].1
}
pub fn occ_insert<'a, K, V, A>(e: &mut Occ<'a, K, V>, v: V) -> V {
    std::mem::replace(&mut e.0[e.1].1, v)
}
pub fn occ_remove<'a, K, V, A>(e: Occ<'a, K, V>) -> V {
    e.0.remove(e.1).1
}
pub fn occ_remove_entry<'a, K, V, A>(e: Occ<'a, K, V>) -> (K, V) {
    e.0.remove(e.1)
}
pub fn vac_key<'a, K, V, A>(e: &'a (&'a mut M<K, V>, K)) -> &'a K {
    &e.1
}
pub fn vac_into_key<'a, K, V, A>(e: (&'a mut M<K, V>, K)) -> K {
    e.1
}
pub fn hm_vac_insert<'a, K, V, A>(e: (&'a mut M<K, V>, K), v: V) -> &'a mut V {
    let (m, k) = e;
    m.push((k, v));
    let n = m.len();
    &mut m[n - 1].1
}
pub fn hm_vac_insert_entry<'a, K, V, A>(e: (&'a mut M<K, V>, K), v: V) -> Occ<'a, K, V> {
    let (m, k) = e;
    m.push((k, v));
    let n = m.len();
    (m, n - 1)
}
pub fn hm_from<H: Kv, I: IntoIterator<Item = (H::K, H::V)>>(it: I) -> M<H::K, H::V>
where
    H::K: Eq,
{
    hm_from_iter::<H, (), I>(it)
}
pub fn hm_into_keys<K, V, S, A>(m: M<K, V>) -> M<K, V> {
    let mut m = m;
    order(&mut m);
    m
}
pub fn into_keys_next<I: Kv>(it: &mut M<I::K, I::V>) -> Option<I::K> {
    if it.is_empty() {
        None
    } else {
        Some(it.remove(0).0)
    }
}
pub fn into_values_next<I: Kv>(it: &mut M<I::K, I::V>) -> Option<I::V> {
    if it.is_empty() {
        None
    } else {
        Some(it.remove(0).1)
    }
}
impl<K, V> Kv for hash_map::IntoKeys<K, V> {
    type K = K;
    type V = V;
}
impl<K, V> Kv for hash_map::IntoValues<K, V> {
    type K = K;
    type V = V;
}
macro_rules! entries {
    ($e:ident, $insert:ident, $or_insert:ident, $or_insert_with:ident, $or_insert_with_key:ident, $or_default:ident,
        $and_modify:ident, $key:ident, $bound:ident) => {
        pub fn $or_insert<'a, K: $bound, V, A>(e: $e::Entry<'a, K, V>, v: V) -> &'a mut V {
            match e {
                $e::Entry::Occupied(o) => occ_into_mut::<K, V, A>(cast(o)),
                $e::Entry::Vacant(x) => $insert::<K, V, A>(cast(x), v),
            }
        }
        pub fn $or_insert_with<'a, K: $bound, V, A, F: FnOnce() -> V>(e: $e::Entry<'a, K, V>, f: F) -> &'a mut V {
            match e {
                $e::Entry::Occupied(o) => occ_into_mut::<K, V, A>(cast(o)),
                $e::Entry::Vacant(x) => $insert::<K, V, A>(cast(x), f()),
            }
        }
        pub fn $or_insert_with_key<'a, K: $bound, V, A, F: FnOnce(&K) -> V>(
            e: $e::Entry<'a, K, V>,
            f: F,
        ) -> &'a mut V {
            match e {
                $e::Entry::Occupied(o) => occ_into_mut::<K, V, A>(cast(o)),
                $e::Entry::Vacant(x) => {
                    let x: (&'a mut M<K, V>, K) = cast(x);
                    let v = f(&x.1);
                    $insert::<K, V, A>(x, v)
                }
            }
        }
        pub fn $or_default<'a, K: $bound, V: Default>(e: $e::Entry<'a, K, V>) -> &'a mut V {
            $or_insert_with::<K, V, (), fn() -> V>(e, V::default)
        }
        pub fn $and_modify<'a, K, V, A, F: FnOnce(&mut V)>(e: $e::Entry<'a, K, V>, f: F) -> $e::Entry<'a, K, V> {
            match e {
                $e::Entry::Occupied(o) => {
                    let mut o: Occ<'a, K, V> = cast(o);
                    f(occ_get_mut::<K, V, A>(unsafe { &mut *(&mut o as *mut Occ<'a, K, V>) }));
                    $e::Entry::Occupied(cast(o))
                }
                x => x,
            }
        }
        pub fn $key<'a, K, V, A>(e: &'a $e::Entry<'a, K, V>) -> &'a K {
            match e {
                $e::Entry::Occupied(o) => occ_key::<K, V, A>(cast(o)),
                $e::Entry::Vacant(o) => vac_key::<K, V, A>(cast(o)),
            }
        }
    };
}
entries!(hash_map, hm_vac_insert, hm_or_insert, hm_or_insert_with, hm_or_insert_with_key, hm_or_default, hm_and_modify, hm_entry_key, Eq);
entries!(btree_map, bm_vac_insert, bm_or_insert, bm_or_insert_with, bm_or_insert_with_key, bm_or_default, bm_and_modify, bm_entry_key, Ord);
// ----------------------------------------------------------- ordered maps
impl<'a, K, V> Kv for btree_map::Iter<'a, K, V> {
    type K = K;
    type V = V;
}
impl<'a, K, V> Kv for btree_map::IterMut<'a, K, V> {
    type K = K;
    type V = V;
}
impl<'a, K, V> Kv for btree_map::Keys<'a, K, V> {
    type K = K;
    type V = V;
}
impl<'a, K, V> Kv for btree_map::Values<'a, K, V> {
    type K = K;
    type V = V;
}
impl<'a, K, V> Kv for btree_map::ValuesMut<'a, K, V> {
    type K = K;
    type V = V;
}
impl<K, V> Kv for btree_map::IntoIter<K, V> {
    type K = K;
    type V = V;
}
impl<K, V> Kv for btree_map::IntoKeys<K, V> {
    type K = K;
    type V = V;
}
impl<K, V> Kv for btree_map::IntoValues<K, V> {
    type K = K;
    type V = V;
}
impl<K, V> Kv for BTreeMap<K, V> {
    type K = K;
    type V = V;
}
fn bm_place<K: Ord, V>(m: &M<K, V>, k: &K) -> usize {
    let mut i = 0;
    while i < m.len() {
        if *k < m[i].0 {
            return i;
        }
        i += 1;
    }
    i
}
pub fn bm_insert<K: Ord, V, A>(m: &mut M<K, V>, k: K, v: V) -> Option<V> {
    match hm_find::<K, V, K>(m, &k) {
        Some(i) => Some(std::mem::replace(&mut m[i].1, v)),
        None => {
            let i = bm_place(m, &k);
            m.insert(i, (k, v));
            None
        }
    }
}
pub fn bm_get<'a, K: Borrow<Q>, V, A, Q: ?Sized + Ord>(m: &'a M<K, V>, k: &Q) -> Option<&'a V> {
    hm_get::<K, V, (), (), Q>(m, k)
}
pub fn bm_get_mut<'a, K: Borrow<Q>, V, A, Q: ?Sized + Ord>(m: &'a mut M<K, V>, k: &Q) -> Option<&'a mut V> {
    hm_get_mut::<K, V, (), (), Q>(m, k)
}
pub fn bm_contains_key<K: Borrow<Q>, V, A, Q: ?Sized + Ord>(m: &M<K, V>, k: &Q) -> bool {
    hm_find(m, k).is_some()
}
pub fn bm_remove<K: Borrow<Q>, V, A, Q: ?Sized + Ord>(m: &mut M<K, V>, k: &Q) -> Option<V> {
    hm_remove::<K, V, (), (), Q>(m, k)
}
pub fn bm_remove_entry<K: Borrow<Q>, V, A, Q: ?Sized + Ord>(m: &mut M<K, V>, k: &Q) -> Option<(K, V)> {
    hm_remove_entry::<K, V, (), (), Q>(m, k)
}
pub fn bm_retain<K, V, A, F: FnMut(&K, &mut V) -> bool>(m: &mut M<K, V>, f: F) {
    hm_retain::<K, V, (), (), F>(m, f)
}
pub fn bm_iter<'a, K, V, A>(m: &'a M<K, V>) -> std::slice::Iter<'a, (K, V)> {
    m.iter()
}
pub fn bm_iter_mut<'a, K, V, A>(m: &'a mut M<K, V>) -> std::slice::IterMut<'a, (K, V)> {
    m.iter_mut()
}
pub fn bm_into<K, V, A>(m: M<K, V>) -> M<K, V> {
    m
}
pub fn bm_entry<'a, K: Ord, V, A>(m: &'a mut M<K, V>, k: K) -> btree_map::Entry<'a, K, V> {
    match hm_find::<K, V, K>(m, &k) {
        Some(i) => btree_map::Entry::Occupied(cast((m, i))),
        None => btree_map::Entry::Vacant(cast((m, k))),
    }
}
pub fn bm_vac_insert<'a, K: Ord, V, A>(e: (&'a mut M<K, V>, K), v: V) -> &'a mut V {
    let (m, k) = e;
    let i = bm_place(m, &k);
    m.insert(i, (k, v));
    &mut m[i].1
}
pub fn bm_from_iter<H: Kv, A, I: IntoIterator<Item = (H::K, H::V)>>(it: I) -> M<H::K, H::V>
where
    H::K: Ord,
{
    let mut m = Vec::new();
    bm_extend::<H, (), I>(&mut m, it);
    m
}
pub fn bm_from<H: Kv, I: IntoIterator<Item = (H::K, H::V)>>(it: I) -> M<H::K, H::V>
where
    H::K: Ord,
{
    bm_from_iter::<H, (), I>(it)
}
pub fn bm_extend<H: Kv, A, I: IntoIterator<Item = (H::K, H::V)>>(m: &mut M<H::K, H::V>, it: I)
where
    H::K: Ord,
{
    let mut it = it.into_iter();
    loop {
        match it.next() {
            Some((k, v)) => {
                bm_insert::<H::K, H::V, ()>(m, k, v);
            }
            None => return,
        }
    }
}
pub fn bm_pop_first<K, V, A>(m: &mut M<K, V>) -> Option<(K, V)> {
    if m.is_empty() {
        None
    } else {
        Some(m.remove(0))
    }
}
pub fn bm_pop_last<K, V, A>(m: &mut M<K, V>) -> Option<(K, V)> {
    m.pop()
}
pub fn bm_first_key_value<'a, K, V, A>(m: &'a M<K, V>) -> Option<(&'a K, &'a V)> {
    match m.first() {
        Some(e) => Some((&e.0, &e.1)),
        None => None,
    }
}
pub fn bm_last_key_value<'a, K, V, A>(m: &'a M<K, V>) -> Option<(&'a K, &'a V)> {
    match m.last() {
        Some(e) => Some((&e.0, &e.1)),
        None => None,
    }
}
pub fn kv_next_back<'a, I: Kv>(it: &mut std::slice::Iter<'a, (I::K, I::V)>) -> Option<(&'a I::K, &'a I::V)> {
    match it.next_back() {
        Some(e) => Some((&e.0, &e.1)),
        None => None,
    }
}
pub fn kv_mut_next_back<'a, I: Kv>(it: &mut std::slice::IterMut<'a, (I::K, I::V)>) -> Option<(&'a I::K, &'a mut I::V)> {
    match it.next_back() {
        Some(e) => Some((&e.0, &mut e.1)),
        None => None,
    }
}
pub fn keys_next_back<'a, I: Kv>(it: &mut std::slice::Iter<'a, (I::K, I::V)>) -> Option<&'a I::K> {
    match it.next_back() {
        Some(e) => Some(&e.0),
        None => None,
    }
}
pub fn values_next_back<'a, I: Kv>(it: &mut std::slice::Iter<'a, (I::K, I::V)>) -> Option<&'a I::V> {
    match it.next_back() {
        Some(e) => Some(&e.1),
        None => None,
    }
}
pub fn values_mut_next_back<'a, I: Kv>(it: &mut std::slice::IterMut<'a, (I::K, I::V)>) -> Option<&'a mut I::V> {
    match it.next_back() {
        Some(e) => Some(&mut e.1),
        None => None,
    }
}
pub fn kv_into_next_back<I: Kv>(it: &mut M<I::K, I::V>) -> Option<(I::K, I::V)> {
    it.pop()
}
pub fn bm_eq<A: Kv, B>(a: &M<A::K, A::V>, b: &M<A::K, A::V>) -> bool
where
    A::K: PartialEq,
    A::V: PartialEq,
{
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i].0 != b[i].0 || a[i].1 != b[i].1 {
            return false;
        }
        i += 1;
    }
    true
}
pub fn hm_eq<A: Kv, B>(a: &M<A::K, A::V>, b: &M<A::K, A::V>) -> bool
where
    A::K: PartialEq,
    A::V: PartialEq,
{
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        let mut k = 0;
        let mut found = false;
        while k < b.len() {
            if a[i].0 == b[k].0 {
                found = a[i].1 == b[k].1;
            }
            k += 1;
        }
        if !found {
            return false;
        }
        i += 1;
    }
    true
}
pub fn bs_eq<A: VecLike, B>(a: &Vec<A::E>, b: &Vec<A::E>) -> bool
where
    A::E: PartialEq,
{
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn hs_eq<A: VecLike, B>(a: &Vec<A::E>, b: &Vec<A::E>) -> bool
where
    A::E: PartialEq,
{
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        let mut k = 0;
        while k < b.len() && a[i] != b[k] {
            k += 1;
        }
        if k == b.len() {
            return false;
        }
        i += 1;
    }
    true
}
impl<'a, K, V> Kv for btree_map::Range<'a, K, V> {
    type K = K;
    type V = V;
}
impl<'a, K, V> Kv for btree_map::RangeMut<'a, K, V> {
    type K = K;
    type V = V;
}
/// places of the first key not below the range and of the first one above it
fn bm_bounds<K: Borrow<Q>, V, Q: ?Sized + Ord, R: std::ops::RangeBounds<Q>>(m: &M<K, V>, r: &R) -> (usize, usize) {
    use std::ops::Bound::*;
    match (r.start_bound(), r.end_bound()) {
        (Excluded(a), Excluded(b)) if *a == *b => panic!("range start and end are equal and excluded in BTreeMap"),
        (Included(a) | Excluded(a), Included(b) | Excluded(b)) if *a > *b => {
            panic!("range start is greater than range end in BTreeMap")
        }
        _ => (),
    }
    let mut lo = 0;
    while lo < m.len() {
        let k = m[lo].0.borrow();
        if match r.start_bound() {
            Included(a) => *k >= *a,
            Excluded(a) => *k > *a,
            Unbounded => true,
        } {
            break;
        }
        lo += 1;
    }
    let mut hi = lo;
    while hi < m.len() {
        let k = m[hi].0.borrow();
        if match r.end_bound() {
            Included(b) => *k > *b,
            Excluded(b) => *k >= *b,
            Unbounded => false,
        } {
            break;
        }
        hi += 1;
    }
    (lo, hi)
}
pub fn bm_range<'a, K: Borrow<Q>, V, A, Q: ?Sized + Ord, R: std::ops::RangeBounds<Q>>(
    m: &'a M<K, V>,
    r: R,
) -> std::slice::Iter<'a, (K, V)> {
    let (a, b) = bm_bounds::<K, V, Q, R>(m, &r);
    m[a..b].iter()
}
pub fn bm_range_mut<'a, K: Borrow<Q>, V, A, Q: ?Sized + Ord, R: std::ops::RangeBounds<Q>>(
    m: &'a mut M<K, V>,
    r: R,
) -> std::slice::IterMut<'a, (K, V)> {
    let (a, b) = bm_bounds::<K, V, Q, R>(m, &r);
    m[a..b].iter_mut()
}
pub fn bm_split_off<K: Borrow<Q>, V, A, Q: ?Sized + Ord>(m: &mut M<K, V>, k: &Q) -> M<K, V> {
    let mut i = 0;
    while i < m.len() && *m[i].0.borrow() < *k {
        i += 1;
    }
    let n = m.len();
    take_range(m, i, n)
}
pub fn bm_append<K: Ord, V, A>(m: &mut M<K, V>, o: &mut M<K, V>) {
    let mut o = std::mem::replace(o, Vec::new());
    while !o.is_empty() {
        let (k, v) = o.remove(0);
        bm_insert::<K, V, A>(m, k, v);
    }
}
/// what is extracted leaves the container at once
pub fn vec_extract_if<T, A, F: FnMut(&mut T) -> bool, R: Rg>(v: &mut Vec<T>, r: R, mut f: F) -> Vec<T> {
    let (mut i, mut n) = (r.lo(), r.hi(v.len()));
    if i > n || n > v.len() {
        panic!("extract_if range out of bounds");
    }
    let mut out = Vec::new();
    while i < n {
        if f(&mut v[i]) {
            out.push(v.remove(i));
            n -= 1;
        } else {
            i += 1;
        }
    }
    out
}
// ------------------------------------------------------------------ sets
fn set_find<T: Borrow<Q>, Q: ?Sized + Eq>(m: &Vec<T>, k: &Q) -> Option<usize> {
    let mut i = 0;
    while i < m.len() {
        if *m[i].borrow() == *k {
            return Some(i);
        }
        i += 1;
    }
    None
}
fn set_order<T>(m: &mut Vec<T>) {
    if m.len() > 1 && any::<bool>("hash set order") {
        slice_reverse(m);
    }
}
pub fn hs_insert<T: Eq, S, A>(m: &mut Vec<T>, x: T) -> bool {
    if set_find(m, &x).is_some() {
        return false;
    }
    m.push(x);
    true
}
pub fn hs_contains<T: Borrow<Q>, S, A, Q: ?Sized + Eq>(m: &Vec<T>, x: &Q) -> bool {
    set_find(m, x).is_some()
}
pub fn hs_remove<T: Borrow<Q>, S, A, Q: ?Sized + Eq>(m: &mut Vec<T>, x: &Q) -> bool {
    match set_find(m, x) {
        Some(i) => {
            m.remove(i);
            true
        }
        None => false,
    }
}
pub fn hs_iter<'a, T, S, A>(m: &'a mut Vec<T>) -> std::slice::Iter<'a, T> {
    set_order(m);
    m.iter()
}
pub fn hs_ref_iter<'a, R: RefTo>(m: &'a mut Vec<<R::T as VecLike>::E>) -> std::slice::Iter<'a, <R::T as VecLike>::E>
where
    R::T: VecLike,
{
    set_order(m);
    m.iter()
}
pub fn hs_drain<'a, T, S, A>(m: &'a mut Vec<T>) -> Vec<T> {
    set_order(m);
    std::mem::replace(m, Vec::new())
}
pub fn hs_into_iter<H: VecLike>(m: Vec<H::E>) -> Vec<H::E> {
    let mut m = m;
    set_order(&mut m);
    m
}
pub fn hs_extend<H, T: Eq, I: IntoIterator<Item = T>>(m: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    loop {
        match it.next() {
            Some(x) => {
                hs_insert::<T, (), ()>(m, x);
            }
            None => return,
        }
    }
}
pub fn hs_from_iter<H, T: Eq, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut m = Vec::new();
    hs_extend::<H, T, I>(&mut m, it);
    m
}
pub fn hs_from<H: VecLike, I: IntoIterator<Item = H::E>>(it: I) -> Vec<H::E>
where
    H::E: Eq,
{
    hs_from_iter::<H, H::E, I>(it)
}
pub fn hs_len<T, S, A>(m: &Vec<T>) -> usize {
    m.len()
}
pub fn hs_is_empty<T, S, A>(m: &Vec<T>) -> bool {
    m.is_empty()
}
pub fn hs_clear<T, S, A>(m: &mut Vec<T>) {
    m.clear()
}
pub fn bs_insert<T: Ord, A>(m: &mut Vec<T>, x: T) -> bool {
    let mut i = 0;
    while i < m.len() {
        if x == m[i] {
            return false;
        }
        if x < m[i] {
            break;
        }
        i += 1;
    }
    m.insert(i, x);
    true
}
pub fn bs_contains<T: Borrow<Q>, A, Q: ?Sized + Ord>(m: &Vec<T>, x: &Q) -> bool {
    set_find(m, x).is_some()
}
pub fn bs_remove<T: Borrow<Q>, A, Q: ?Sized + Ord>(m: &mut Vec<T>, x: &Q) -> bool {
    hs_remove::<T, (), (), Q>(m, x)
}
pub fn bs_extend<H, T: Ord, I: IntoIterator<Item = T>>(m: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    loop {
        match it.next() {
            Some(x) => {
                bs_insert::<T, ()>(m, x);
            }
            None => return,
        }
    }
}
pub fn bs_from_iter<H, T: Ord, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut m = Vec::new();
    bs_extend::<H, T, I>(&mut m, it);
    m
}
pub fn bs_from<H: VecLike, I: IntoIterator<Item = H::E>>(it: I) -> Vec<H::E>
where
    H::E: Ord,
{
    bs_from_iter::<H, H::E, I>(it)
}
// ---------------------------------------------------------------- queues
pub fn bs_range<'a, T: Borrow<Q>, A, Q: ?Sized + Ord, R: std::ops::RangeBounds<Q>>(m: &'a Vec<T>, r: R) -> std::slice::Iter<'a, T> {
    use std::ops::Bound::*;
    match (r.start_bound(), r.end_bound()) {
        (Excluded(a), Excluded(b)) if *a == *b => panic!("range start and end are equal and excluded in BTreeSet"),
        (Included(a) | Excluded(a), Included(b) | Excluded(b)) if *a > *b => {
            panic!("range start is greater than range end in BTreeSet")
        }
        _ => (),
    }
    let mut lo = 0;
    while lo < m.len() {
        let k = m[lo].borrow();
        if match r.start_bound() {
            Included(a) => *k >= *a,
            Excluded(a) => *k > *a,
            Unbounded => true,
        } {
            break;
        }
        lo += 1;
    }
    let mut hi = lo;
    while hi < m.len() {
        let k = m[hi].borrow();
        if match r.end_bound() {
            Included(b) => *k > *b,
            Excluded(b) => *k >= *b,
            Unbounded => false,
        } {
            break;
        }
        hi += 1;
    }
    m[lo..hi].iter()
}
pub fn bs_split_off<T: Borrow<Q>, A, Q: ?Sized + Ord>(m: &mut Vec<T>, k: &Q) -> Vec<T> {
    let mut i = 0;
    while i < m.len() && *m[i].borrow() < *k {
        i += 1;
    }
    let n = m.len();
    take_range(m, i, n)
}
pub fn bs_append<T: Ord, A>(m: &mut Vec<T>, o: &mut Vec<T>) {
    let mut o = std::mem::replace(o, Vec::new());
    while !o.is_empty() {
        bs_insert::<T, A>(m, o.remove(0));
    }
}
pub fn bs_retain<T, A, F: FnMut(&T) -> bool>(m: &mut Vec<T>, f: F) {
    vec_retain::<T, A, F>(m, f)
}
pub fn bs_pop_last<T, A>(m: &mut Vec<T>) -> Option<T> {
    m.pop()
}
pub fn bs_take<T: Borrow<Q>, A, Q: ?Sized + Eq>(m: &mut Vec<T>, x: &Q) -> Option<T> {
    match set_find(m, x) {
        Some(i) => Some(m.remove(i)),
        None => None,
    }
}
pub fn bs_get<'a, T: Borrow<Q>, A, Q: ?Sized + Eq>(m: &'a Vec<T>, x: &Q) -> Option<&'a T> {
    match set_find(m, x) {
        Some(i) => Some(&m[i]),
        None => None,
    }
}
pub fn hs_retain<T, S, A, F: FnMut(&T) -> bool>(m: &mut Vec<T>, f: F) {
    set_order(m);
    vec_retain::<T, A, F>(m, f)
}
pub fn hs_take<T: Borrow<Q>, S, A, Q: ?Sized + Eq>(m: &mut Vec<T>, x: &Q) -> Option<T> {
    bs_take::<T, A, Q>(m, x)
}
pub fn hs_get<'a, T: Borrow<Q>, S, A, Q: ?Sized + Eq>(m: &'a Vec<T>, x: &Q) -> Option<&'a T> {
    bs_get::<T, A, Q>(m, x)
}
/// the elements of a shared slice as arrays; they cannot change as long as the slice is borrowed
fn arrays<'a, T, const N: usize>(s: &'a [T]) -> &'a [[T; N]] {
    let mut v: Vec<[T; N]> = Vec::new();
    let n = s.len() / N;
    let mut i = 0;
    while i < n {
        match <&[T; N]>::try_from(&s[i * N..i * N + N]) {
            Ok(x) => v.push(unsafe { std::ptr::read(x) }),
            Err(_) => (),
        }
        i += 1;
    }
    frozen(v)
}
pub fn slice_as_chunks<'a, T, const N: usize>(s: &'a [T]) -> (&'a [[T; N]], &'a [T]) {
    let (a, b) = s.split_at(s.len() / N * N);
    (arrays(a), b)
}
pub fn slice_as_rchunks<'a, T, const N: usize>(s: &'a [T]) -> (&'a [T], &'a [[T; N]]) {
    let (a, b) = s.split_at(s.len() - s.len() / N * N);
    (a, arrays(b))
}
pub fn slice_as_flattened<'a, T, const N: usize>(s: &'a [[T; N]]) -> &'a [T] {
    let mut v: Vec<T> = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let mut k = 0;
        while k < N {
            v.push(unsafe { std::ptr::read(&s[i][k]) });
            k += 1;
        }
        i += 1;
    }
    frozen(v)
}
pub fn vd_range<'a, T, A, R: Rg>(v: &'a Vec<T>, r: R) -> std::slice::Iter<'a, T> {
    v[r.lo()..r.hi(v.len())].iter()
}
pub fn vd_range_mut<'a, T, A, R: Rg>(v: &'a mut Vec<T>, r: R) -> std::slice::IterMut<'a, T> {
    let n = v.len();
    v[r.lo()..r.hi(n)].iter_mut()
}
pub fn vd_rotate_left<T, A>(v: &mut Vec<T>, k: usize) {
    assert!(k <= v.len());
    slice_rotate_left(v, k)
}
pub fn vd_rotate_right<T, A>(v: &mut Vec<T>, k: usize) {
    assert!(k <= v.len());
    slice_rotate_right(v, k)
}
pub fn vd_pop_front_if<T, A, F: FnOnce(&mut T) -> bool>(v: &mut Vec<T>, f: F) -> Option<T> {
    if !v.is_empty() && f(&mut v[0]) {
        Some(v.remove(0))
    } else {
        None
    }
}
pub fn vd_pop_back_if<T, A, F: FnOnce(&mut T) -> bool>(v: &mut Vec<T>, f: F) -> Option<T> {
    let n = v.len();
    if n > 0 && f(&mut v[n - 1]) {
        v.pop()
    } else {
        None
    }
}
pub fn vd_push_front<T, A>(v: &mut Vec<T>, x: T) {
    v.insert(0, x)
}
pub fn vd_pop_front<T, A>(v: &mut Vec<T>) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v.remove(0))
    }
}
pub fn vd_front<'a, T, A>(v: &'a Vec<T>) -> Option<&'a T> {
    v.first()
}
pub fn vd_back<'a, T, A>(v: &'a Vec<T>) -> Option<&'a T> {
    v.last()
}
pub fn vd_front_mut<'a, T, A>(v: &'a mut Vec<T>) -> Option<&'a mut T> {
    v.first_mut()
}
pub fn vd_back_mut<'a, T, A>(v: &'a mut Vec<T>) -> Option<&'a mut T> {
    v.last_mut()
}
pub fn vd_get<'a, T, A>(v: &'a Vec<T>, i: usize) -> Option<&'a T> {
    v.as_slice().get(i)
}
pub fn vd_get_mut<'a, T, A>(v: &'a mut Vec<T>, i: usize) -> Option<&'a mut T> {
    v.get_mut(i)
}
pub fn vd_iter<'a, T, A>(v: &'a Vec<T>) -> std::slice::Iter<'a, T> {
    v.iter()
}
pub fn vd_iter_mut<'a, T, A>(v: &'a mut Vec<T>) -> std::slice::IterMut<'a, T> {
    v.iter_mut()
}
pub fn vd_remove<T, A>(v: &mut Vec<T>, i: usize) -> Option<T> {
    if i < v.len() {
        Some(v.remove(i))
    } else {
        None
    }
}
pub fn vd_insert<T, A>(v: &mut Vec<T>, i: usize, x: T) {
    v.insert(i, x)
}
pub fn vd_contains<T: PartialEq, A>(v: &Vec<T>, x: &T) -> bool {
    slice_contains(v, x)
}
pub fn vd_make_contiguous<'a, T, A>(v: &'a mut Vec<T>) -> &'a mut [T] {
    v.as_mut_slice()
}
pub fn vd_as_slices<'a, T, A>(v: &'a Vec<T>) -> (&'a [T], &'a [T]) {
    (v.as_slice(), &[])
}
pub fn vd_append<T, A>(v: &mut Vec<T>, o: &mut Vec<T>) {
    vec_append::<T, A>(v, o)
}
pub fn vd_swap<T, A>(v: &mut Vec<T>, i: usize, j: usize) {
    slice_swap(v, i, j)
}
pub fn vd_from<V: VecLike, I: IntoIterator<Item = V::E>>(it: I) -> Vec<V::E> {
    vec_from_iter::<V, V::E, I>(it)
}
pub fn vd_write<W>(v: &mut Vec<u8>, b: &[u8]) -> std::io::Result<usize> {
    vec_extend_from_slice::<u8, ()>(v, b);
    Ok(b.len())
}
pub fn vd_write_all<W>(v: &mut Vec<u8>, b: &[u8]) -> std::io::Result<()> {
    vec_extend_from_slice::<u8, ()>(v, b);
    Ok(())
}
pub fn vd_read<W>(v: &mut Vec<u8>, b: &mut [u8]) -> std::io::Result<usize> {
    let mut i = 0;
    while i < b.len() && !v.is_empty() {
        b[i] = v.remove(0);
        i += 1;
    }
    Ok(i)
}
