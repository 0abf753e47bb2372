//! Source-level definitions of the std/anyhow combinators the analysed code uses.
//! They are never run: the driver compiles them and the analysis inlines their MIR
//! where the program calls the real combinator, so that `o.map(f)`, `match o`, and
//! `if let` all produce the same facts.
#![allow(dead_code)]
#![allow(clippy::all)]

// ---- Ordering ----
pub fn ordering_then_with<F: FnOnce() -> core::cmp::Ordering>(o: core::cmp::Ordering, f: F) -> core::cmp::Ordering {
    match o { core::cmp::Ordering::Equal => f(), x => x }
}
pub fn ordering_then(o: core::cmp::Ordering, p: core::cmp::Ordering) -> core::cmp::Ordering {
    match o { core::cmp::Ordering::Equal => p, x => x }
}
pub fn ordering_reverse(o: core::cmp::Ordering) -> core::cmp::Ordering {
    match o {
        core::cmp::Ordering::Less => core::cmp::Ordering::Greater,
        core::cmp::Ordering::Equal => core::cmp::Ordering::Equal,
        core::cmp::Ordering::Greater => core::cmp::Ordering::Less,
    }
}

// ---- Option ----
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => Some(f(x)), None => None }
}
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => f(x), None => None }
}
pub fn option_and<T, U>(o: Option<T>, b: Option<U>) -> Option<U> {
    match o { Some(_) => b, None => None }
}
pub fn option_or<T>(o: Option<T>, b: Option<T>) -> Option<T> {
    match o { Some(x) => Some(x), None => b }
}
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => Some(x), None => f() }
}
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(e) }
}
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(f()) }
}
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T {
    match o { Some(x) => x, None => d }
}
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
    match o { Some(x) => x, None => f() }
}
pub fn option_unwrap_or_default<T: Default>(o: Option<T>) -> T {
    match o { Some(x) => x, None => T::default() }
}
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o { Some(x) => f(x), None => d }
}
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o { Some(x) => f(x), None => d() }
}
pub fn option_filter<T, P: FnOnce(&T) -> bool>(o: Option<T>, p: P) -> Option<T> {
    match o { Some(x) => { if p(&x) { Some(x) } else { None } } None => None }
}
pub fn option_is_some_and<T, P: FnOnce(T) -> bool>(o: Option<T>, p: P) -> bool {
    match o { Some(x) => p(x), None => false }
}
pub fn option_is_none_or<T, P: FnOnce(T) -> bool>(o: Option<T>, p: P) -> bool {
    match o { Some(x) => p(x), None => true }
}
pub fn option_is_some<T>(o: Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn option_is_none<T>(o: Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn option_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!() } }
pub fn option_expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(x) => x, None => panic!() } }
pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
    match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }
}
pub fn option_zip<T, U>(a: Option<T>, b: Option<U>) -> Option<(T, U)> {
    match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None }
}
pub fn option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => { f(&x); Some(x) } None => None }
}
pub fn option_context<T, C>(o: Option<T>, c: C) -> Result<T, C> {
    match o { Some(x) => Ok(x), None => Err(c) }
}
pub fn option_with_context<T, C, F: FnOnce() -> C>(o: Option<T>, f: F) -> Result<T, C> {
    match o { Some(x) => Ok(x), None => Err(f()) }
}
// ---- Result ----
pub fn result_map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> {
    match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
}
pub fn result_map_err<T, E, G, F: FnOnce(E) -> G>(r: Result<T, E>, f: F) -> Result<T, G> {
    match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) }
}
pub fn result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> {
    match r { Ok(x) => f(x), Err(e) => Err(e) }
}
pub fn result_and<T, E, U>(r: Result<T, E>, b: Result<U, E>) -> Result<U, E> {
    match r { Ok(_) => b, Err(e) => Err(e) }
}
pub fn result_or<T, E, F>(r: Result<T, E>, b: Result<T, F>) -> Result<T, F> {
    match r { Ok(x) => Ok(x), Err(_) => b }
}
pub fn result_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(r: Result<T, E>, f: F) -> Result<T, G> {
    match r { Ok(x) => Ok(x), Err(e) => f(e) }
}
pub fn result_ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub fn result_err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub fn result_unwrap<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => panic!() } }
pub fn result_expect<T, E>(r: Result<T, E>, _m: &str) -> T { match r { Ok(x) => x, Err(_) => panic!() } }
pub fn result_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(x) => x, Err(_) => d } }
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T {
    match r { Ok(x) => x, Err(e) => f(e) }
}
pub fn result_unwrap_or_default<T: Default, E>(r: Result<T, E>) -> T {
    match r { Ok(x) => x, Err(_) => T::default() }
}
pub fn result_map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U {
    match r { Ok(x) => f(x), Err(_) => d }
}
pub fn result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U {
    match r { Ok(x) => f(x), Err(e) => d(e) }
}
pub fn result_is_ok<T, E>(r: Result<T, E>) -> bool { match r { Ok(_) => true, Err(_) => false } }
pub fn result_is_err<T, E>(r: Result<T, E>) -> bool { match r { Ok(_) => false, Err(_) => true } }
pub fn result_is_ok_and<T, E, P: FnOnce(T) -> bool>(r: Result<T, E>, p: P) -> bool {
    match r { Ok(x) => p(x), Err(_) => false }
}
pub fn result_transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> {
    match r { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) }
}
pub fn result_context<T, E, C>(r: Result<T, E>, _c: C) -> Result<T, E> {
    match r { Ok(x) => Ok(x), Err(e) => Err(e) }
}
pub fn result_with_context<T, E, C, F: FnOnce() -> C>(r: Result<T, E>, _f: F) -> Result<T, E> {
    match r { Ok(x) => Ok(x), Err(e) => Err(e) }
}
// ---- bool ----
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, t: T) -> Option<T> { if b { Some(t) } else { None } }
// ---- Iterator consumers ----
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn iter_try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        match f(x) { Ok(()) => {} Err(e) => return Err(e) }
    }
    Ok(())
}
pub fn iter_try_fold<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) { Ok(b) => acc = b, Err(e) => return Err(e) }
    }
    Ok(acc)
}
pub fn iter_try_for_each_opt<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    while let Some(x) = it.next() {
        match f(x) { Some(()) => {} None => return None }
    }
    Some(())
}
pub fn iter_try_fold_opt<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) { Some(b) => acc = b, None => return None }
    }
    Some(acc)
}
pub fn iter_sum<I: Iterator<Item = usize>>(mut it: I) -> usize {
    let mut n = 0usize;
    while let Some(x) = it.next() { n += x; }
    n
}
pub fn iter_sum_opt<I: Iterator<Item = Option<usize>>>(mut it: I) -> Option<usize> {
    let mut n = 0usize;
    while let Some(x) = it.next() {
        match x { Some(y) => n += y, None => return None }
    }
    Some(n)
}
pub fn iter_sum_res<E, I: Iterator<Item = Result<usize, E>>>(mut it: I) -> Result<usize, E> {
    let mut n = 0usize;
    while let Some(x) = it.next() {
        match x { Ok(y) => n += y, Err(e) => return Err(e) }
    }
    Ok(n)
}
pub fn iter_collect_option_vec<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x { Some(y) => v.push(y), None => return None }
    }
    Some(v)
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn iter_find_map<I: Iterator, T, F: FnMut(I::Item) -> Option<T>>(it: &mut I, mut f: F) -> Option<T> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0usize;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0usize;
    while let Some(x) = it.next() { if f(x) { return Some(n); } n += 1; }
    None
}
pub fn iter_max<T: Ord, I: Iterator<Item = T>>(mut it: I) -> Option<T> {
    let mut best = None;
    while let Some(x) = it.next() {
        let better = match &best { None => true, Some(b) => x >= *b };
        if better { best = Some(x); }
    }
    best
}
pub fn iter_min<T: Ord, I: Iterator<Item = T>>(mut it: I) -> Option<T> {
    let mut best = None;
    while let Some(x) = it.next() {
        let better = match &best { None => true, Some(b) => x < *b };
        if better { best = Some(x); }
    }
    best
}
pub fn iter_max_by_key<T, K: Ord, I: Iterator<Item = T>, F: FnMut(&T) -> K>(mut it: I, mut f: F) -> Option<T> {
    let mut best = None;
    while let Some(x) = it.next() {
        let better = match &best { None => true, Some(b) => f(&x) >= f(b) };
        if better { best = Some(x); }
    }
    best
}
pub fn iter_min_by_key<T, K: Ord, I: Iterator<Item = T>, F: FnMut(&T) -> K>(mut it: I, mut f: F) -> Option<T> {
    let mut best = None;
    while let Some(x) = it.next() {
        let better = match &best { None => true, Some(b) => f(&x) < f(b) };
        if better { best = Some(x); }
    }
    best
}
pub fn iter_last<T, I: Iterator<Item = T>>(mut it: I) -> Option<T> {
    let mut last = None;
    while let Some(x) = it.next() { last = Some(x); }
    last
}
pub fn iter_collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn iter_collect_result_unit<E, I: Iterator<Item = Result<(), E>>>(mut it: I) -> Result<(), E> {
    while let Some(x) = it.next() {
        match x { Ok(()) => {} Err(e) => return Err(e) }
    }
    Ok(())
}
pub fn iter_collect_result_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x { Ok(y) => v.push(y), Err(e) => return Err(e) }
    }
    Ok(v)
}
// ---- collecting into other containers ----
pub fn iter_collect_set<T: Eq + std::hash::Hash, I: Iterator<Item = T>>(mut it: I) -> std::collections::HashSet<T> {
    let mut v = std::collections::HashSet::new();
    while let Some(x) = it.next() { v.insert(x); }
    v
}
pub fn iter_collect_map<K: Eq + std::hash::Hash, V, I: Iterator<Item = (K, V)>>(mut it: I) -> std::collections::HashMap<K, V> {
    let mut v = std::collections::HashMap::new();
    while let Some((k, x)) = it.next() { v.insert(k, x); }
    v
}
pub fn iter_collect_btree<K: Ord, V, I: Iterator<Item = (K, V)>>(mut it: I) -> std::collections::BTreeMap<K, V> {
    let mut v = std::collections::BTreeMap::new();
    while let Some((k, x)) = it.next() { v.insert(k, x); }
    v
}
pub fn iter_unzip<A, B, I: Iterator<Item = (A, B)>>(mut it: I) -> (Vec<A>, Vec<B>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some((x, y)) = it.next() { a.push(x); b.push(y); }
    (a, b)
}
pub fn iter_partition<T, I: Iterator<Item = T>, F: FnMut(&T) -> bool>(mut it: I, mut f: F) -> (Vec<T>, Vec<T>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some(x) = it.next() { if f(&x) { a.push(x) } else { b.push(x) } }
    (a, b)
}
pub fn extend_vec<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x); }
}
pub fn extend_set<T: Eq + std::hash::Hash, I: IntoIterator<Item = T>>(v: &mut std::collections::HashSet<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.insert(x); }
}
pub fn extend_map<K: Eq + std::hash::Hash, T, I: IntoIterator<Item = (K, T)>>(v: &mut std::collections::HashMap<K, T>, it: I) {
    let mut it = it.into_iter();
    while let Some((k, x)) = it.next() { v.insert(k, x); }
}
pub fn set_difference<'a, T: Eq + std::hash::Hash>(a: &'a std::collections::HashSet<T>, b: &'a std::collections::HashSet<T>) -> impl Iterator<Item = &'a T> + 'a {
    a.iter().filter(move |x| !b.contains(*x))
}
pub fn set_intersection<'a, T: Eq + std::hash::Hash>(a: &'a std::collections::HashSet<T>, b: &'a std::collections::HashSet<T>) -> impl Iterator<Item = &'a T> + 'a {
    a.iter().filter(move |x| b.contains(*x))
}
pub fn retain_vec<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut it = std::mem::take(v).into_iter();
    while let Some(x) = it.next() { if f(&x) { v.push(x) } }
}
pub fn retain_set<T: Eq + std::hash::Hash, F: FnMut(&T) -> bool>(v: &mut std::collections::HashSet<T>, mut f: F) {
    let mut it = std::mem::take(v).into_iter();
    while let Some(x) = it.next() { if f(&x) { v.insert(x); } }
}
pub fn iter_collect_flat<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(mut it: I, mut f: F) -> Vec<U::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.extend(f(x)); }
    v
}
pub fn extend_flat<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(v: &mut Vec<U::Item>, mut it: I, mut f: F) {
    while let Some(x) = it.next() { v.extend(f(x)); }
}
