// Reference meaning of the iterator consumers, as plain loops. Dumped like the analysed crates and
// inlined by the interpreter, so that every way of writing a loop is summarised by one mechanism.
#![allow(dead_code)]
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(mut it: I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(mut it: I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(mut it: I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(mut it: I, mut f: F) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i = i.wrapping_add(1);
    }
    None
}
pub fn rposition<I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> bool>(it: I, n: usize, mut f: F) -> Option<usize> {
    let mut i = 0usize;
    let mut it = it.rev();
    while let Some(x) = it.next() {
        if f(x) {
            return Some(n.wrapping_sub(1).wrapping_sub(i));
        }
        i = i.wrapping_add(1);
    }
    None
}
pub fn fold<B, I: Iterator, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn try_fold_res<B, E, I: Iterator, F: FnMut(B, I::Item) -> Result<B, E>>(mut it: I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Ok(a) => acc = a,
            Err(e) => return Err(e),
        }
    }
    Ok(acc)
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn try_for_each_res<E, I: Iterator, F: FnMut(I::Item) -> Result<(), E>>(mut it: I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        match f(x) {
            Ok(()) => {}
            Err(e) => return Err(e),
        }
    }
    Ok(())
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut i = 0usize;
    while let Some(_) = it.next() {
        i = i.wrapping_add(1);
    }
    i
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn nth<I: Iterator>(mut it: I, n: usize) -> Option<I::Item> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if i == n {
            return Some(x);
        }
        i = i.wrapping_add(1);
    }
    None
}
pub fn first_yield<I: Iterator>(mut it: I) -> Option<I::Item> {
    while let Some(x) = it.next() {
        return Some(x);
    }
    None
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn collect_res<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Ok(y) => v.push(y),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}
pub fn collect_opt<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Some(y) => v.push(y),
            None => return None,
        }
    }
    Some(v)
}
pub fn collect_set<T: std::hash::Hash + Eq, I: Iterator<Item = T>>(mut it: I) -> std::collections::HashSet<T> {
    let mut v = std::collections::HashSet::new();
    while let Some(x) = it.next() {
        v.insert(x);
    }
    v
}
pub fn collect_string<I: Iterator<Item = String>>(mut it: I) -> String {
    let mut v = String::new();
    while let Some(x) = it.next() {
        v.push_str(&x);
    }
    v
}
pub fn extend_vec<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) {
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn extend_set<T: std::hash::Hash + Eq, I: Iterator<Item = T>>(v: &mut std::collections::HashSet<T>, mut it: I) {
    while let Some(x) = it.next() {
        v.insert(x);
    }
}
pub fn max<I: Iterator<Item = u64>>(mut it: I) -> Option<u64> {
    let mut r = match it.next() {
        Some(x) => x,
        None => return None,
    };
    while let Some(x) = it.next() {
        r = std::cmp::max(r, x);
    }
    Some(r)
}
pub fn min<I: Iterator<Item = u64>>(mut it: I) -> Option<u64> {
    let mut r = match it.next() {
        Some(x) => x,
        None => return None,
    };
    while let Some(x) = it.next() {
        r = std::cmp::min(r, x);
    }
    Some(r)
}
pub fn sum<I: Iterator<Item = u64>>(mut it: I) -> u64 {
    let mut r = 0u64;
    while let Some(x) = it.next() {
        r = r.wrapping_add(x);
    }
    r
}
pub fn retain<T, F: FnMut(&T) -> bool>(v: Vec<T>, mut f: F) -> Vec<T> {
    let mut r = Vec::new();
    for x in v {
        if f(&x) {
            r.push(x);
        }
    }
    r
}
pub fn partition<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some(x) = it.next() {
        if f(&x) {
            a.push(x);
        } else {
            b.push(x);
        }
    }
    (a, b)
}
pub fn flat<U: IntoIterator, I: Iterator<Item = U>>(mut it: I) -> Vec<U::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.extend(x);
    }
    v
}
pub fn position_not<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if !f(&x) {
            return Some(i);
        }
        i = i.wrapping_add(1);
    }
    None
}
pub fn map_while<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(mut it: I, mut f: F) -> Vec<B> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match f(x) {
            Some(y) => v.push(y),
            None => break,
        }
    }
    v
}
pub fn reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut acc = match it.next() {
        Some(x) => x,
        None => return None,
    };
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    Some(acc)
}

pub fn keyed<B, I: Iterator, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<B>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some(x) = it.next() {
        b.push(f(&x));
        a.push(x);
    }
    (a, b)
}
