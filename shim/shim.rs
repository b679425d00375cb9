// Reference loop forms of the consuming Iterator methods (semantics of core::iter documentation).
// Never executed: compiled to MIR by driver/mirdump.rs so that every loop reaches the loop analysis.
#![allow(dead_code, unused)]
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x)
    }
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        let r = f(x);
        if r.is_some() {
            return r;
        }
    }
    None
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn fold<B, I: Iterator, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn try_fold_opt<B, I: Iterator, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Some(v) => acc = v,
            None => return None,
        }
    }
    Some(acc)
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0usize;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0usize;
    while i < n {
        if it.next().is_none() {
            return None;
        }
        i += 1;
    }
    it.next()
}
pub fn collect_vec<T, I: Iterator<Item = T>>(mut it: I) -> Vec<T> {
    let mut v: Vec<T> = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn extend_vec<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) {
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn eq_iter<I: Iterator, J: Iterator>(mut a: I, mut b: J) -> bool
where
    I::Item: PartialEq<J::Item>,
{
    loop {
        match a.next() {
            None => return b.next().is_none(),
            Some(x) => match b.next() {
                None => return false,
                Some(y) => {
                    if !(x == y) {
                        return false;
                    }
                }
            },
        }
    }
}
pub fn cmp_u64_iter<'a, I: Iterator<Item = &'a u64>, J: Iterator<Item = &'a u64>>(mut a: I, mut b: J) -> std::cmp::Ordering {
    loop {
        match a.next() {
            None => {
                if b.next().is_none() {
                    return std::cmp::Ordering::Equal;
                } else {
                    return std::cmp::Ordering::Less;
                }
            }
            Some(x) => match b.next() {
                None => return std::cmp::Ordering::Greater,
                Some(y) => {
                    if *x < *y {
                        return std::cmp::Ordering::Less;
                    }
                    if *x > *y {
                        return std::cmp::Ordering::Greater;
                    }
                }
            },
        }
    }
}
pub fn max_by_key<B: Ord, I: Iterator, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best: Option<(B, I::Item)> = None;
    while let Some(x) = it.next() {
        let k = f(&x);
        match best {
            None => best = Some((k, x)),
            Some((bk, bx)) => {
                match k.cmp(&bk) {
                    std::cmp::Ordering::Less => best = Some((bk, bx)),
                    _ => best = Some((k, x)),
                }
            }
        }
    }
    match best {
        None => None,
        Some((_, x)) => Some(x),
    }
}
pub fn max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> std::cmp::Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best: Option<I::Item> = None;
    while let Some(x) = it.next() {
        match best {
            None => best = Some(x),
            Some(b) => match f(&b, &x) {
                std::cmp::Ordering::Greater => best = Some(b),
                _ => best = Some(x),
            },
        }
    }
    best
}
pub fn min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> std::cmp::Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best: Option<I::Item> = None;
    while let Some(x) = it.next() {
        match best {
            None => best = Some(x),
            Some(b) => match f(&b, &x) {
                std::cmp::Ordering::Greater => best = Some(x),
                _ => best = Some(b),
            },
        }
    }
    best
}
pub fn max_iter<T: Ord, I: Iterator<Item = T>>(mut it: I) -> Option<T> {
    let mut best: Option<T> = None;
    while let Some(x) = it.next() {
        match best {
            None => best = Some(x),
            Some(b) => match b.cmp(&x) {
                std::cmp::Ordering::Greater => best = Some(b),
                _ => best = Some(x),
            },
        }
    }
    best
}
pub fn min_iter<T: Ord, I: Iterator<Item = T>>(mut it: I) -> Option<T> {
    let mut best: Option<T> = None;
    while let Some(x) = it.next() {
        match best {
            None => best = Some(x),
            Some(b) => match b.cmp(&x) {
                std::cmp::Ordering::Greater => best = Some(x),
                _ => best = Some(b),
            },
        }
    }
    best
}
pub fn map_next<B, I: Iterator, F: FnMut(I::Item) -> B>(it: &mut I, f: &mut F) -> Option<B> {
    match it.next() {
        Some(x) => Some(f(x)),
        None => None,
    }
}
pub fn filter_next<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, f: &mut F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn take_while_next<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, f: &mut F, done: &mut bool) -> Option<I::Item> {
    if *done {
        return None;
    }
    match it.next() {
        Some(x) => {
            if f(&x) {
                Some(x)
            } else {
                *done = true;
                None
            }
        }
        None => None,
    }
}
pub fn skip_while_next<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, f: &mut F, started: &mut bool) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if *started {
            return Some(x);
        }
        if !f(&x) {
            *started = true;
            return Some(x);
        }
    }
    None
}
pub fn slice_eq(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0usize;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn words_cmp(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
    let l = if a.len() < b.len() { a.len() } else { b.len() };
    let mut i = 0usize;
    while i < l {
        if a[i] < b[i] {
            return std::cmp::Ordering::Less;
        }
        if a[i] > b[i] {
            return std::cmp::Ordering::Greater;
        }
        i += 1;
    }
    if a.len() < b.len() {
        std::cmp::Ordering::Less
    } else if a.len() > b.len() {
        std::cmp::Ordering::Greater
    } else {
        std::cmp::Ordering::Equal
    }
}
pub fn fill_u64(s: &mut [u64], v: u64) {
    let mut i = 0usize;
    while i < s.len() {
        s[i] = v;
        i += 1;
    }
}
pub fn zip_next<I: Iterator, J: Iterator>(a: &mut I, b: &mut J) -> Option<(I::Item, J::Item)> {
    match a.next() {
        Some(x) => match b.next() {
            Some(y) => Some((x, y)),
            None => None,
        },
        None => None,
    }
}
pub fn chain_next<I: Iterator, J: Iterator<Item = I::Item>>(a: &mut I, b: &mut J, done: &mut bool) -> Option<I::Item> {
    if !*done {
        match a.next() {
            Some(x) => return Some(x),
            None => *done = true,
        }
    }
    b.next()
}
pub fn enumerate_next<I: Iterator>(a: &mut I, n: &mut usize) -> Option<(usize, I::Item)> {
    match a.next() {
        Some(x) => {
            let i = *n;
            *n = i + 1;
            Some((i, x))
        }
        None => None,
    }
}
pub fn take_next<I: Iterator>(a: &mut I, n: &mut usize) -> Option<I::Item> {
    if *n == 0 {
        return None;
    }
    *n -= 1;
    a.next()
}
pub fn skip_next<I: Iterator>(a: &mut I, n: &mut usize) -> Option<I::Item> {
    while *n > 0 {
        *n -= 1;
        if a.next().is_none() {
            return None;
        }
    }
    a.next()
}
pub fn cloned_next<'a, T: Clone + 'a, I: Iterator<Item = &'a T>>(a: &mut I) -> Option<T> {
    match a.next() {
        Some(x) => Some(x.clone()),
        None => None,
    }
}
pub fn filter_map_next<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: &mut I, f: &mut F) -> Option<B> {
    while let Some(x) = it.next() {
        let r = f(x);
        if r.is_some() {
            return r;
        }
    }
    None
}
pub fn inspect_next<I: Iterator, F: FnMut(&I::Item)>(it: &mut I, f: &mut F) -> Option<I::Item> {
    match it.next() {
        Some(x) => {
            f(&x);
            Some(x)
        }
        None => None,
    }
}
pub fn scan_next<B, S, I: Iterator, F: FnMut(&mut S, I::Item) -> Option<B>>(it: &mut I, s: &mut S, f: &mut F) -> Option<B> {
    match it.next() {
        Some(x) => f(s, x),
        None => None,
    }
}
pub fn ne_iter<I: Iterator, J: Iterator>(mut a: I, mut b: J) -> bool
where
    I::Item: PartialEq<J::Item>,
{
    loop {
        match a.next() {
            None => return !b.next().is_none(),
            Some(x) => match b.next() {
                None => return true,
                Some(y) => {
                    if !(x == y) {
                        return true;
                    }
                }
            },
        }
    }
}
pub fn min_by_key<B: Ord, I: Iterator, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best: Option<(B, I::Item)> = None;
    while let Some(x) = it.next() {
        let k = f(&x);
        match best {
            None => best = Some((k, x)),
            Some((bk, bx)) => {
                match k.cmp(&bk) {
                    std::cmp::Ordering::Less => best = Some((k, x)),
                    _ => best = Some((bk, bx)),
                }
            }
        }
    }
    match best {
        None => None,
        Some((_, x)) => Some(x),
    }
}
pub fn sum_u64<I: Iterator<Item = u64>>(mut it: I) -> u64 {
    let mut s = 0u64;
    while let Some(x) = it.next() {
        s += x;
    }
    s
}
pub fn sum_u32<I: Iterator<Item = u32>>(mut it: I) -> u32 {
    let mut s = 0u32;
    while let Some(x) = it.next() {
        s += x;
    }
    s
}
pub fn sum_usize<I: Iterator<Item = usize>>(mut it: I) -> usize {
    let mut s = 0usize;
    while let Some(x) = it.next() {
        s += x;
    }
    s
}
pub fn rposition<I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() {
        i -= 1;
        if f(x) {
            return Some(i);
        }
    }
    None
}
pub fn rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn rfold<B, I: DoubleEndedIterator, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x);
    }
    acc
}
pub fn try_for_each_opt<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    while let Some(x) = it.next() {
        if f(x).is_none() {
            return None;
        }
    }
    Some(())
}
pub fn map_back<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B>(it: &mut I, f: &mut F) -> Option<B> {
    match it.next_back() {
        Some(x) => Some(f(x)),
        None => None,
    }
}
// ---------------------------------------------------------------- slices
pub fn s_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut i = 0usize;
    while i < s.len() {
        if s[i] == *x {
            return true;
        }
        i += 1;
    }
    false
}
pub fn s_reverse<T>(s: &mut [T]) {
    let n = s.len();
    let mut i = 0usize;
    while i < n / 2 {
        s.swap(i, n - 1 - i);
        i += 1;
    }
}
pub fn s_fill_with<T, F: FnMut() -> T>(s: &mut [T], mut f: F) {
    let mut i = 0usize;
    while i < s.len() {
        s[i] = f();
        i += 1;
    }
}
pub fn s_concat<T: Clone>(s: &[&[T]]) -> Vec<T> {
    let mut v: Vec<T> = Vec::new();
    let mut i = 0usize;
    while i < s.len() {
        v.extend_from_slice(s[i]);
        i += 1;
    }
    v
}
pub fn s_repeat<T: Clone>(s: &[T], n: usize) -> Vec<T> {
    let mut v: Vec<T> = Vec::new();
    let mut i = 0usize;
    while i < n {
        v.extend_from_slice(s);
        i += 1;
    }
    v
}
pub fn s_binary_search<T: Ord>(s: &[T], x: &T) -> Result<usize, usize> {
    let mut i = 0usize;
    while i < s.len() {
        match s[i].cmp(x) {
            std::cmp::Ordering::Less => {}
            std::cmp::Ordering::Equal => return Ok(i),
            std::cmp::Ordering::Greater => return Err(i),
        }
        i += 1;
    }
    Err(i)
}
pub fn s_binary_search_by_key<T, B: Ord, F: FnMut(&T) -> B>(s: &[T], b: &B, mut f: F) -> Result<usize, usize> {
    let mut i = 0usize;
    while i < s.len() {
        match f(&s[i]).cmp(b) {
            std::cmp::Ordering::Less => {}
            std::cmp::Ordering::Equal => return Ok(i),
            std::cmp::Ordering::Greater => return Err(i),
        }
        i += 1;
    }
    Err(i)
}
pub fn s_binary_search_by<T, F: FnMut(&T) -> std::cmp::Ordering>(s: &[T], mut f: F) -> Result<usize, usize> {
    let mut i = 0usize;
    while i < s.len() {
        match f(&s[i]) {
            std::cmp::Ordering::Less => {}
            std::cmp::Ordering::Equal => return Ok(i),
            std::cmp::Ordering::Greater => return Err(i),
        }
        i += 1;
    }
    Err(i)
}
pub fn s_partition_point<T, F: FnMut(&T) -> bool>(s: &[T], mut f: F) -> usize {
    let mut i = 0usize;
    while i < s.len() {
        if !f(&s[i]) {
            return i;
        }
        i += 1;
    }
    i
}
pub fn s_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(s: &mut [T], mut f: F) {
    let n = s.len();
    let mut i = 1usize;
    while i < n {
        let mut j = i;
        while j > 0 {
            match f(&s[j - 1], &s[j]) {
                std::cmp::Ordering::Greater => s.swap(j - 1, j),
                _ => break,
            }
            j -= 1;
        }
        i += 1;
    }
}
pub fn s_sort<T: Ord>(s: &mut [T]) {
    let n = s.len();
    let mut i = 1usize;
    while i < n {
        let mut j = i;
        while j > 0 {
            match s[j - 1].cmp(&s[j]) {
                std::cmp::Ordering::Greater => s.swap(j - 1, j),
                _ => break,
            }
            j -= 1;
        }
        i += 1;
    }
}
pub fn s_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) {
    let n = s.len();
    let mut i = 1usize;
    while i < n {
        let mut j = i;
        while j > 0 {
            match f(&s[j - 1]).cmp(&f(&s[j])) {
                std::cmp::Ordering::Greater => s.swap(j - 1, j),
                _ => break,
            }
            j -= 1;
        }
        i += 1;
    }
}
pub fn s_is_sorted<T: PartialOrd>(s: &[T]) -> bool {
    let mut i = 1usize;
    while i < s.len() {
        if s[i - 1] > s[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn s_split<'a, T, F: FnMut(&T) -> bool>(s: &'a [T], mut f: F) -> Vec<&'a [T]> {
    let mut out: Vec<&'a [T]> = Vec::new();
    let mut lo = 0usize;
    let mut i = 0usize;
    while i < s.len() {
        if f(&s[i]) {
            out.push(&s[lo..i]);
            lo = i + 1;
        }
        i += 1;
    }
    out.push(&s[lo..]);
    out
}
pub fn a_map<T, U, F: FnMut(T) -> U>(a: Vec<T>, mut f: F) -> Vec<U> {
    let mut v: Vec<U> = Vec::new();
    let mut it = a.into_iter();
    while let Some(x) = it.next() {
        v.push(f(x));
    }
    v
}
pub fn a_from_fn<U, F: FnMut(usize) -> U>(n: usize, mut f: F) -> Vec<U> {
    let mut v: Vec<U> = Vec::new();
    let mut i = 0usize;
    while i < n {
        v.push(f(i));
        i += 1;
    }
    v
}
// ---------------------------------------------------------------- vectors
pub fn v_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::replace(v, Vec::new());
    let mut it = old.into_iter();
    while let Some(x) = it.next() {
        if f(&x) {
            v.push(x);
        }
    }
}
pub fn v_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::replace(v, Vec::new());
    let mut it = old.into_iter();
    while let Some(mut x) = it.next() {
        if f(&mut x) {
            v.push(x);
        }
    }
}
pub fn v_dedup<T: PartialEq + Clone>(v: &mut Vec<T>) {
    let old = std::mem::replace(v, Vec::new());
    let mut i = 0usize;
    while i < old.len() {
        if i == 0 || !(old[i] == old[i - 1]) {
            v.push(old[i].clone());
        }
        i += 1;
    }
}
pub fn v_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    v.truncate(n);
    while v.len() < n {
        v.push(f());
    }
}
pub fn v_insert<T>(v: &mut Vec<T>, i: usize, x: T) {
    v.push(x);
    let mut j = v.len() - 1;
    while j > i {
        v.swap(j - 1, j);
        j -= 1;
    }
}
pub fn v_remove<T>(v: &mut Vec<T>, i: usize) -> T {
    let mut j = i;
    while j + 1 < v.len() {
        v.swap(j, j + 1);
        j += 1;
    }
    v.pop().unwrap()
}
pub fn v_append<T: Clone>(v: &mut Vec<T>, u: &mut Vec<T>) {
    let mut i = 0usize;
    while i < u.len() {
        v.push(u[i].clone());
        i += 1;
    }
    u.clear();
}
pub fn v_copy<T: Clone>(u: &[T]) -> Vec<T> {
    let mut v: Vec<T> = Vec::new();
    let mut i = 0usize;
    while i < u.len() {
        v.push(u[i].clone());
        i += 1;
    }
    v
}
// ---------------------------------------------------------------- iterators
pub fn inner_next<I: Iterator>(it: &mut I) -> Option<I::Item> {
    it.next()
}
pub fn map_while_next<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: &mut I, f: &mut F) -> Option<B> {
    match it.next() {
        Some(x) => f(x),
        None => None,
    }
}
pub fn flatten_next<J: Iterator, I: Iterator>(it: &mut I, cur: &mut Option<J>) -> Option<J::Item>
where
    I::Item: IntoIterator<IntoIter = J, Item = J::Item>,
{
    loop {
        if let Some(c) = cur {
            let r = c.next();
            if r.is_some() {
                return r;
            }
        }
        match it.next() {
            Some(x) => *cur = Some(x.into_iter()),
            None => return None,
        }
    }
}
pub fn peekable_next<I: Iterator>(it: &mut I, peeked: &mut Option<Option<I::Item>>) -> Option<I::Item> {
    match std::mem::replace(peeked, None) {
        Some(x) => x,
        None => it.next(),
    }
}
pub fn peekable_fill<I: Iterator>(it: &mut I, peeked: &mut Option<Option<I::Item>>) {
    if peeked.is_none() {
        *peeked = Some(it.next());
    }
}
pub fn peekable_peek<'a, I: Iterator>(it: &mut I, peeked: &'a mut Option<Option<I::Item>>) -> Option<&'a I::Item> {
    if peeked.is_none() {
        *peeked = Some(it.next());
    }
    match peeked {
        Some(Some(x)) => Some(x),
        _ => None,
    }
}
pub fn peekable_next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(it: &mut I, peeked: &mut Option<Option<I::Item>>, f: F) -> Option<I::Item> {
    let x = peekable_next(it, peeked);
    match x {
        Some(y) => {
            if f(&y) {
                Some(y)
            } else {
                *peeked = Some(Some(y));
                None
            }
        }
        None => {
            *peeked = Some(None);
            None
        }
    }
}
pub fn peekable_next_if_eq<I: Iterator, T>(it: &mut I, peeked: &mut Option<Option<I::Item>>, v: &T) -> Option<I::Item>
where
    I::Item: PartialEq<T>,
{
    let x = peekable_next(it, peeked);
    match x {
        Some(y) => {
            if y == *v {
                Some(y)
            } else {
                *peeked = Some(Some(y));
                None
            }
        }
        None => {
            *peeked = Some(None);
            None
        }
    }
}
pub fn fuse_next<I: Iterator>(it: &mut I, done: &mut bool) -> Option<I::Item> {
    if *done {
        return None;
    }
    let r = it.next();
    if r.is_none() {
        *done = true;
    }
    r
}
pub fn step_next<I: Iterator>(it: &mut I, k: &mut usize, first: &mut bool) -> Option<I::Item> {
    if *first {
        *first = false;
        return it.next();
    }
    let mut i = 1usize;
    while i < *k {
        if it.next().is_none() {
            return None;
        }
        i += 1;
    }
    it.next()
}
pub fn from_fn_next<T, F: FnMut() -> Option<T>>(f: &mut F) -> Option<T> {
    f()
}
pub fn repeat_with_next<T, F: FnMut() -> T>(f: &mut F) -> Option<T> {
    Some(f())
}
pub fn successors_next<T, F: FnMut(&T) -> Option<T>>(cur: &mut Option<T>, f: &mut F) -> Option<T> {
    match std::mem::replace(cur, None) {
        Some(x) => {
            *cur = f(&x);
            Some(x)
        }
        None => None,
    }
}
pub fn cycle_next<I: Iterator + Clone>(it: &mut I, orig: &mut I) -> Option<I::Item> {
    match it.next() {
        Some(x) => Some(x),
        None => {
            *it = orig.clone();
            it.next()
        }
    }
}
pub fn filter_back<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, f: &mut F) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn filter_map_back<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> Option<B>>(it: &mut I, f: &mut F) -> Option<B> {
    while let Some(x) = it.next_back() {
        let r = f(x);
        if r.is_some() {
            return r;
        }
    }
    None
}
pub fn inspect_back<I: DoubleEndedIterator, F: FnMut(&I::Item)>(it: &mut I, f: &mut F) -> Option<I::Item> {
    match it.next_back() {
        Some(x) => {
            f(&x);
            Some(x)
        }
        None => None,
    }
}
pub fn cloned_back<'a, T: Clone + 'a, I: DoubleEndedIterator<Item = &'a T>>(a: &mut I) -> Option<T> {
    match a.next_back() {
        Some(x) => Some(x.clone()),
        None => None,
    }
}
pub fn chain_back<I: DoubleEndedIterator, J: DoubleEndedIterator<Item = I::Item>>(a: &mut I, b: &mut J, done: &mut bool) -> Option<I::Item> {
    match b.next_back() {
        Some(x) => Some(x),
        None => {
            if *done {
                return None;
            }
            a.next_back()
        }
    }
}
pub fn rev_next<I: DoubleEndedIterator>(it: &mut I) -> Option<I::Item> {
    it.next_back()
}
pub fn rev_back<I: Iterator>(it: &mut I) -> Option<I::Item> {
    it.next()
}
pub fn nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0usize;
    while i < n {
        if it.next_back().is_none() {
            return None;
        }
        i += 1;
    }
    it.next_back()
}
pub fn reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut acc = match it.next() {
        Some(x) => x,
        None => return None,
    };
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    Some(acc)
}
pub fn try_fold_res<B, E, I: Iterator, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Ok(v) => acc = v,
            Err(e) => return Err(e),
        }
    }
    Ok(acc)
}
pub fn try_fold_cf<B, C, I: Iterator, F: FnMut(B, I::Item) -> std::ops::ControlFlow<C, B>>(it: &mut I, init: B, mut f: F) -> std::ops::ControlFlow<C, B> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            std::ops::ControlFlow::Continue(v) => acc = v,
            std::ops::ControlFlow::Break(e) => return std::ops::ControlFlow::Break(e),
        }
    }
    std::ops::ControlFlow::Continue(acc)
}
pub fn try_for_each_res<E, I: Iterator, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        match f(x) {
            Ok(_) => {}
            Err(e) => return Err(e),
        }
    }
    Ok(())
}
pub fn try_for_each_cf<C, I: Iterator, F: FnMut(I::Item) -> std::ops::ControlFlow<C, ()>>(it: &mut I, mut f: F) -> std::ops::ControlFlow<C, ()> {
    while let Some(x) = it.next() {
        match f(x) {
            std::ops::ControlFlow::Continue(_) => {}
            std::ops::ControlFlow::Break(e) => return std::ops::ControlFlow::Break(e),
        }
    }
    std::ops::ControlFlow::Continue(())
}
macro_rules! sums {
    ($($t:ident $s:ident $p:ident)*) => { $(
        pub fn $s<I: Iterator<Item = $t>>(mut it: I) -> $t {
            let mut s = 0 as $t;
            while let Some(x) = it.next() {
                s += x;
            }
            s
        }
        pub fn $p<I: Iterator<Item = $t>>(mut it: I) -> $t {
            let mut s = 1 as $t;
            while let Some(x) = it.next() {
                s *= x;
            }
            s
        }
    )* }
}
sums! { u8 isum_u8 iprod_u8 u16 isum_u16 iprod_u16 u32 isum_u32 iprod_u32 u64 isum_u64 iprod_u64 u128 isum_u128 iprod_u128
        i8 isum_i8 iprod_i8 i16 isum_i16 iprod_i16 i32 isum_i32 iprod_i32 i64 isum_i64 iprod_i64 i128 isum_i128 iprod_i128 }
pub fn partition<T, I: Iterator<Item = T>, F: FnMut(&T) -> bool>(mut it: I, mut f: F) -> (Vec<T>, Vec<T>) {
    let mut a: Vec<T> = Vec::new();
    let mut b: Vec<T> = Vec::new();
    while let Some(x) = it.next() {
        if f(&x) {
            a.push(x);
        } else {
            b.push(x);
        }
    }
    (a, b)
}
pub fn unzip<T, U, I: Iterator<Item = (T, U)>>(mut it: I) -> (Vec<T>, Vec<U>) {
    let mut a: Vec<T> = Vec::new();
    let mut b: Vec<U> = Vec::new();
    while let Some((x, y)) = it.next() {
        a.push(x);
        b.push(y);
    }
    (a, b)
}
pub fn collect_opt<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut v: Vec<T> = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Some(y) => v.push(y),
            None => return None,
        }
    }
    Some(v)
}
pub fn collect_res<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v: Vec<T> = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Ok(y) => v.push(y),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}
pub fn collect_map<K: std::hash::Hash + Eq, V, I: Iterator<Item = (K, V)>>(mut it: I) -> std::collections::HashMap<K, V> {
    let mut m: std::collections::HashMap<K, V> = std::collections::HashMap::new();
    while let Some((k, v)) = it.next() {
        m.insert(k, v);
    }
    m
}
pub fn extend_map<K: std::hash::Hash + Eq, V, I: Iterator<Item = (K, V)>>(m: &mut std::collections::HashMap<K, V>, mut it: I) {
    while let Some((k, v)) = it.next() {
        m.insert(k, v);
    }
}
pub fn iter_is_sorted<I: Iterator>(mut it: I) -> bool
where
    I::Item: PartialOrd,
{
    let mut last = match it.next() {
        Some(x) => x,
        None => return true,
    };
    while let Some(x) = it.next() {
        if last > x {
            return false;
        }
        last = x;
    }
    true
}
pub fn iter_cmp<I: Iterator, J: Iterator<Item = I::Item>>(mut a: I, mut b: J) -> std::cmp::Ordering
where
    I::Item: Ord,
{
    loop {
        match a.next() {
            None => {
                if b.next().is_none() {
                    return std::cmp::Ordering::Equal;
                } else {
                    return std::cmp::Ordering::Less;
                }
            }
            Some(x) => match b.next() {
                None => return std::cmp::Ordering::Greater,
                Some(y) => match x.cmp(&y) {
                    std::cmp::Ordering::Equal => {}
                    o => return o,
                },
            },
        }
    }
}
pub fn iter_partial_cmp<I: Iterator, J: Iterator<Item = I::Item>>(a: I, b: J) -> Option<std::cmp::Ordering>
where
    I::Item: Ord,
{
    Some(iter_cmp(a, b))
}
pub fn iter_lt<I: Iterator, J: Iterator<Item = I::Item>>(a: I, b: J) -> bool
where
    I::Item: Ord,
{
    match iter_cmp(a, b) {
        std::cmp::Ordering::Less => true,
        _ => false,
    }
}
pub fn iter_gt<I: Iterator, J: Iterator<Item = I::Item>>(a: I, b: J) -> bool
where
    I::Item: Ord,
{
    match iter_cmp(a, b) {
        std::cmp::Ordering::Greater => true,
        _ => false,
    }
}
pub fn iter_le<I: Iterator, J: Iterator<Item = I::Item>>(a: I, b: J) -> bool
where
    I::Item: Ord,
{
    match iter_cmp(a, b) {
        std::cmp::Ordering::Greater => false,
        _ => true,
    }
}
pub fn iter_ge<I: Iterator, J: Iterator<Item = I::Item>>(a: I, b: J) -> bool
where
    I::Item: Ord,
{
    match iter_cmp(a, b) {
        std::cmp::Ordering::Less => false,
        _ => true,
    }
}
// ---------------------------------------------------------------- order
pub fn words_partial_cmp(a: &[u64], b: &[u64]) -> Option<std::cmp::Ordering> {
    Some(words_cmp(a, b))
}
pub fn words_lt(a: &[u64], b: &[u64]) -> bool {
    match words_cmp(a, b) {
        std::cmp::Ordering::Less => true,
        _ => false,
    }
}
pub fn words_gt(a: &[u64], b: &[u64]) -> bool {
    match words_cmp(a, b) {
        std::cmp::Ordering::Greater => true,
        _ => false,
    }
}
pub fn words_le(a: &[u64], b: &[u64]) -> bool {
    match words_cmp(a, b) {
        std::cmp::Ordering::Greater => false,
        _ => true,
    }
}
pub fn words_ge(a: &[u64], b: &[u64]) -> bool {
    match words_cmp(a, b) {
        std::cmp::Ordering::Less => false,
        _ => true,
    }
}
pub fn po_lt<T: PartialOrd>(a: &T, b: &T) -> bool {
    match a.partial_cmp(b) {
        Some(std::cmp::Ordering::Less) => true,
        _ => false,
    }
}
pub fn po_gt<T: PartialOrd>(a: &T, b: &T) -> bool {
    match a.partial_cmp(b) {
        Some(std::cmp::Ordering::Greater) => true,
        _ => false,
    }
}
pub fn po_le<T: PartialOrd>(a: &T, b: &T) -> bool {
    match a.partial_cmp(b) {
        Some(std::cmp::Ordering::Less) => true,
        Some(std::cmp::Ordering::Equal) => true,
        _ => false,
    }
}
pub fn po_ge<T: PartialOrd>(a: &T, b: &T) -> bool {
    match a.partial_cmp(b) {
        Some(std::cmp::Ordering::Greater) => true,
        Some(std::cmp::Ordering::Equal) => true,
        _ => false,
    }
}
// ---------------------------------------------------------------- hash maps
use std::collections::hash_map::Entry;
use std::collections::HashMap;
pub fn entry_or_insert<'a, K, V>(e: Entry<'a, K, V>, v: V) -> &'a mut V {
    match e {
        Entry::Occupied(o) => o.into_mut(),
        Entry::Vacant(x) => x.insert(v),
    }
}
pub fn entry_or_insert_with<'a, K, V, F: FnOnce() -> V>(e: Entry<'a, K, V>, f: F) -> &'a mut V {
    match e {
        Entry::Occupied(o) => o.into_mut(),
        Entry::Vacant(x) => x.insert(f()),
    }
}
pub fn entry_or_insert_with_key<'a, K, V, F: FnOnce(&K) -> V>(e: Entry<'a, K, V>, f: F) -> &'a mut V {
    match e {
        Entry::Occupied(o) => o.into_mut(),
        Entry::Vacant(x) => {
            let v = f(x.key());
            x.insert(v)
        }
    }
}
pub fn entry_and_modify<'a, K, V, F: FnOnce(&mut V)>(e: Entry<'a, K, V>, f: F) -> Entry<'a, K, V> {
    match e {
        Entry::Occupied(mut o) => {
            f(o.get_mut());
            Entry::Occupied(o)
        }
        Entry::Vacant(x) => Entry::Vacant(x),
    }
}
pub fn map_retain<K: std::hash::Hash + Eq + Clone, V, F: FnMut(&K, &mut V) -> bool>(m: &mut HashMap<K, V>, mut f: F) {
    let mut keys: Vec<K> = Vec::new();
    let mut it = m.keys();
    while let Some(k) = it.next() {
        keys.push(k.clone());
    }
    let mut ks = keys.into_iter();
    while let Some(k) = ks.next() {
        let keep = match m.get_mut(&k) {
            Some(v) => f(&k, v),
            None => true,
        };
        if !keep {
            m.remove(&k);
        }
    }
}
// ---------------------------------------------------------------- text
pub fn str_trim_start_matches(s: &[u8], c: u8) -> &[u8] {
    let mut i = 0usize;
    while i < s.len() {
        if s[i] != c {
            return &s[i..];
        }
        i += 1;
    }
    &s[i..]
}
pub fn str_trim_end_matches(s: &[u8], c: u8) -> &[u8] {
    let mut i = s.len();
    while i > 0 {
        if s[i - 1] != c {
            return &s[..i];
        }
        i -= 1;
    }
    &s[..i]
}
pub fn str_find(s: &[u8], c: u8) -> Option<usize> {
    let mut i = 0usize;
    while i < s.len() {
        if s[i] == c {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn str_rfind(s: &[u8], c: u8) -> Option<usize> {
    let mut i = s.len();
    while i > 0 {
        i -= 1;
        if s[i] == c {
            return Some(i);
        }
    }
    None
}
pub fn str_contains(s: &[u8], c: u8) -> bool {
    let mut i = 0usize;
    while i < s.len() {
        if s[i] == c {
            return true;
        }
        i += 1;
    }
    false
}
pub fn str_without(s: &[u8], c: u8) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    let mut i = 0usize;
    while i < s.len() {
        if s[i] != c {
            v.push(s[i]);
        }
        i += 1;
    }
    v
}
pub fn bytes_lower(s: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    let mut i = 0usize;
    while i < s.len() {
        v.push(if s[i] >= b'A' && s[i] <= b'Z' { s[i] + 32 } else { s[i] });
        i += 1;
    }
    v
}
pub fn bytes_upper(s: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    let mut i = 0usize;
    while i < s.len() {
        v.push(if s[i] >= b'a' && s[i] <= b'z' { s[i] - 32 } else { s[i] });
        i += 1;
    }
    v
}
pub fn str_split(s: &[u8], c: u8) -> Vec<&[u8]> {
    let mut out: Vec<&[u8]> = Vec::new();
    let mut lo = 0usize;
    let mut i = 0usize;
    while i < s.len() {
        if s[i] == c {
            out.push(&s[lo..i]);
            lo = i + 1;
        }
        i += 1;
    }
    out.push(&s[lo..]);
    out
}
pub fn to_digit(c: u32, radix: u32) -> Option<u32> {
    let d = if c >= 48 && c <= 57 {
        c - 48
    } else if c >= 97 && c <= 122 {
        c - 97 + 10
    } else if c >= 65 && c <= 90 {
        c - 65 + 10
    } else {
        return None;
    };
    if d < radix {
        Some(d)
    } else {
        None
    }
}
// ---------------------------------------------------------------- byte order
pub fn bytes_cmp(a: &[u8], b: &[u8]) -> std::cmp::Ordering {
    let l = if a.len() < b.len() { a.len() } else { b.len() };
    let mut i = 0usize;
    while i < l {
        if a[i] < b[i] {
            return std::cmp::Ordering::Less;
        }
        if a[i] > b[i] {
            return std::cmp::Ordering::Greater;
        }
        i += 1;
    }
    if a.len() < b.len() {
        std::cmp::Ordering::Less
    } else if a.len() > b.len() {
        std::cmp::Ordering::Greater
    } else {
        std::cmp::Ordering::Equal
    }
}
pub fn bytes_partial_cmp(a: &[u8], b: &[u8]) -> Option<std::cmp::Ordering> {
    Some(bytes_cmp(a, b))
}
pub fn bytes_lt(a: &[u8], b: &[u8]) -> bool {
    match bytes_cmp(a, b) {
        std::cmp::Ordering::Less => true,
        _ => false,
    }
}
pub fn bytes_gt(a: &[u8], b: &[u8]) -> bool {
    match bytes_cmp(a, b) {
        std::cmp::Ordering::Greater => true,
        _ => false,
    }
}
pub fn bytes_le(a: &[u8], b: &[u8]) -> bool {
    match bytes_cmp(a, b) {
        std::cmp::Ordering::Greater => false,
        _ => true,
    }
}
pub fn bytes_ge(a: &[u8], b: &[u8]) -> bool {
    match bytes_cmp(a, b) {
        std::cmp::Ordering::Less => false,
        _ => true,
    }
}
// ---------------------------------------------------------------- formatting
pub fn fmt_fixed(out: &mut String, x: u64, k: u32, n: usize) -> std::fmt::Result {
    let m = (1u64 << k) - 1;
    for i in (0..n as u32).rev() {
        let v = (x >> (i * k)) & m;
        out.push(char::from_digit(v as u32, 16).unwrap());
    }
    Ok(())
}
pub fn fmt_radix(out: &mut String, x: u64, k: u32, w: usize) -> std::fmt::Result {
    let used = 64 - x.leading_zeros();
    let mut n = used.div_ceil(k);
    if n == 0 {
        n = 1;
    }
    let mut i = n;
    while (i as usize) < w {
        out.push('0');
        i += 1;
    }
    fmt_fixed(out, x, k, n as usize)
}
pub fn fmt_owned(mut s: String, f: std::fmt::Arguments<'_>) -> String {
    let _ = std::fmt::Write::write_fmt(&mut s, f);
    s
}
pub fn push_any<T>(_s: &mut String, _x: T) {}
pub fn collect_string<T, I: Iterator<Item = T>>(mut it: I) -> String {
    let mut s = String::new();
    while let Some(x) = it.next() {
        push_any(&mut s, x);
    }
    s
}
pub fn extend_string<T, I: Iterator<Item = T>>(s: &mut String, mut it: I) {
    while let Some(x) = it.next() {
        push_any(s, x);
    }
}
// ---------------------------------------------------------------- big integers (no leading zero digits)
pub fn big_bits(s: &[u64]) -> u64 {
    if s.len() == 0 {
        return 0;
    }
    s.len() as u64 * 64 - s[s.len() - 1].leading_zeros() as u64
}
pub fn big_bit(s: &[u64], i: u64) -> bool {
    let w = i / 64;
    if w >= s.len() as u64 {
        return false;
    }
    (s[w as usize] >> (i % 64)) & 1 == 1
}

// consumers of a flattened iterator, as a loop nest
pub fn collect_vec_flat<T, J: IntoIterator<Item = T>, I: Iterator<Item = J>>(mut it: I) -> Vec<T> {
    let mut v: Vec<T> = Vec::new();
    while let Some(c) = it.next() {
        let mut c = c.into_iter();
        while let Some(x) = c.next() {
            v.push(x);
        }
    }
    v
}
pub fn extend_vec_flat<T, J: IntoIterator<Item = T>, I: Iterator<Item = J>>(v: &mut Vec<T>, mut it: I) {
    while let Some(c) = it.next() {
        let mut c = c.into_iter();
        while let Some(x) = c.next() {
            v.push(x);
        }
    }
}
pub fn for_each_flat<J: IntoIterator, I: Iterator<Item = J>, F: FnMut(J::Item)>(mut it: I, mut f: F) {
    while let Some(c) = it.next() {
        let mut c = c.into_iter();
        while let Some(x) = c.next() {
            f(x);
        }
    }
}
pub fn fold_flat<B, J: IntoIterator, I: Iterator<Item = J>, F: FnMut(B, J::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(c) = it.next() {
        let mut c = c.into_iter();
        while let Some(x) = c.next() {
            acc = f(acc, x);
        }
    }
    acc
}
pub fn ok_some1<A, T, E, F: FnOnce(A) -> Result<T, E>>(f: F, a: A) -> Result<Option<T>, E> {
    match f(a) {
        Ok(v) => Ok(Some(v)),
        Err(e) => Err(e),
    }
}
pub fn ok_pair1<A, B, T, E, F: FnOnce(A) -> Result<T, E>>(f: F, a: A, b: B) -> Result<(T, B), E> {
    match f(a) {
        Ok(v) => Ok((v, b)),
        Err(e) => Err(e),
    }
}
pub fn then2<A, B, C, T, U, E, F: FnOnce(A, B) -> Result<T, E>, G: FnOnce(C, T) -> Result<U, E>>(f: F, a: A, b: B, g: G, c: C) -> Result<U, E> {
    match f(a, b) {
        Ok(v) => g(c, v),
        Err(e) => Err(e),
    }
}
