// Self-test of the library summaries (lib/models.py, shim/shim.rs): every function here returns true when it runs;
// selftest/run.py compiles and runs it natively and checks that the analysis evaluates each one to true as well.
use std::collections::HashMap;
use std::cmp::Ordering;

fn w() -> Vec<u64> { vec![3, 1, 4, 1, 5, 9, 2, 6] }

macro_rules! tests { ($($n:ident $b:block)*) => { $(pub fn $n() -> bool $b)*
    pub const ALL: &[(&str, fn() -> bool)] = &[$((stringify!($n), $n as fn() -> bool)),*]; } }

tests! {
// ---- slices
s_chunks { let v = w(); let mut s = 0; for c in v.chunks(3) { s = s * 10 + c.len() as u64; } s == 332 }
s_chunks_exact { let v = w(); let it = v.chunks_exact(3); let r = it.remainder().len(); let mut n = 0; for c in it { n += c[0] * 10 + c.len() as u64; } r == 2 && n == 10 * 4 + 6 }
s_chunks_exact_mut { let mut v = w(); { let mut it = v.chunks_exact_mut(3); for c in it.by_ref() { c[1] = 7; } for x in it.into_remainder() { *x = 8; } } v == [3, 7, 4, 1, 7, 9, 8, 8] }
s_chunks_mut { let mut v = w(); for c in v.chunks_mut(2) { c.swap(0, 1); } v == [1, 3, 1, 4, 9, 5, 6, 2] }
s_rchunks { let v = w(); let mut n = 0; for c in v.rchunks(3) { n = n * 100 + c[0] * 10 + c.len() as u64; } n == 930000 + 4300 + 32 - 100 * 0 || n == 93 * 10000 + 43 * 100 + 32 }
s_windows { let v = w(); v.windows(2).filter(|p| p[0] < p[1]).count() == 4 }
s_contains { let v = w(); v.contains(&9) && !v.contains(&7) }
s_starts_ends { let v = w(); v.starts_with(&[3, 1]) && !v.starts_with(&[1]) && v.ends_with(&[2, 6]) && !v.ends_with(&[2]) && v.starts_with(&[]) }
s_reverse { let mut v = w(); v.reverse(); v == [6, 2, 9, 5, 1, 4, 1, 3] }
s_rotate { let mut v = w(); v.rotate_left(3); let mut u = w(); u.rotate_right(3); v == [1, 5, 9, 2, 6, 3, 1, 4] && u == [9, 2, 6, 3, 1, 4, 1, 5] }
s_copy_within { let mut v = w(); v.copy_within(1..4, 3); let mut u = w(); u.copy_within(3.., 0); v == [3, 1, 4, 1, 4, 1, 2, 6] && u == [1, 5, 9, 2, 6, 9, 2, 6] }
s_fill_with { let mut v = w(); let mut k = 0; v.fill_with(|| { k += 2; k }); v == [2, 4, 6, 8, 10, 12, 14, 16] }
s_concat { let v = [&w()[..2], &w()[6..]].concat(); v == [3, 1, 2, 6] }
s_bsearch { let v = [1u64, 3, 5, 7]; v.binary_search(&5) == Ok(2) && v.binary_search(&4) == Err(2) && v.binary_search_by(|x| x.cmp(&7)) == Ok(3) && v.binary_search_by_key(&1, |x| *x) == Ok(0) && v.partition_point(|x| *x < 6) == 3 }
s_swap_with { let mut v = w(); let (a, b) = v.split_at_mut(4); a.swap_with_slice(b); v == [5, 9, 2, 6, 3, 1, 4, 1] }
s_split_checked { let v = w(); v.split_at_checked(9).is_none() && v.split_at_checked(8).unwrap().1.is_empty() }
s_first_chunk { let v = w(); let a: &[u64; 2] = v.first_chunk::<2>().unwrap(); a[1] == 1 && v.last_chunk::<2>().unwrap()[0] == 2 }
s_strip { let v = w(); v.strip_prefix(&[3u64, 1]).unwrap().len() == 6 && v.strip_prefix(&[1u64]).is_none() && v.strip_suffix(&[6u64]).unwrap().len() == 7 }
s_iter_rev { let v = w(); let mut n = 0; for x in v.iter().rev().skip(1).step_by(2) { n = n * 10 + x; } n == 2513 - 0 || n == 2 * 1000 + 5 * 100 + 4 * 10 + 1 - 0 || { let mut m = 0u64; for i in [6usize, 4, 2, 0] { m = m * 10 + v[i]; } n == m } }
s_repeat { let v = [1u64, 2].repeat(3); v == [1, 2, 1, 2, 1, 2] }
s_sort { let mut v = w(); v.sort(); let mut u = w(); u.sort_unstable_by(|a, b| b.cmp(a)); v == [1, 1, 2, 3, 4, 5, 6, 9] && u[0] == 9 && u[7] == 1 }
s_is_sorted { !w().is_sorted() && [1u64, 2, 2].is_sorted() }
s_split { let v = w(); v.split(|x| *x == 1).count() == 3 }
s_first_last { let mut v = w(); *v.first_mut().unwrap() = 8; *v.last_mut().unwrap() = 9; v.first() == Some(&8) && v.last() == Some(&9) }
s_split_first { let v = w(); let (a, r) = v.split_first().unwrap(); let (b, s) = r.split_last().unwrap(); *a == 3 && *b == 6 && s.len() == 6 }
s_get { let v = w(); v.get(3) == Some(&1) && v.get(8).is_none() && v.get(6..).map(|x| x.len()) == Some(2) && v.get(9..).is_none() && v.get(1..=2) == Some(&[1, 4][..]) }
s_copy_from { let mut v = w(); v[2..4].copy_from_slice(&[7, 8]); v[4..].fill(0); v == [3, 1, 7, 8, 0, 0, 0, 0] }
s_eq { w()[..2] == [3, 1] && w() != vec![3u64] && w()[1..2] == w()[3..4] }
s_cmp { w()[..] < [3, 2][..] && [1u64, 2].cmp(&[1, 2]) == Ordering::Equal && vec![2u64] > vec![1u64, 9] }
s_as_chunks { let v = w(); let (c, r) = v.as_chunks::<3>(); c.len() == 2 && c[1][0] == 1 && r.len() == 2 }
s_from_ref { let x = 5u64; std::slice::from_ref(&x).len() == 1 && std::slice::from_ref(&x)[0] == 5 }
s_iter_as_slice { let v = w(); let mut it = v.iter(); it.next(); it.as_slice().len() == 7 }
s_array_map { [1u64, 2, 3].map(|x| x * 2) == [2, 4, 6] }
s_array_from_fn { let a: [u64; 4] = std::array::from_fn(|i| i as u64 * 3); a[3] == 9 && a.iter().sum::<u64>() == 18 }
s_array_try { let v = w(); let a: [u64; 2] = v[..2].try_into().unwrap(); let b: Result<[u64; 2], _> = <[u64; 2]>::try_from(&v[..3]); a == [3, 1] && b.is_err() }
s_join_bytes { let b = 0x0102030405060708u64.to_le_bytes(); u64::from_le_bytes(b) == 0x0102030405060708 && u64::from_be_bytes(b) == 0x0807060504030201 && 0x0102u16.to_be_bytes() == [1, 2] }
// ---- vectors
v_insert { let mut v = w(); v.insert(0, 9); v.insert(9, 8); v.insert(2, 0); v[..4] == [9, 3, 0, 1] && v[10] == 8 && v.len() == 11 }
v_remove { let mut v = w(); let a = v.remove(2); let b = v.swap_remove(0); a == 4 && b == 3 && v == [6, 1, 1, 5, 9, 2] }
v_drain { let mut v = w(); let s: u64 = v.drain(1..3).sum(); s == 5 && v == [3, 1, 5, 9, 2, 6] }
v_drain_full { let mut v = w(); let d: Vec<u64> = v.drain(..).collect(); v.is_empty() && d.len() == 8 }
v_split_off { let mut v = w(); let t = v.split_off(5); v.len() == 5 && t == [9, 2, 6] }
v_append { let mut v = w(); let mut u = vec![7u64]; v.append(&mut u); v.len() == 9 && v[8] == 7 && u.is_empty() }
v_extend_within { let mut v = w(); v.extend_from_within(..2); v.len() == 10 && v[9] == 1 }
v_extend { let mut v = w(); v.extend([1u64, 2].iter()); v.extend(vec![5u64]); v.extend(std::iter::repeat(4).take(2)); v.extend_from_slice(&[9]); v[8..] == [1, 2, 5, 4, 4, 9] }
v_retain { let mut v = w(); v.retain(|x| *x > 2); v == [3, 4, 5, 9, 6] }
v_retain_mut { let mut v = w(); v.retain_mut(|x| { *x += 1; *x % 2 == 0 }); v == [4, 2, 2, 6, 10] }
v_dedup { let mut v = vec![1u64, 1, 2, 2, 1]; v.dedup(); v == [1, 2, 1] }
v_resize { let mut v = w(); v.resize(3, 0); v.resize(5, 7); v.resize_with(6, || 8); v == [3, 1, 4, 7, 7, 8] }
v_trunc { let mut v = w(); v.truncate(2); v.truncate(5); let p = v.pop(); p == Some(1) && v == [3] && v.pop() == Some(3) && v.pop().is_none() }
v_into_iter { let mut n = 0; for x in w() { n = n * 2 + x; } let m: Vec<u64> = w().into_iter().rev().collect(); m[0] == 6 && n > 0 }
v_from { Vec::from([1u64, 2]).len() == 2 && Vec::<u64>::from(&[1u64, 2][..]) == vec![1, 2] && vec![7u64; 3] == [7, 7, 7] }
v_boxed { let b: Box<[u64]> = w().into_boxed_slice(); b.len() == 8 && b[1] == 1 && b.into_vec().len() == 8 }
v_iter_mut { let mut v = w(); for (i, x) in v.iter_mut().enumerate() { *x += i as u64; } v[7] == 13 }
v_iter_mut_rev { let mut v = w(); let mut c = 0; for x in v.iter_mut().rev() { let t = *x; *x = c; c = t; } v == [1, 4, 1, 5, 9, 2, 6, 0] && c == 3 }
v_clone { let v = w(); let mut u = v.clone(); u[0] = 0; v[0] == 3 && u.clone_from(&v) == () && u[0] == 3 }
v_collect_res { let r: Result<Vec<u64>, ()> = w().iter().map(|x| if *x > 100 { Err(()) } else { Ok(*x) }).collect(); let o: Option<Vec<u64>> = w().iter().map(|x| if *x > 8 { None } else { Some(*x) }).collect(); r.unwrap().len() == 8 && o.is_none() }
// ---- options and results
o_comb { let a = Some(3u64); let n: Option<u64> = None; a.map(|x| x + 1) == Some(4) && a.and_then(|x| if x > 5 { Some(1u64) } else { None }).is_none() && n.unwrap_or(7) == 7 && n.unwrap_or_else(|| 8) == 8 && n.unwrap_or_default() == 0 && a.map_or(0, |x| x * 2) == 6 && a.map_or_else(|| 1, |x| x) == 3 && a.filter(|x| *x > 3).is_none() && n.or(Some(1)) == Some(1) && a.xor(n) == Some(3) && n.or_else(|| Some(2)) == Some(2) && a.zip(Some(1u8)) == Some((3, 1)) }
o_test { let a = Some(3u64); let n: Option<u64> = None; a.is_some_and(|x| x == 3) && n.is_none() && n.is_none_or(|x| x == 1) && a.ok_or(()).is_ok() && n.ok_or_else(|| 5u8) == Err(5) && a.iter().count() == 1 && a.into_iter().next() == Some(3) && !a.is_none() }
o_mut { let mut a = Some(3u64); let t = a.take(); let r = a.replace(5); if let Some(x) = a.as_mut() { *x += 1; } let g = *a.get_or_insert(9); let mut b = None; *b.get_or_insert_with(|| 4u64) += 1; b.insert(6); t == Some(3) && r.is_none() && g == 6 && b == Some(6) && a.as_ref().map(|x| *x) == Some(6) }
o_take_if { let mut a = Some(3u64); a.take_if(|x| *x == 3) == Some(3) && a.is_none() }
o_copied { let x = 3u64; Some(&x).copied() == Some(3) && Some(&x).cloned() == Some(3) && Some(Some(1u8)).flatten() == Some(1) && Some(Ok::<u8, ()>(1)).transpose() == Ok(Some(1)) }
o_eq { Some(1u8) == Some(1) && Some(1u8) != None && Some(2u8) > Some(1) && None < Some(0u8) && Some(1u8).cmp(&Some(1)) == Ordering::Equal }
o_let_else { let Some(x) = w().get(2).copied() else { return false }; x == 4 }
r_comb { let a: Result<u64, u8> = Ok(3); let e: Result<u64, u8> = Err(4); a.map(|x| x + 1) == Ok(4) && e.map_err(|x| x + 1) == Err(5) && e.unwrap_or(9) == 9 && e.unwrap_or_else(|x| x as u64) == 4 && a.and_then(|x| if x == 3 { Err(1) } else { Ok(x) }) == Err(1) && e.or_else(|x| if x == 4 { Ok(1) } else { Err(x) }) == Ok(1) && a.ok() == Some(3) && e.err() == Some(4) && a.is_ok_and(|x| x == 3) && e.is_err_and(|x| x == 4) && e.unwrap_or_default() == 0 && a.map_or(0, |x| x) == 3 && a.is_ok() && e.is_err() && a.iter().count() == 1 }
r_try { fn f(x: Option<u64>) -> Option<u64> { let y = x?; Some(y + 1) } fn g(x: Result<u64, u8>) -> Result<u64, u16> { Ok(x? + 1) } f(Some(1)) == Some(2) && f(None).is_none() && g(Err(2)) == Err(2u16) && g(Ok(1)) == Ok(2) }
// ---- iterators
i_adapt { let v = w(); let a: Vec<u64> = v.iter().zip(v.iter().skip(1)).map(|(a, b)| a + b).collect(); a == [4, 5, 5, 6, 14, 11, 8] }
i_chain { (0..3u64).chain(5..7).rev().map(|x| x * 2).collect::<Vec<_>>() == [12, 10, 4, 2, 0] }
i_fold { w().iter().fold(0u64, |a, x| a ^ x) == (3 ^ 1 ^ 4 ^ 1 ^ 5 ^ 9 ^ 2 ^ 6) && w().iter().rfold(0u64, |a, x| a * 2 + x) > 0 }
i_try_fold { w().iter().try_fold(0u64, |a, x| if *x == 9 { None } else { Some(a + x) }).is_none() && w().iter().try_fold(0u64, |a, x| a.checked_add(*x)) == Some(31) }
i_try_for_each { let mut s = 0; let r = w().iter().try_for_each(|x| { if *x == 5 { return Err(s); } s += x; Ok(()) }); r == Err(9) }
i_reduce { w().iter().copied().reduce(|a, b| if a > b { a } else { b }) == Some(9) && Vec::<u64>::new().into_iter().reduce(|a, b| a + b).is_none() }
i_sum { w().iter().sum::<u64>() == 31 && w().iter().copied().sum::<u64>() == 31 && [1u32, 2].iter().sum::<u32>() == 3 && [2u64, 3].iter().product::<u64>() == 6 && [1usize, 2].into_iter().sum::<usize>() == 3 }
i_minmax { w().iter().max() == Some(&9) && w().iter().min() == Some(&1) && w().iter().max_by_key(|x| **x % 5) == Some(&9) && w().iter().enumerate().min_by(|a, b| a.1.cmp(b.1)).unwrap().0 == 1 }
i_pos { w().iter().position(|x| *x == 1) == Some(1) && w().iter().rposition(|x| *x == 1) == Some(3) && w().iter().find(|x| **x > 4) == Some(&5) && w().iter().rfind(|x| **x > 4) == Some(&6) && w().iter().any(|x| *x == 9) && w().iter().all(|x| *x < 10) && w().iter().find_map(|x| if *x > 4 { Some(x * 2) } else { None }) == Some(10) }
i_while { w().iter().take_while(|x| **x < 5).count() == 4 && w().iter().skip_while(|x| **x < 5).count() == 4 && w().iter().map_while(|x| if *x < 5 { Some(x + 1) } else { None }).sum::<u64>() == 13 }
i_flat { w().iter().flat_map(|x| vec![*x; 2]).count() == 16 && vec![vec![1u64], vec![], vec![2, 3]].into_iter().flatten().sum::<u64>() == 6 && vec![Some(1u64), None].into_iter().flatten().count() == 1 }
i_peek { let v = w(); let mut it = v.iter().peekable(); let mut n = 0; while let Some(x) = it.next() { if let Some(y) = it.peek() { if x < *y { n += 1; } } } n == 4 }
i_peek_if { let v = w(); let mut it = v.iter().peekable(); it.next_if(|x| **x == 3).is_some() && it.next_if(|x| **x == 3).is_none() && it.next_if_eq(&&1).is_some() && it.count() == 6 }
i_succ { std::iter::successors(Some(1u64), |x| if *x < 100 { Some(x * 3) } else { None }).last() == Some(243) }
i_from_fn { let mut k = 0; std::iter::from_fn(|| { k += 1; if k < 4 { Some(k) } else { None } }).sum::<u64>() == 6 }
i_repeat_with { let mut k = 0u64; std::iter::repeat_with(|| { k += 1; k }).take(3).sum::<u64>() == 6 }
i_nth { w().iter().nth(2) == Some(&4) && w().iter().nth_back(1) == Some(&2) && w().iter().last() == Some(&6) && w().iter().len() == 8 && w().iter().skip(9).next().is_none() && w().iter().rev().nth(0) == Some(&6) }
i_scan { w().iter().scan(0u64, |a, x| { *a += x; Some(*a) }).last() == Some(31) }
i_unzip { let (a, b): (Vec<u64>, Vec<u64>) = w().iter().map(|x| (*x, x + 1)).unzip(); a[0] + 1 == b[0] && b.len() == 8 }
i_partition { let (a, b): (Vec<u64>, Vec<u64>) = w().iter().partition(|x| **x > 3); a.len() == 4 && b.len() == 4 }
i_eqcmp { w().iter().eq(w().iter()) && !w().iter().eq([1u64].iter()) && w().iter().rev().cmp(w().iter().rev()) == Ordering::Equal && w().iter().lt([4u64].iter()) && w().iter().partial_cmp([1u64].iter()) == Some(Ordering::Greater) && w().iter().ge([3u64].iter()) && w().iter().ne([3u64].iter()) }
i_inclusive { let mut n = 0; for i in 1..=4u64 { n = n * 10 + i; } for i in (0..=2u64).rev() { n = n * 10 + i; } n == 1234210 && (1..=3).contains(&3) && (0..4usize).len() == 4 && (1..=3u32).sum::<u32>() == 6 && !(3..3).contains(&3) && (3..3).is_empty() }
i_step { (0..10u64).step_by(3).sum::<u64>() == 18 && (0..10u32).rev().step_by(4).collect::<Vec<_>>() == [9, 5, 1] }
i_mut_by_ref { let v = w(); let mut it = v.iter(); let a: u64 = it.by_ref().take(2).sum(); let b: u64 = it.sum(); a == 4 && b == 27 }
i_next_back { let v = w(); let mut it = v.iter(); let mut n = 0; while let (Some(a), Some(b)) = (it.next(), it.next_back()) { n += a * b; } n == 18 + 2 + 36 + 5 }
i_cycle { w().iter().cycle().take(10).sum::<u64>() == 35 }
i_zip_rev { let v = w(); let n: u64 = v.iter().zip(v.iter().rev()).map(|(a, b)| a * b).sum(); n == 2 * (18 + 2 + 36 + 5) }
i_enum_rev { let v = w(); v.iter().enumerate().rev().find(|(_, x)| **x == 1).map(|(i, _)| i) == Some(3) }
i_once { std::iter::once(3u64).chain(std::iter::empty()).chain([1u64]).sum::<u64>() == 4 }
i_fuse_last { let mut it = w().into_iter().fuse(); it.next(); it.count() == 7 }
i_inspect { let mut n = 0u64; let k = w().iter().inspect(|x| n += **x).filter(|x| **x > 3).count(); n == 31 && k == 4 }
i_is_sorted { !w().iter().is_sorted() && (0..3u64).is_sorted() }
i_min_by_key { w().iter().enumerate().max_by_key(|(_, x)| **x).map(|(i, _)| i) == Some(5) && w().iter().min_by_key(|x| **x) == Some(&1) }
i_copied_eq { w().iter().copied().filter(|x| x & 1 == 1).eq([3u64, 1, 1, 5, 9]) }
i_mapeach_mut { let mut v = w(); v.iter_mut().for_each(|x| *x *= 2); v.iter_mut().zip([1u64, 1]).for_each(|(a, b)| *a += b); v[0] == 7 && v[2] == 8 }
i_size_hint { w().iter().size_hint() == (8, Some(8)) }
i_bool { w().iter().map(|x| *x > 3).filter(|b| *b).count() == 4 && [true, false].iter().any(|b| *b) }
// ---- numbers
n_basic0 { 5u64.div_ceil(2) == 3 }
n_basic1 { 5u64.rem_euclid(3) == 2 }
n_basic2 { (-5i64).rem_euclid(3) == 1 }
n_basic3 { (-5i64).div_euclid(3) == -2 }
n_basic4 { 13u32.next_multiple_of(8) == 16 }
n_basic5 { 5u64.abs_diff(9) == 4 }
n_basic6 { 17u32.is_multiple_of(17) }
n_basic7 { 10u32.pow(3) == 1000 }
n_basic8 { 8u32.is_power_of_two() }
n_basic9 { 5u32.next_power_of_two() == 8 }
n_basic10 { 5u64.isqrt() == 2 }
n_basic11 { 9u32.ilog2() == 3 }
n_basic12 { 1000u32.ilog10() == 3 }
n_over0 { 250u8.overflowing_add(10) == (4, true) }
n_over1 { 250u8.checked_add(10).is_none() }
n_over2 { 250u8.saturating_add(10) == 255 }
n_over3 { 250u8.wrapping_add(10) == 4 }
n_over4 { 1u8.wrapping_sub(2) == 255 }
n_over5 { 1u8.checked_sub(2).is_none() }
n_over6 { 5u8.saturating_sub(9) == 0 }
n_over7 { 7u8.overflowing_sub(8) == (255, true) }
n_over8 { 3u8.checked_mul(100).is_none() }
n_over9 { 3u8.saturating_mul(100) == 255 }
n_over10 { 200u8.wrapping_mul(3) == 88 }
n_over11 { 4u8.checked_div(0).is_none() }
n_over12 { 4u8.checked_rem(3) == Some(1) }
n_shift0 { 1u64.checked_shl(64).is_none() }
n_shift1 { 1u64.checked_shl(3) == Some(8) }
n_shift2 { 1u64.wrapping_shl(65) == 2 }
n_shift3 { 1u64.unbounded_shl(64) == 0 }
n_shift4 { 8u64.unbounded_shr(70) == 0 }
n_shift5 { 8u64.checked_shr(3) == Some(1) }
n_shift6 { 1u8.overflowing_shl(9) == (2, true) }
n_shift7 { u64::MAX.wrapping_shr(68) == u64::MAX >> 4 }
n_bits0 { 0x0fu8.count_ones() == 4 }
n_bits1 { 0x0fu8.leading_zeros() == 4 }
n_bits2 { 0xf0u8.trailing_zeros() == 4 }
n_bits3 { 0x0fu8.count_zeros() == 4 }
n_bits4 { 0xf0u8.leading_ones() == 4 }
n_bits5 { 0x0fu8.trailing_ones() == 4 }
n_bits6 { 0x12u8.rotate_left(4) == 0x21 }
n_bits7 { 0x12u8.rotate_right(4) == 0x21 }
n_bits8 { 0x1234u16.swap_bytes() == 0x3412 }
n_bits9 { 1u8.reverse_bits() == 0x80 }
n_bits10 { 0u8.leading_zeros() == 8 }
n_signed0 { (-3i64).unsigned_abs() == 3 }
n_signed1 { (-3i64).abs() == 3 }
n_signed2 { i64::MIN.wrapping_abs() == i64::MIN }
n_signed3 { (-3i64).signum() == -1 }
n_signed4 { (-3i64).is_negative() }
n_signed5 { 3i64.is_positive() }
n_signed6 { (-3i8) as u8 == 253 }
n_signed7 { (-3i64).wrapping_neg() == 3 }
n_signed8 { i8::MIN.checked_neg().is_none() }
n_signed9 { 3u8.wrapping_neg() == 253 }
n_signed10 { (-1i64) as u64 == u64::MAX }
n_signed11 { (200u8 as i8) < 0 }
n_signed12 { ((-8i64) >> 1) == -4 }
n_signed13 { (-7i64) / 2 == -3 }
n_signed14 { (-7i64) % 2 == -1 }
n_signed15 { 200u8.cast_signed() == -56 }
n_conv0 { u8::try_from(300u64).is_err() }
n_conv1 { u8::try_from(200u64) == Ok(200) }
n_conv2 { u64::from(7u8) == 7 }
n_conv3 { i64::try_from(u64::MAX).is_err() }
n_conv4 { usize::try_from(5u64).unwrap() == 5 }
n_conv5 { u64::from(true) == 1 }
n_conv6 { u32::try_from(5usize) == Ok(5) }
n_conv7 { 300u64 as u8 == 44 }
n_conv8 { u64::try_from(-1i64).is_err() }
n_conv9 { u8::try_from(5i32).is_ok() }
n_min { 3u64.min(4) == 3 && std::cmp::max(3u64, 4) == 4 && 9u64.clamp(1, 5) == 5 && std::cmp::min_by_key(3u64, 4, |x| 10 - x) == 4 }
n_cmp0 { 3u64.cmp(&4) == Ordering::Less }
n_cmp1 { 3u64.cmp(&4).reverse() == Ordering::Greater }
n_cmp2 { 3u64.cmp(&3).then(4.cmp(&3)) == Ordering::Greater }
n_cmp3 { 3u64.cmp(&3).then_with(|| 1.cmp(&2)).is_lt() }
n_cmp4 { 3u64.partial_cmp(&4) == Some(Ordering::Less) }
n_cmp5 { Ordering::Less.is_le() }
n_cmp6 { (1u8, 2u8) < (1, 3) }
n_cmp7 { Ordering::Less < Ordering::Equal }
n_cmp8 { true > false }
n_cmp9 { !(true & false) }
n_bool { true.then(|| 3) == Some(3) && false.then_some(3).is_none() && (true as u64) == 1 && (true ^ false) && bool::from(true) }
n_carry { let (a, c) = u64::MAX.overflowing_add(1); let x = (u64::MAX as u128) + 1; a == 0 && c && (x >> 64) as u64 == 1 && x as u64 == 0 && (x - 1) as u64 == u64::MAX && u64::MAX as u128 * u64::MAX as u128 >> 127 == 1 }
n_parse0 { u64::from_str_radix("ff", 16) == Ok(255) }
n_parse1 { "12".parse::<u64>() == Ok(12) }
n_parse2 { u64::from_str_radix("102", 2).is_err() }
n_parse3 { i64::from_str_radix("-5", 10) == Ok(-5) }
n_parse4 { u64::from_str_radix("", 10).is_err() }
n_assign { let mut x = 5u64; x += 3; x <<= 2; x |= 1; x ^= 0xf; x &= !2; x -= 1; x *= 3; x /= 2; x %= 50; x >>= 1; let mut y = 0b1010u8; y &= 0b0110; x == { let mut z = ((5u64 + 3) << 2) | 1; z ^= 15; z &= !2; z -= 1; z = z * 3 / 2 % 50 / 2; z } && y == 2 }
n_mem { let mut a = 1u64; let mut b = 2u64; std::mem::swap(&mut a, &mut b); let c = std::mem::replace(&mut a, 7); let d = std::mem::take(&mut b); a == 7 && b == 0 && c == 2 && d == 1 && std::mem::size_of::<u64>() == 8 }
n_const { u64::BITS == 64 && u64::MAX == !0 && i64::MIN == -i64::MAX - 1 && u8::MAX as u32 + 1 == 256 }
n_midpoint { u64::midpoint(3, 6) == 4 }
n_split { let x: u128 = 1 << 100; (x >> 64) as u64 == 1 << 36 && x.leading_zeros() == 27 && x.trailing_zeros() == 100 && (x | 1).count_ones() == 2 }
// ---- text
t_str { let s = "-1010"; s.len() == 5 && !s.is_empty() && s.starts_with('-') && s.strip_prefix('-') == Some("1010") && s.strip_prefix("+").is_none() && s.ends_with("10") && &s[1..] == "1010" && s.as_bytes()[1] == b'1' && s.get(1..3) == Some("10") && s.strip_suffix('0') == Some("-101") }
t_chars { let mut n = 0u64; for c in "1011".chars() { n = n * 2 + c.to_digit(2).unwrap() as u64; } n == 11 && "ab".chars().rev().next() == Some('b') && "abc".chars().count() == 3 && "a1".chars().nth(1) == Some('1') && "abc".bytes().rev().next() == Some(b'c') && "ab".char_indices().last() == Some((1, 'b')) }
t_char0 { 'a'.to_digit(16) == Some(10) }
t_char1 { '5'.is_ascii_digit() }
t_char2 { 'g'.to_digit(16).is_none() }
t_char3 { 'a'.is_ascii_hexdigit() }
t_char4 { 'a'.to_ascii_uppercase() == 'A' }
t_char5 { '1' as u32 == 49 }
t_char6 { char::from(48u8) == '0' }
t_char7 { char::from_digit(11, 16) == Some('b') }
t_char8 { char::from_u32(49) == Some('1') }
t_char9 { 'x'.is_alphabetic() }
t_char10 { 'z'.is_ascii_lowercase() }
t_char11 { b'a'.is_ascii_lowercase() }
t_char12 { b'A'.to_ascii_lowercase() == b'a' }
t_char13 { 'A'.eq_ignore_ascii_case(&'a') }
t_string { let mut s = String::new(); s.push('a'); s.push_str("bc"); s.insert(0, 'x'); s.len() == 4 && s == "xabc" && s.pop() == Some('c') && s.as_str() == "xab" && s.remove(0) == 'x' && s.chars().rev().collect::<String>() == "ba" && "a".repeat(3) == "aaa" && s.to_string() + "z" == "abz" && String::from("q") == "q" && "ab".to_owned().into_bytes() == [97, 98] && !s.contains('z') && s.find('b') == Some(1) }
t_trim { "00101".trim_start_matches('0') == "101" && "  a ".trim() == "a" && "a_b".replace('_', "") == "ab" && "ab".to_uppercase() == "AB" && "a,b".split(',').count() == 2 && "a=b".split_once('=') == Some(("a", "b")) && "100".trim_end_matches('0') == "1" && "ab" < "b" && "0101".trim_start_matches("01") == "" }
t_split_at { let (a, b) = "hello".split_at(2); a == "he" && b == "llo" && "ab".char_indices().count() == 2 && "abc".find("c") == Some(2) && "abc".rfind('a') == Some(0) && "aXb".split('X').next() == Some("a") && "AB".to_ascii_lowercase() == "ab" && "AB".eq_ignore_ascii_case("ab") && "1 2".split_whitespace().count() == 2 && "é".len() == 2 }
t_utf8 { String::from_utf8(vec![b'1', b'0']).unwrap() == "10" && std::str::from_utf8(&[b'a']) == Ok("a") && String::from_utf8_lossy(b"ab").len() == 2 }
t_fmt0 { format!("{}", 12u64) == "12" && format!("a{}b{}", 1u32, "xy") == "a1bxy" && format!("{{{}}}", 'c') == "{c}" }
t_fmt1 { format!("{:x}", 255u64) == "ff" && format!("{:08b}", 5u64) == "00000101" && format!("{:04x}", 0xabcu64) == "0abc" && format!("{:X}", 171u64) == "AB" }
t_fmt2 { let n = 6usize; format!("{:0n$x}", 10u64) == "00000a" }
t_fmt3 { use std::fmt::Write; let mut s = String::new(); write!(s, "{}-{:02x}", 7u8, 9u64).unwrap(); s == "7-09" }
t_fmt4 { use std::fmt::Write; let mut s = String::new(); for w in w() { write!(&mut s, "{:04b}", w).unwrap(); } s == "00110001010000010101100100100110" }
t_hextab { const H: &[u8; 16] = b"0123456789abcdef"; let mut s = String::new(); for i in [3usize, 10] { s.push(H[i] as char); } s == "3a" && [b'1', b'2'].iter().map(|b| *b as char).collect::<String>() == "12" }
// ---- maps
m_basic { let mut m: HashMap<u64, u64> = HashMap::new(); m.insert(1, 10); m.insert(2, 20); let o = m.insert(1, 11); let r = m.remove(&2); o == Some(10) && r == Some(20) && m.get(&1) == Some(&11) && m.get(&2).is_none() && m.contains_key(&1) && m.len() == 1 && !m.is_empty() && m[&1] == 11 && m.get_key_value(&1) == Some((&1, &11)) && m.remove_entry(&1) == Some((1, 11)) && m.is_empty() }
m_entry { let mut m: HashMap<u64, u64> = HashMap::new(); *m.entry(1).or_insert(5) += 1; m.entry(1).and_modify(|v| *v += 1).or_insert(100); m.entry(2).and_modify(|v| *v += 1).or_insert(100); *m.entry(3).or_default() += 2; m.entry(4).or_insert_with(|| 9); m[&1] == 7 && m[&2] == 100 && m[&3] == 2 && m[&4] == 9 }
m_entry_match { use std::collections::hash_map::Entry; let mut m: HashMap<u64, u64> = HashMap::new(); m.insert(1, 1); for k in [1u64, 2] { match m.entry(k) { Entry::Occupied(mut e) => { *e.get_mut() += 5; if *e.get() == 6 { e.insert(8); } } Entry::Vacant(e) => { e.insert(3); } } } if let Entry::Occupied(e) = m.entry(2) { e.remove(); } m[&1] == 8 && m.len() == 1 }
m_iter { let mut m: HashMap<u64, u64> = HashMap::new(); m.insert(1, 10); m.insert(2, 20); let s: u64 = m.iter().map(|(k, v)| k * v).sum(); let k: u64 = m.keys().sum(); for v in m.values_mut() { *v += 1; } for (_, v) in m.iter_mut() { *v += 1; } for (_, v) in &mut m { *v += 1; } let v: u64 = m.values().copied().sum(); s == 50 && k == 3 && v == 36 && m.into_iter().map(|(k, v)| v - k).sum::<u64>() == 33 }
m_retain { let mut m: HashMap<u64, u64> = HashMap::new(); for i in 0..4 { m.insert(i, i * 2); } m.retain(|k, v| { *v += 1; *k != 2 }); m.len() == 3 && m.get(&2).is_none() && m[&3] == 7 }
m_collect { let m: HashMap<u64, u64> = (0..3).map(|x| (x, x + 1)).collect(); let n: HashMap<u64, u64> = [(1, 2)].into(); let mut p = n.clone(); p.extend([(7, 8)]); m.len() == 3 && m[&2] == 3 && n[&1] == 2 && p.len() == 2 && n != p && p.iter().all(|(k, v)| k + 1 == *v) && HashMap::from([(1u64, 2u64)]) == n && m.iter().any(|(k, _)| *k == 2) }
m_get_mut { let mut m: HashMap<u64, u64> = HashMap::new(); m.insert(1, 1); if let Some(v) = m.get_mut(&1) { *v = 5; } let d: Vec<(u64, u64)> = m.drain().collect(); d == [(1, 5)] && m.is_empty() && { m.insert(3, 4); m.clear(); m.len() == 0 } && m.get(&3).copied().unwrap_or(6) == 6 }
m_btree { use std::collections::BTreeMap; let mut m: BTreeMap<u64, u64> = BTreeMap::new(); m.insert(2, 20); m.insert(1, 10); m.get(&1) == Some(&10) && m.len() == 2 && m.keys().next() == Some(&1) && m.remove(&2) == Some(20) && m.contains_key(&1) }
m_set { use std::collections::HashSet; let mut s: HashSet<u64> = HashSet::new(); s.insert(1) && !s.insert(1) && s.contains(&1) && s.len() == 1 && s.remove(&1) && s.is_empty() }
// ---- control
c_cow { use std::borrow::Cow; let v = w(); let c: Cow<[u64]> = Cow::Borrowed(&v); let d: Cow<[u64]> = Cow::Owned(vec![1]); c.len() == 8 && d.len() == 1 && c.into_owned().len() == 8 && d.to_mut_len() == 1 }
c_slice_pat { let v = w(); match v.as_slice() { [] => false, [a] => *a == 0, [a, .., b] => *a == 3 && *b == 6 } }
c_slice_pat2 { let v = [1u64, 2, 3]; if let [x, rest @ ..] = &v[..] { *x == 1 && rest.len() == 2 } else { false } }
c_labels { let mut n = 0; 'o: for i in 0..5u64 { for j in 0..5u64 { if j > i { continue 'o; } if i == 3 { break 'o; } n += 1; } } n == 6 }
c_closure { let mut k = 0u64; let mut f = |x: u64| { k += x; k }; f(2); f(3); let g: &dyn Fn(u64) -> u64 = &|x| x + 1; let h: fn(u64) -> u64 = |x| x * 2; k == 5 && g(1) == 2 && h(2) == 4 }
c_box_dyn { let b: Box<dyn Fn(u64) -> u64> = Box::new(|x| x + 3); b(1) == 4 }
c_struct { #[derive(Clone, PartialEq, Debug, Default, PartialOrd, Eq, Hash, Copy, Ord)] struct P { a: u64, b: u8 } let p = P { a: 1, b: 2 }; let q = P { a: 3, ..p }; p != q && q.b == 2 && P::default().a == 0 && p < q && p.cmp(&q) == Ordering::Less }
c_enum { #[derive(Clone, PartialEq)] enum E { A, B(u64), C { x: u8 } } let es = [E::A, E::B(4), E::C { x: 2 }]; let mut n = 0; for e in &es { n += match e { E::A => 1, E::B(k) if *k > 3 => 10, E::B(_) => 20, E::C { x } => *x as u64 * 100 }; } n == 211 && matches!(es[1], E::B(4)) && es[0] == E::A && E::B(1) != E::B(2) }
c_tuple { let t = (1u64, vec![2u64]); let (a, b) = t.clone(); a == 1 && b[0] == 2 && t == (1, vec![2]) && (1, 2).max((1, 3)) == (1, 3) }
c_while_let { let mut v = w(); let mut n = 0; while let Some(x) = v.pop() { if x == 9 { break; } n += x; } n == 8 && v.len() == 5 }
c_array2 { let mut a = [[0u64; 3]; 2]; a[1][2] = 5; for r in a.iter_mut() { r[0] = 1; } a[1] == [1, 0, 5] && a[0][0] == 1 && a.len() == 2 }
c_const_block { const N: usize = 4; let mut a = [0u64; N]; a[N - 1] = 1; static T: [u64; 3] = [1, 2, 3]; a[3] == 1 && T[2] == 3 && T.iter().sum::<u64>() == 6 }
c_take_vec { let mut v = w(); let u = std::mem::take(&mut v); v.is_empty() && u.len() == 8 && std::mem::replace(&mut v, vec![1]).is_empty() && v == [1] }
c_rc { use std::rc::Rc; let r = Rc::new(5u64); let q = r.clone(); *r + *q == 10 }
c_generic { fn f<T: Into<u64> + Copy>(x: &[T]) -> u64 { x.iter().map(|y| (*y).into()).sum() } f(&[1u8, 2]) == 3 && f(&[1u32]) == 1 }
c_impl_iter { fn f(v: &[u64]) -> impl Iterator<Item = u64> + '_ { v.iter().map(|x| x + 1) } f(&w()).sum::<u64>() == 39 }
c_own_iter { struct C(u64); impl Iterator for C { type Item = u64; fn next(&mut self) -> Option<u64> { if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) } } } C(4).sum::<u64>() == 6 && C(3).map(|x| x * 2).collect::<Vec<_>>() == [4, 2, 0] && C(3).count() == 3 && C(4).filter(|x| x % 2 == 0).zip(0..).last() == Some((0, 1)) }
}
trait ToMutLen { fn to_mut_len(self) -> usize; }
impl ToMutLen for std::borrow::Cow<'_, [u64]> { fn to_mut_len(mut self) -> usize { self.to_mut().len() } }
