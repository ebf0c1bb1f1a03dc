#![allow(unused)]

pub fn z0(v: &[u32], n: usize) -> Vec<u32> { vec![v.iter().zip(v.iter().skip(1)).fold(0u32, |a, (x, y)| a.wrapping_add(x.wrapping_mul(*y)))] }
pub fn z1(v: &[u32], n: usize) -> Vec<u32> { vec![v.iter().try_fold(0u32, |a, x| a.checked_add(*x)).unwrap_or(7)] }
pub fn z2(v: &[u32], n: usize) -> Vec<u32> { v.iter().scan(0u32, |s, x| { *s = s.wrapping_add(*x); Some(*s) }).collect() }
pub fn z3(v: &[u32], n: usize) -> Vec<u32> { v.iter().take_while(|x| **x < 100).cloned().collect() }
pub fn z4(v: &[u32], n: usize) -> Vec<u32> { v.iter().skip_while(|x| **x < 100).cloned().collect() }
pub fn z5(v: &[u32], n: usize) -> Vec<u32> { v.iter().step_by(2).copied().collect() }
pub fn z6(v: &[u32], n: usize) -> Vec<u32> { v.iter().skip(1).step_by(3).copied().collect() }
pub fn z7(v: &[u32], n: usize) -> Vec<u32> { v.iter().rev().copied().collect() }
pub fn z8(v: &[u32], n: usize) -> Vec<u32> { v.iter().rev().enumerate().map(|(i, x)| x.wrapping_mul(i as u32)).collect() }
pub fn z9(v: &[u32], n: usize) -> Vec<u32> { v.iter().enumerate().rev().map(|(i, x)| x.wrapping_mul(i as u32)).collect() }
pub fn z10(v: &[u32], n: usize) -> Vec<u32> { v.windows(2).map(|w| w[0] ^ w[1]).collect() }
pub fn z11(v: &[u32], n: usize) -> Vec<u32> { v.chunks(3).map(|c| c.iter().fold(0u32, |a, b| a ^ b)).collect() }
pub fn z12(v: &[u32], n: usize) -> Vec<u32> { v.chunks(3).map(|c| c.len() as u32).collect() }
pub fn z13(v: &[u32], n: usize) -> Vec<u32> { v.chunks_exact(2).map(|c| c[0].wrapping_add(c[1])).collect() }
pub fn z14(v: &[u32], n: usize) -> Vec<u32> { v.chunks_exact(2).remainder().to_vec() }
pub fn z15(v: &[u32], n: usize) -> Vec<u32> { v.rchunks(3).map(|c| c[0]).collect() }
pub fn z16(v: &[u32], n: usize) -> Vec<u32> { { let (a, b) = v.split_at(v.len() / 2); let mut r = b.to_vec(); r.extend_from_slice(a); r } }
pub fn z17(v: &[u32], n: usize) -> Vec<u32> { match v.split_first() { Some((h, t)) => { let mut r = t.to_vec(); r.push(*h); r } None => vec![1] } }
pub fn z18(v: &[u32], n: usize) -> Vec<u32> { match v.split_last() { Some((h, t)) => { let mut r = vec![*h]; r.extend(t); r } None => vec![1] } }
pub fn z19(v: &[u32], n: usize) -> Vec<u32> { v.first().copied().into_iter().collect() }
pub fn z20(v: &[u32], n: usize) -> Vec<u32> { v.last().map(|x| x ^ 1).into_iter().collect() }
pub fn z21(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); if !r.is_empty() { let k = n % r.len(); r.rotate_left(k); } r } }
pub fn z22(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); if !r.is_empty() { let k = n % r.len(); r.rotate_right(k); } r } }
pub fn z23(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); if r.len() > 1 { let l = r.len() - 1; r.swap(0, l); } r } }
pub fn z24(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.reverse(); r } }
pub fn z25(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.sort(); r } }
pub fn z26(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.sort_unstable_by(|a, b| b.cmp(a)); r } }
pub fn z27(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.sort_by_key(|x| x % 10); r } }
pub fn z28(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.retain(|x| x % 2 == 0); r } }
pub fn z29(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); let k = n.min(r.len()); let d: Vec<u32> = r.drain(..k).collect(); r.extend(d); r } }
pub fn z30(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.dedup(); r } }
pub fn z31(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.resize(n, 9); r } }
pub fn z32(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.truncate(n); r } }
pub fn z33(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.insert(0, 5); r } }
pub fn z34(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); if !r.is_empty() { r.remove(0); } r } }
pub fn z35(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); if !r.is_empty() { r.swap_remove(0); } r } }
pub fn z36(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.pop(); r } }
pub fn z37(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); let x = r.pop().unwrap_or_default(); r.push(x ^ 3); r } }
pub fn z38(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.append(&mut vec![1, 2]); r } }
pub fn z39(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); let k = n.min(r.len()); let t = r.split_off(k); r.push(t.len() as u32); r } }
pub fn z40(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.fill(n as u32); r } }
pub fn z41(v: &[u32], n: usize) -> Vec<u32> { { let mut r = vec![0; v.len()]; r.copy_from_slice(v); r } }
pub fn z42(v: &[u32], n: usize) -> Vec<u32> { { let mut r = vec![0; v.len()]; r.clone_from_slice(v); r } }
pub fn z43(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.iter_mut().for_each(|x| *x = x.wrapping_mul(3)); r } }
pub fn z44(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); for x in r.iter_mut().skip(1) { *x ^= 1; } r } }
pub fn z45(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); for (i, x) in r.iter_mut().enumerate() { *x = x.wrapping_add(i as u32); } r } }
pub fn z46(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); for c in r.chunks_mut(2) { c[0] = 0; } r } }
pub fn z47(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); if let Some(x) = r.first_mut() { *x = 1; } if let Some(x) = r.last_mut() { *x = 2; } r } }
pub fn z48(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); if let Some(x) = r.get_mut(n) { *x = 77; } r } }
pub fn z49(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); for x in &mut r { if *x > 100 { *x = 100; } } r } }
pub fn z50(v: &[u32], n: usize) -> Vec<u32> { vec![v.iter().max().copied().unwrap_or(3), v.iter().min().copied().unwrap_or(4)] }
pub fn z51(v: &[u32], n: usize) -> Vec<u32> { vec![v.iter().position(|x| *x > 50).unwrap_or(99) as u32, v.iter().rposition(|x| *x > 50).unwrap_or(98) as u32] }
pub fn z52(v: &[u32], n: usize) -> Vec<u32> { vec![v.iter().any(|x| *x == 7) as u32, v.iter().all(|x| *x < 300) as u32] }
pub fn z53(v: &[u32], n: usize) -> Vec<u32> { vec![v.iter().count() as u32, v.iter().filter(|x| **x > 9).count() as u32] }
pub fn z54(v: &[u32], n: usize) -> Vec<u32> { vec![v.iter().nth(2).copied().unwrap_or(0), *v.iter().last().unwrap_or(&8)] }
pub fn z55(v: &[u32], n: usize) -> Vec<u32> { vec![v.iter().map(|x| *x as u64).sum::<u64>() as u32, v.iter().map(|x| (*x | 1) as u64).fold(1u64, |a, b| a.wrapping_mul(b)) as u32] }
pub fn z56(v: &[u32], n: usize) -> Vec<u32> { v.iter().flat_map(|x| vec![*x, x ^ 1]).collect() }
pub fn z57(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| vec![*x; 2]).flatten().collect() }
pub fn z58(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| vec![*x; 2]).collect::<Vec<_>>().concat() }
pub fn z59(v: &[u32], n: usize) -> Vec<u32> { v.iter().filter_map(|x| if x % 2 == 0 { Some(x / 2) } else { None }).collect() }
pub fn z60(v: &[u32], n: usize) -> Vec<u32> { v.iter().filter_map(|x| x.checked_sub(10)).collect() }
pub fn z61(v: &[u32], n: usize) -> Vec<u32> { { let (a, b): (Vec<u32>, Vec<u32>) = v.iter().partition(|x| **x > 20); [a, b].concat() } }
pub fn z62(v: &[u32], n: usize) -> Vec<u32> { { let (a, b): (Vec<u32>, Vec<u32>) = v.iter().map(|x| (*x, x ^ 1)).unzip(); [b, a].concat() } }
pub fn z63(v: &[u32], n: usize) -> Vec<u32> { v.iter().chain(v.iter().rev()).copied().collect() }
pub fn z64(v: &[u32], n: usize) -> Vec<u32> { v.iter().copied().cycle().take(n).collect() }
pub fn z65(v: &[u32], n: usize) -> Vec<u32> { v.iter().map_while(|x| x.checked_sub(5)).collect() }
pub fn z66(v: &[u32], n: usize) -> Vec<u32> { v.iter().inspect(|_| ()).copied().collect() }
pub fn z67(v: &[u32], n: usize) -> Vec<u32> { v.iter().copied().reduce(|a, b| a ^ b).into_iter().collect() }
pub fn z68(v: &[u32], n: usize) -> Vec<u32> { v.iter().min_by_key(|x| **x % 10).copied().into_iter().collect() }
pub fn z69(v: &[u32], n: usize) -> Vec<u32> { v.iter().max_by_key(|x| **x % 10).copied().into_iter().collect() }
pub fn z70(v: &[u32], n: usize) -> Vec<u32> { std::iter::repeat(3u32).take(n).collect() }
pub fn z71(v: &[u32], n: usize) -> Vec<u32> { std::iter::repeat_n(4u32, n).collect() }
pub fn z72(v: &[u32], n: usize) -> Vec<u32> { std::iter::once(1u32).chain(v.iter().copied()).collect() }
pub fn z73(v: &[u32], n: usize) -> Vec<u32> { std::iter::successors(Some(1u32), |x| x.checked_mul(7)).take(n).collect() }
pub fn z74(v: &[u32], n: usize) -> Vec<u32> { { let mut i = 0u32; std::iter::from_fn(|| { i += 1; if i < 5 { Some(i * i) } else { None } }).collect() } }
pub fn z75(v: &[u32], n: usize) -> Vec<u32> { (0..n).map(|i| v.get(i).copied().unwrap_or(0)).collect() }
pub fn z76(v: &[u32], n: usize) -> Vec<u32> { (0..=n).rev().map(|i| i as u32).collect() }
pub fn z77(v: &[u32], n: usize) -> Vec<u32> { (0..n).step_by(3).map(|i| i as u32).collect() }
pub fn z78(v: &[u32], n: usize) -> Vec<u32> { (0..v.len()).filter(|i| i % 2 == 1).map(|i| v[i]).collect() }
pub fn z79(v: &[u32], n: usize) -> Vec<u32> { { let mut a = v.to_vec(); let mut b = vec![1u32]; std::mem::swap(&mut a, &mut b); a.extend(b); a } }
pub fn z80(v: &[u32], n: usize) -> Vec<u32> { { let mut a = v.to_vec(); let b = std::mem::take(&mut a); a.push(b.len() as u32); a } }
pub fn z81(v: &[u32], n: usize) -> Vec<u32> { { let mut a = v.to_vec(); let b = std::mem::replace(&mut a, vec![2]); a.extend_from_slice(&b); a } }
pub fn z82(v: &[u32], n: usize) -> Vec<u32> { vec![match v.binary_search(&7) { Ok(i) => i as u32, Err(i) => 100 + i as u32 }; 1] }
pub fn z83(v: &[u32], n: usize) -> Vec<u32> { vec![v.contains(&7) as u32, v.starts_with(&[1]) as u32, v.ends_with(&[3]) as u32, v.is_empty() as u32] }
pub fn z84(v: &[u32], n: usize) -> Vec<u32> { vec![v.partition_point(|x| *x < 10) as u32] }
pub fn z85(v: &[u32], n: usize) -> Vec<u32> { { let mut r = Vec::with_capacity(n); let mut it = v.iter(); while let Some(x) = it.next() { r.push(*x); it.next(); } r } }
pub fn z86(v: &[u32], n: usize) -> Vec<u32> { { let mut it = v.iter().peekable(); let mut r = vec![]; while let Some(x) = it.next() { if it.peek().is_none() { r.push(x ^ 1) } else { r.push(*x) } } r } }
pub fn z87(v: &[u32], n: usize) -> Vec<u32> { { let mut r = vec![]; for (a, b) in v.iter().zip(v.iter().skip(2)) { r.push(a.max(b) - a.min(b)); } r } }
pub fn z88(v: &[u32], n: usize) -> Vec<u32> { { let mut r = vec![]; 'o: for i in 0..v.len() { for j in 0..i { if v[j] == v[i] { continue 'o; } } r.push(v[i]); } r } }
pub fn z89(v: &[u32], n: usize) -> Vec<u32> { { let mut r = vec![0u32; 4]; for x in v { r[(*x & 3) as usize] += 1; } r } }
pub fn z90(v: &[u32], n: usize) -> Vec<u32> { { let mut r = std::collections::VecDeque::new(); for x in v { r.push_front(*x); } r.into_iter().collect() } }
pub fn z91(v: &[u32], n: usize) -> Vec<u32> { { let s: std::collections::BTreeSet<u32> = v.iter().copied().collect(); s.into_iter().collect() } }
pub fn z92(v: &[u32], n: usize) -> Vec<u32> { { let mut m = std::collections::BTreeMap::new(); for x in v { *m.entry(x % 4).or_insert(0u32) += 1; } m.into_iter().map(|(a, b)| a * 100 + b).collect() } }
pub fn z93(v: &[u32], n: usize) -> Vec<u32> { { let s: std::collections::HashSet<u32> = v.iter().copied().collect(); vec![s.len() as u32] } }
pub fn z94(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.extend(v.iter().map(|x| x ^ 2)); r } }
pub fn z95(v: &[u32], n: usize) -> Vec<u32> { { let a: [u32; 4] = std::array::from_fn(|i| i as u32 * 3); a.to_vec() } }
pub fn z96(v: &[u32], n: usize) -> Vec<u32> { { let a: Result<[u32; 3], _> = v.try_into(); match a { Ok(x) => x.to_vec(), Err(_) => vec![9] } } }
pub fn z97(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| x.to_le_bytes()).flatten().map(|b| b as u32).collect() }
pub fn z98(v: &[u32], n: usize) -> Vec<u32> { v.iter().flat_map(|x| x.to_be_bytes()).map(u32::from).collect() }
pub fn z99(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| x.count_ones() + x.leading_zeros() * 100 + x.trailing_zeros() * 10000).collect() }
pub fn z100(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| x.rotate_left(5) ^ x.rotate_right(n as u32)).collect() }
pub fn z101(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| x.swap_bytes() ^ x.reverse_bits()).collect() }
pub fn z102(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| x.saturating_add(n as u32).saturating_mul(3).saturating_sub(2)).collect() }
pub fn z103(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| (*x as i32).saturating_sub(5).saturating_mul(1 << 20).saturating_add(7) as u32).collect() }
pub fn z104(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| (*x as i32).unsigned_abs() ^ (*x as i32).signum() as u32).collect() }
pub fn z105(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| (*x as i32).wrapping_abs().rem_euclid(7) as u32 + (*x as i32).div_euclid(9) as u32 % 5).collect() }
pub fn z106(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| x.abs_diff(50).pow(2).min(1000).clamp(10, 900)).map(|x| x).collect::<Vec<u32>>() }
pub fn z107(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| x.next_power_of_two().is_power_of_two() as u32 + (x | 1).ilog2() + x.isqrt()).collect() }
pub fn z108(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| x.div_ceil(7) + (x / 2).next_multiple_of(8)).collect() }
pub fn z109(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| { let (a, o) = x.overflowing_add(u32::MAX - 5); a ^ o as u32 }).collect() }
pub fn z110(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| x.checked_mul(1 << 20).unwrap_or(x ^ 5)).collect() }
pub fn z111(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| x.checked_shl(n as u32).unwrap_or(1).wrapping_shl(3)).collect() }
pub fn z112(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| u8::try_from(*x).map_or(256, |b| b as u32)).collect() }
pub fn z113(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| u16::try_from(*x).is_ok() as u32).collect() }
pub fn z114(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| (*x as u8 as i8 as i32 as u32) ^ (*x as i16 as u32)).collect() }
pub fn z115(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| ((*x as f64) * 1.5).round() as u32).collect() }
pub fn z116(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| ((*x as f64).sqrt().floor() + (*x as f64 / 3.0).ceil()) as u32).collect() }
pub fn z117(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| (*x as f32 * 2.0) as u32).collect() }
pub fn z118(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| Some(*x).filter(|y| *y > 5).or(Some(1)).zip(Some(2u32)).map_or(0, |(a, b)| a + b)).collect() }
pub fn z119(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| Some(*x).xor(if *x > 5 { Some(2) } else { None }).unwrap_or(8)).collect() }
pub fn z120(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| { let mut o = Some(*x); let t = o.take(); o.get_or_insert(3).wrapping_add(t.unwrap()) }).collect() }
pub fn z121(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| { let mut o = Some(*x); let t = o.replace(4); o.unwrap() ^ t.unwrap() }).collect() }
pub fn z122(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| if *x > 5 { Ok(*x) } else { Err(2u32) }.or_else(|e| if e == 2 { Ok(e) } else { Err(e) }).unwrap_or_else(|e| e)).collect() }
pub fn z123(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| if *x > 5 { Ok(*x) } else { Err(2u32) }.and_then(|y| if y > 9 { Ok(y) } else { Err(y) }).map_err(|e| e + 1).unwrap_or_else(|e| e)).collect() }
pub fn z124(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| if *x > 5 { Some(*x) } else { None }).collect::<Option<Vec<u32>>>().unwrap_or_else(|| vec![1]) }
pub fn z125(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| if *x > 5 { Ok(*x) } else { Err(*x) }).collect::<Result<Vec<u32>, u32>>().unwrap_or_else(|e| vec![e]) }
pub fn z126(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| if *x > 5 { Ok(*x) } else { Err(*x) }).sum::<Result<u32, u32>>().map_or_else(|e| vec![e], |s| vec![s, s]) }
pub fn z127(v: &[u32], n: usize) -> Vec<u32> { vec![v.iter().cmp(v.iter().rev()) as i32 as u32] }
pub fn z128(v: &[u32], n: usize) -> Vec<u32> { vec![(v < &[5, 6][..]) as u32, (v == [7, 8, 9]) as u32] }
pub fn z129(v: &[u32], n: usize) -> Vec<u32> { vec![v.is_sorted() as u32, v.iter().eq(v.iter().rev()) as u32] }
pub fn z130(v: &[u32], n: usize) -> Vec<u32> { { let b: Box<[u32]> = v.to_vec().into_boxed_slice(); b.iter().copied().collect() } }
pub fn z131(v: &[u32], n: usize) -> Vec<u32> { { let c = std::cell::RefCell::new(v.to_vec()); c.borrow_mut().push(1); c.into_inner() } }
pub fn z132(v: &[u32], n: usize) -> Vec<u32> { { let c = std::cell::Cell::new(1u32); for x in v { c.set(c.get().wrapping_mul(31).wrapping_add(*x)); } vec![c.get()] } }
pub fn z133(v: &[u32], n: usize) -> Vec<u32> { { let r = std::rc::Rc::new(v.to_vec()); let s = r.clone(); s.iter().map(|x| x + r.len() as u32).collect() } }
pub fn z134(v: &[u32], n: usize) -> Vec<u32> { { let c: std::borrow::Cow<[u32]> = if n > 3 { v.into() } else { vec![1u32].into() }; c.into_owned() } }
pub fn z135(v: &[u32], n: usize) -> Vec<u32> { { fn g(v: &[u32]) -> u32 { if v.is_empty() { 0 } else { v[0] ^ g(&v[1..]) } } vec![g(v)] } }
pub fn z136(v: &[u32], n: usize) -> Vec<u32> { { let f: Box<dyn Fn(u32) -> u32> = if n > 3 { Box::new(|x| x ^ 1) } else { Box::new(|x| x ^ 2) }; v.iter().map(|x| f(*x)).collect() } }
pub fn z137(v: &[u32], n: usize) -> Vec<u32> { { let f: fn(u32) -> u32 = if n > 3 { |x| x ^ 1 } else { |x| x ^ 2 }; v.iter().map(|x| f(*x)).collect() } }
pub fn z138(v: &[u32], n: usize) -> Vec<u32> { { let k = v.iter().copied().map(u64::from).sum::<u64>(); vec![(k >> 32) as u32, k as u32, (k % 97) as u32] } }
pub fn z139(v: &[u32], n: usize) -> Vec<u32> { { let s = format!("{}", n); vec![s.len() as u32] } }
pub fn z140(v: &[u32], n: usize) -> Vec<u32> { { let mut a = 1u32; let mut b = n as u32; loop { if b == 0 { break; } a = a.wrapping_mul(3) ^ b; b /= 2; } vec![a] } }
pub fn z141(v: &[u32], n: usize) -> Vec<u32> { { let mut s = 0u32; let mut i = v.len(); while i > 0 { i -= 1; s = s.wrapping_mul(5).wrapping_add(v[i]); } vec![s] } }
pub fn z142(v: &[u32], n: usize) -> Vec<u32> { { let mut q = v.to_vec(); let mut r = vec![]; while let Some(x) = q.pop() { r.push(x); if x > 3 && r.len() < 40 { q.push(x / 4); } } r } }
pub fn z143(v: &[u32], n: usize) -> Vec<u32> { { let t = v.iter().map(|x| (x % 3, *x)).max(); t.map_or(vec![], |(a, b)| vec![a, b]) } }
pub fn z144(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.iter_mut().zip(v.iter().rev()).for_each(|(a, b)| *a ^= *b); r } }
pub fn z145(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); let (a, b) = r.split_at_mut(v.len() / 2); for (x, y) in a.iter_mut().zip(b.iter_mut()) { std::mem::swap(x, y); } r } }
pub fn z146(v: &[u32], n: usize) -> Vec<u32> { vec![v.iter().copied().map(std::num::Wrapping).fold(std::num::Wrapping(0u32), |a, b| a * std::num::Wrapping(31) + b).0] }
pub fn z147(v: &[u32], n: usize) -> Vec<u32> { v.iter().fold(None, |a: Option<u32>, x| Some(a.map_or(*x, |y| y.max(*x)))).into_iter().collect() }
pub fn z148(v: &[u32], n: usize) -> Vec<u32> { v.iter().skip(n).take(2).copied().collect() }
pub fn z149(v: &[u32], n: usize) -> Vec<u32> { v[..n.min(v.len())].iter().chain(&v[n.min(v.len())..]).copied().collect() }
pub fn z150(v: &[u32], n: usize) -> Vec<u32> { v.iter().rev().skip(1).rev().copied().collect() }
pub fn z151(v: &[u32], n: usize) -> Vec<u32> { v.split(|x| *x == 7).map(|s| s.len() as u32).collect() }
pub fn z152(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| x.to_string().len() as u32).collect() }
pub fn z153(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|&x| bool::from(x > 3) as u32 + u32::from(x == 7)).collect() }
pub fn z154(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|&x| char::from_digit(x % 10, 10).map_or(0, |c| c as u32)).collect() }
pub fn z155(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|&x| matches!(x, 3..=20) as u32).collect() }
pub fn z156(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|&x| match x { 0 => 1, 1..=9 => 2, 10 | 11 => 3, _ if x % 2 == 0 => 4, _ => 5 }).collect() }
pub fn z157(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|&x| if let Some(y) = x.checked_sub(7) { y } else { 0 }).collect() }
pub fn z158(v: &[u32], n: usize) -> Vec<u32> { { let Some(x) = v.first() else { return vec![4] }; vec![*x] } }
pub fn z159(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.extend_from_within(..v.len() / 2); r } }
pub fn z160(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); if v.len() > 3 { r.copy_within(0..2, 1); } r } }
pub fn z161(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.splice(0..0, [1, 2]); r } }
pub fn z162(v: &[u32], n: usize) -> Vec<u32> { { let mut r = v.to_vec(); r.dedup_by_key(|x| *x / 10); r } }
pub fn z163(v: &[u32], n: usize) -> Vec<u32> { { let r: Vec<u32> = v.iter().copied().collect::<std::collections::BinaryHeap<u32>>().into_sorted_vec(); r } }
pub fn z164(v: &[u32], n: usize) -> Vec<u32> { [v, &[1, 2]].concat() }
pub fn z165(v: &[u32], n: usize) -> Vec<u32> { vec![v.iter().is_sorted_by(|a, b| a <= b) as u32] }
pub fn z166(v: &[u32], n: usize) -> Vec<u32> { v.iter().zip(1u32..).map(|(a, b)| a.wrapping_mul(b)).collect() }
pub fn z167(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| (*x as u64).wrapping_mul(0x9e3779b97f4a7c15) >> 40).map(|x| x as u32).collect() }
pub fn z168(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| ((*x as u128) << 70 >> 68) as u32).collect() }
pub fn z170(v: &[u32], n: usize) -> Vec<u32> { let mut it = v.iter(); let mut s = 0u32; while let Some(a) = it.next() { if let Some(b) = it.next() { s = s.wrapping_add(a ^ b); } else { s ^= a; } } vec![s] }
pub fn z171(v: &[u32], n: usize) -> Vec<u32> { let mut out = Vec::with_capacity(v.len()); 'o: for (i, x) in v.iter().enumerate() { for y in &v[i + 1..] { if x == y { continue 'o; } } out.push(*x); } out }
pub fn z172(v: &[u32], n: usize) -> Vec<u32> { let mut best = None; for &x in v { best = match best { None => Some(x), Some(b) if x < b => Some(x), o => o }; } vec![best.unwrap_or(u32::MAX)] }
pub fn z173(v: &[u32], n: usize) -> Vec<u32> { fn h<F: Fn(u32) -> u32>(v: &[u32], f: F) -> Vec<u32> { v.iter().map(|x| f(*x)).collect() } let k = n as u32; h(v, |x| x.wrapping_add(k)) }
pub fn z174(v: &[u32], n: usize) -> Vec<u32> { struct A { s: u32, c: usize } impl A { fn add(&mut self, x: u32) -> &mut Self { self.s = self.s.wrapping_add(x); self.c += 1; self } } let mut a = A { s: 0, c: 0 }; for x in v { a.add(*x).add(1); } vec![a.s, a.c as u32] }
pub fn z175(v: &[u32], n: usize) -> Vec<u32> { trait T { fn f(&self) -> u32; fn g(&self) -> u32 { self.f() ^ 1 } } impl T for u32 { fn f(&self) -> u32 { self.wrapping_mul(3) } } v.iter().map(|x| x.g()).collect() }
pub fn z176(v: &[u32], n: usize) -> Vec<u32> { match v { [] => vec![0], [a] => vec![*a], [a, .., b] => vec![*a, *b] } }
pub fn z177(v: &[u32], n: usize) -> Vec<u32> { match v { [a, b, rest @ ..] => { let mut r = rest.to_vec(); r.push(a ^ b); r } _ => vec![] } }
pub fn z178(v: &[u32], n: usize) -> Vec<u32> { if let [a, b, c] = v { vec![*c, *b, *a] } else { vec![9] } }
pub fn z179(v: &[u32], n: usize) -> Vec<u32> { fn f(v: &[u32], i: usize) -> Option<u32> { let a = v.get(i)?; let b = v.get(i + 1)?; Some(a ^ b) } vec![f(v, n).unwrap_or(77)] }
pub fn z180(v: &[u32], n: usize) -> Vec<u32> { fn f(v: &[u32], i: usize) -> Result<u32, String> { let a = v.get(i).ok_or("no")?; if *a > 100 { return Err(format!("big {}", a)); } Ok(*a) } match f(v, n) { Ok(x) => vec![x], Err(_) => vec![] } }
pub fn z181(v: &[u32], n: usize) -> Vec<u32> { fn c<const N: usize>(v: &[u32]) -> [u32; N] { let mut a = [0u32; N]; for (x, y) in a.iter_mut().zip(v) { *x = *y; } a } c::<5>(v).to_vec() }
pub fn z182(v: &[u32], n: usize) -> Vec<u32> { let mut a = vec![0u8; v.len() * 4]; for (c, x) in a.chunks_exact_mut(4).zip(v) { c.copy_from_slice(&x.to_le_bytes()); } a.iter().rev().map(|b| *b as u32).collect() }
pub fn z183(v: &[u32], n: usize) -> Vec<u32> { let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect(); b.chunks(3).map(|c| { let mut t = [0u8; 4]; t[..c.len()].copy_from_slice(c); u32::from_le_bytes(t) }).collect() }
pub fn z184(v: &[u32], n: usize) -> Vec<u32> { let mut acc = 0u64; let mut bits = 0u32; let mut out = vec![]; for x in v { acc |= ((*x & 0x3ff) as u64) << bits; bits += 10; while bits >= 8 { out.push((acc & 0xff) as u32); acc >>= 8; bits -= 8; } } if bits > 0 { out.push(acc as u32); } out }
pub fn z185(v: &[u32], n: usize) -> Vec<u32> { let mut bits = vec![]; for x in v { for i in 0..5 { bits.push((x >> i) & 1 == 1); } } bits.chunks(8).map(|c| c.iter().enumerate().fold(0u32, |a, (i, b)| a | (*b as u32) << i)).collect() }
pub fn z186(v: &[u32], n: usize) -> Vec<u32> { let cols = 3usize; let rows = v.len() / cols; let mut t = vec![vec![0u32; rows]; cols]; for i in 0..rows { for j in 0..cols { t[j][i] = v[i * cols + j]; } } t.concat() }
pub fn z187(v: &[u32], n: usize) -> Vec<u32> { let cols = 3usize; let rows = v.len() / cols; (0..cols).map(|j| (0..rows).map(|i| v[i * cols + j]).fold(0u32, u32::wrapping_add)).collect() }
pub fn z188(v: &[u32], n: usize) -> Vec<u32> { let m: Vec<Vec<u32>> = v.chunks(2).map(|c| c.to_vec()).collect(); m.iter().map(|r| r.iter().zip(v.iter()).map(|(a, b)| a.wrapping_mul(*b)).fold(0, |a: u32, b| a.wrapping_add(b))).collect() }
pub fn z189(v: &[u32], n: usize) -> Vec<u32> { let m: Vec<Vec<u32>> = v.chunks(2).map(<[u32]>::to_vec).collect(); let mut r = Vec::new(); for row in &m { r.push(row.len() as u32); r.extend_from_slice(row); } r }
pub fn z190(v: &[u32], n: usize) -> Vec<u32> { let mut r = v.to_vec(); for i in 0..r.len() { let x = &mut r[i]; *x = x.rotate_left(3); if *x & 1 == 1 { *x ^= 0xff; } } r }
pub fn z191(v: &[u32], n: usize) -> Vec<u32> { let mut r = v.to_vec(); let mut i = 0; while i < r.len() { if r[i] % 2 == 0 { r.remove(i); } else { i += 1; } } r }
pub fn z192(v: &[u32], n: usize) -> Vec<u32> { let mut r = v.to_vec(); let l = r.len(); for i in 0..l / 2 { r.swap(i, l - 1 - i); } r }
pub fn z193(v: &[u32], n: usize) -> Vec<u32> { let mut r = vec![0u32; 8]; for (i, x) in v.iter().enumerate() { r[i % 8] ^= x; } r }
pub fn z194(v: &[u32], n: usize) -> Vec<u32> { let mut r = [0u32; 4]; for x in v { r[(*x % 4) as usize] += 1; } r.to_vec() }
pub fn z195(v: &[u32], n: usize) -> Vec<u32> { let s: u32 = v.iter().map(|&x| x & 0xffff).sum(); let p: u32 = v.iter().map(|&x| (x & 1) + 1).product(); vec![s, p] }
pub fn z196(v: &[u32], n: usize) -> Vec<u32> { let mut lo = 0usize; let mut hi = v.len(); while lo < hi { let mid = (lo + hi) / 2; if v[mid] < 50 { lo = mid + 1; } else { hi = mid; } } vec![lo as u32] }
pub fn z197(v: &[u32], n: usize) -> Vec<u32> { let x = v.len() as i32 - n as i32; vec![x as u32, (x >> 1) as u32, (x / 2) as u32, (x % 3) as u32, x.rem_euclid(3) as u32, (-x) as u32, x.abs() as u32] }
pub fn z198(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|&x| { let y = x as i32; let z = (y as i64 * 3) >> 2; z as u32 ^ (y < -5) as u32 }).collect() }
pub fn z199(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|&x| { let y = (x as i8) as i32; (y * y - 3) as u32 }).collect() }
pub fn z200(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|&x| (x as u16 as i16 as i64 as u64 >> 8) as u32).collect() }
pub fn z201(v: &[u32], n: usize) -> Vec<u32> { let f = |a: u32| move |b: u32| a.wrapping_mul(b); v.iter().map(|x| f(*x)(n as u32)).collect() }
pub fn z202(v: &[u32], n: usize) -> Vec<u32> { let mut k = 0u32; let mut next = || { k = k.wrapping_mul(1664525).wrapping_add(1013904223); k }; v.iter().map(|x| x ^ next()).collect() }
pub fn z203(v: &[u32], n: usize) -> Vec<u32> { let mut seen = vec![]; v.iter().for_each(|x| if !seen.contains(x) { seen.push(*x) }); seen }
pub fn z204(v: &[u32], n: usize) -> Vec<u32> { let (mut a, mut b) = (0u32, 1u32); for _ in 0..n { (a, b) = (b, a.wrapping_add(b)); } vec![a, b] }
pub fn z205(v: &[u32], n: usize) -> Vec<u32> { let t = (v.len(), n); let (a, b) = t; vec![if a > b { a - b } else { b - a } as u32] }
pub fn z206(v: &[u32], n: usize) -> Vec<u32> { let r: Vec<(usize, u32)> = v.iter().copied().enumerate().filter(|(i, _)| i % 2 == 0).collect(); r.iter().map(|&(i, x)| i as u32 ^ x).collect() }
pub fn z207(v: &[u32], n: usize) -> Vec<u32> { let mut r = Vec::new(); for w in v.windows(2) { if let [a, b] = w { r.push(a.max(b) - a.min(b)); } } r }
pub fn z208(v: &[u32], n: usize) -> Vec<u32> { let mut o: Option<Vec<u32>> = None; for x in v { o.get_or_insert_with(Vec::new).push(*x); } o.unwrap_or_default() }
pub fn z209(v: &[u32], n: usize) -> Vec<u32> { let s = String::from_utf8(v.iter().map(|x| b'a' + (x % 26) as u8).collect()).unwrap(); s.chars().map(|c| c as u32).collect() }
pub fn z210(v: &[u32], n: usize) -> Vec<u32> { let s: String = v.iter().map(|x| (b'a' + (x % 26) as u8) as char).collect(); s.bytes().map(|c| c as u32).collect() }
pub fn z211(v: &[u32], n: usize) -> Vec<u32> { let mut s = String::new(); for x in v { s.push((b'a' + (x % 26) as u8) as char); } s.as_bytes().iter().map(|c| *c as u32).collect() }
pub fn z212(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| match x { 0..=9 => 1, 10 | 20 | 30 => 2, y if y % 2 == 0 => 3, _ => 4 }).collect() }
pub fn z213(v: &[u32], n: usize) -> Vec<u32> { let a: [u32; 3] = [1, n as u32, 3]; a.iter().map(|x| x * 2).chain([7, 8]).collect() }
pub fn z214(v: &[u32], n: usize) -> Vec<u32> { let v2 = { let mut t = Vec::new(); t.extend(v.iter().skip(1)); t.extend(v.first()); t }; v2 }
pub fn z215(v: &[u32], n: usize) -> Vec<u32> { let mut r = v.to_vec(); r.sort_by_key(|x| std::cmp::Reverse(*x)); r }
pub fn z216(v: &[u32], n: usize) -> Vec<u32> { let mut r: Vec<u32> = v.to_vec(); if let Some(p) = r.iter().position(|x| *x == 7) { r[p] = 0; } r }
pub fn z217(v: &[u32], n: usize) -> Vec<u32> { let mut r: Vec<u32> = v.into(); if let Some(x) = r.get_mut(n) { *x += 0; *x ^= 1; } r }
pub fn z218(v: &[u32], n: usize) -> Vec<u32> { let b: Box<[u32]> = v.into(); b.iter().rev().step_by(2).copied().collect() }
pub fn z219(v: &[u32], n: usize) -> Vec<u32> { let (l, r) = v.split_at(v.len() / 2); l.iter().zip(r).map(|(a, b)| a ^ b).collect() }
pub fn z220(v: &[u32], n: usize) -> Vec<u32> { (0..v.len()).rev().map(|i| v[i].wrapping_sub(i as u32)).collect() }
pub fn z221(v: &[u32], n: usize) -> Vec<u32> { (1..=n).map(|i| (i * i) as u32).filter(|x| x % 3 != 0).collect() }
pub fn z222(v: &[u32], n: usize) -> Vec<u32> { (0..n).flat_map(|i| (0..i).map(move |j| (i * 10 + j) as u32)).collect() }
pub fn z223(v: &[u32], n: usize) -> Vec<u32> { let mut r = vec![]; let mut i = n; loop { if i == 0 || r.len() > 20 { break r; } r.push(i as u32); i = if i % 2 == 0 { i / 2 } else { 3 * i + 1 }; if i == 1 { break r; } } }
pub fn z224(v: &[u32], n: usize) -> Vec<u32> { let k = loop { break n + 1; }; vec![k as u32] }
pub fn z225(v: &[u32], n: usize) -> Vec<u32> { let x: u32 = v.iter().fold(0, |a, b| a.wrapping_shl(1) ^ b.wrapping_shr(1)); vec![x.overflowing_add(5).0, x.checked_add(u32::MAX - 3).map_or(0, |y| y)] }
pub fn z226(v: &[u32], n: usize) -> Vec<u32> { let mut d = [0u8; 32]; for (i, x) in v.iter().enumerate().take(32) { d[i] = *x as u8; } d.iter().fold(vec![], |mut a, b| { a.push(*b as u32); a }) }
pub fn z227(v: &[u32], n: usize) -> Vec<u32> { let r: Result<Vec<u8>, _> = v.iter().map(|x| u8::try_from(*x)).collect(); r.map(|b| b.into_iter().map(u32::from).collect()).unwrap_or_else(|_| vec![1, 2]) }
pub fn z228(v: &[u32], n: usize) -> Vec<u32> { std::iter::once(&5u32).chain(v).copied().take(n + 1).collect() }
pub fn z229(v: &[u32], n: usize) -> Vec<u32> { std::iter::repeat_with(|| 4u32).take(n).collect() }
pub fn z230(v: &[u32], n: usize) -> Vec<u32> { let mut c = v.chunks_exact(4); let mut r: Vec<u32> = c.by_ref().map(|x| x.iter().fold(0, |a, b| a ^ b)).collect(); r.extend(c.remainder()); r }
pub fn z231(v: &[u32], n: usize) -> Vec<u32> { let mut w = v.iter().copied(); let a = w.next().unwrap_or(1); w.map(|x| x ^ a).collect() }
pub fn z232(v: &[u32], n: usize) -> Vec<u32> { let mut w = v.iter(); w.by_ref().take(2).for_each(drop); w.copied().collect() }
pub fn z233(v: &[u32], n: usize) -> Vec<u32> { v.iter().zip(v.iter().skip(1)).zip(v.iter().skip(2)).map(|((a, b), c)| a ^ b ^ c).collect() }
pub fn z234(v: &[u32], n: usize) -> Vec<u32> { let m = v.iter().copied().max().unwrap_or(0); let m = u32::BITS - m.leading_zeros(); vec![m] }
pub fn z235(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| x.checked_shl(n as u32 * 8).unwrap_or(3)).collect() }
pub fn z236(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| ((*x as u64 * 0xffff_fffb) % 0xffff_fff0) as u32).collect() }
pub fn z237(v: &[u32], n: usize) -> Vec<u32> { v.iter().map(|x| (((*x as u128) * 12345678901234567890u128) >> 64) as u32).collect() }
pub fn z238(v: &[u32], n: usize) -> Vec<u32> { let h = |x: u64| { let mut x = x; x ^= x >> 33; x = x.wrapping_mul(0xff51afd7ed558ccd); x ^= x >> 33; x }; v.iter().map(|x| h(*x as u64) as u32).collect() }
