//! Checks of the analyser itself: library functions that changed code may use
//! are analysed with their documented meaning.  Not part of any property.
use crate::rt::*;
use std::collections::*;

fn small(n: &'static str, max: usize) -> usize {
    let v: usize = any(n);
    assume(v <= max);
    v
}
fn bytes(max: usize) -> Vec<u8> {
    let n = small("length", max);
    let a: [u8; 6] = any("bytes");
    a[..n].to_vec()
}
pub fn entry_or_insert() {
    let mut m: HashMap<usize, u8> = HashMap::new();
    let a: u8 = any("a");
    let b: u8 = any("b");
    m.insert(1, a);
    *m.entry(1).or_insert(7) = b;
    m.entry(2).or_insert(a);
    m.entry(2).or_insert(b);
    require(m[&1] == b && m[&2] == a && m.len() == 2, "entry");
}
pub fn entry_modify() {
    let k = small("k", 3);
    let mut m: HashMap<usize, u8> = HashMap::new();
    m.insert(1, 10);
    m.entry(k).and_modify(|v| *v += 1).or_insert_with(|| 3);
    require(m.get(&k) == Some(&if k == 1 { 11 } else { 3 }), "entry");
    *m.entry(9).or_default() += 1;
    require(m[&9] == 1, "entry");
}
pub fn entry_match() {
    use std::collections::hash_map::Entry;
    let k = small("k", 3);
    let mut m: HashMap<usize, u8> = HashMap::new();
    m.insert(1, 10);
    match m.entry(k) {
        Entry::Occupied(mut e) => {
            require(k == 1 && *e.get() == 10 && *e.key() == 1, "occupied");
            e.insert(12);
        }
        Entry::Vacant(e) => {
            require(k != 1, "vacant");
            e.insert(5);
        }
    }
    require(m[&k] == if k == 1 { 12 } else { 5 }, "entry");
    if let Entry::Occupied(e) = m.entry(1) {
        e.remove();
    }
    require(!m.contains_key(&1), "entry");
}
pub fn map_ref_loops() {
    let a: u8 = any("a");
    assume(a < 100);
    let mut m: HashMap<usize, u8> = HashMap::new();
    m.insert(1, a);
    m.insert(4, 7);
    for (k, v) in &mut m {
        *v += *k as u8;
    }
    let mut sum = 0usize;
    for (k, v) in &m {
        sum += k + *v as usize;
    }
    require(sum == 5 + a as usize + 1 + 11, "map");
    let mut t: BTreeMap<usize, u8> = m.into_iter().collect();
    for (k, v) in &mut t {
        *v -= *k as u8;
    }
    let mut keys = vec![];
    for (k, v) in &t {
        keys.push((*k, *v));
    }
    require(keys == [(1, a), (4, 7)], "tree");
    let s: BTreeSet<u8> = [3, 1, 2].into_iter().collect();
    let mut l = vec![];
    for x in &s {
        l.push(*x);
    }
    require(l == [1, 2, 3], "set");
    let mut d: VecDeque<u8> = VecDeque::from(l);
    for x in &mut d {
        *x += 1;
    }
    let mut n = 0;
    for x in &d {
        n += x;
    }
    require(n == 9, "queue");
    let mut v = vec![a, 1, 2];
    for x in &mut v {
        *x += 1;
    }
    for x in v.iter_mut().rev().skip(1) {
        *x *= 2;
    }
    require(v == [2 * (a + 1), 4, 3], "vector");
}
pub fn map_drain_partition() {
    let k = small("k", 2);
    let mut m: HashMap<usize, (u8, u8)> = HashMap::new();
    m.insert(k, (1, 2));
    m.insert(9, (3, 4));
    let (low, high): (HashMap<_, _>, HashMap<_, _>) = m.drain().partition(|(k, _)| *k < 5);
    require(m.is_empty() && low.len() == 1 && high.len() == 1 && high[&9].1 == 4, "partition");
    m.extend(low);
    m.extend(high.into_iter().map(|(k, (a, b))| (k, (b, a))));
    require(m.len() == 2 && m[&k] == (1, 2) && m[&9] == (4, 3), "extend");
    let old = std::mem::take(&mut m);
    require(m.is_empty() && old.len() == 2, "take");
    let mut it = old.iter().filter(|(k, _)| **k == 9);
    require(it.next().map(|(_, v)| v.0) == Some(4) && it.next().is_none(), "filter");
}
pub fn bindings() {
    let k = small("k", 3);
    let mut o = if k == 1 { Some(5u8) } else { None };
    match &mut o {
        x @ None => *x = Some(1),
        Some(n @ 1..=9) => *n += 1,
        Some(_) => {}
    }
    require(o == Some(if k == 1 { 6 } else { 1 }), "bindings");
    let Some(x) = o.as_mut() else { return };
    *x = std::mem::replace(x, 9) + 1;
    require(o.take().is_some_and(|x| x == if k == 1 { 7 } else { 2 }) && o.is_none(), "replace");
    let r = o.get_or_insert_with(|| 3);
    *r += 1;
    require(o == Some(4) && o.replace(2) == Some(4) && o.insert(8) == &8, "options");
    let z = o.zip(Some(3)).and_then(|(a, b): (u8, u8)| a.checked_sub(b)).xor(None);
    require(z == Some(5) && o.filter(|x| *x > 8).or(Some(1)) == Some(1), "options");
    let [a, rest @ ..] = [1u8, 2, 3];
    require(a == 1 && rest == [2, 3], "arrays");
    if let [.., l] = &rest[..] {
        require(*l == 3, "slices");
    }
}
pub fn duration_split() {
    use std::time::Duration;
    let w: [u16; 2] = any("w");
    let d = w[0] as u64 * 65536 + w[1] as u64;
    if d < 0x07FF_FFFF {
        let x = Duration::new(d / 8_000_000, (d % 8_000_000) as u32 * 125);
        require(x.as_nanos() == (d * 125) as u128, "split");
    }
}
pub fn duration_times() {
    use std::time::Duration;
    let w: [u16; 2] = any("w");
    let d = w[0] as u32 * 65536 + w[1] as u32;
    let x = Duration::from_micros(1) * d;
    require(x.as_nanos() == d as u128 * 1000, "times");
}
pub fn duration_arith() {
    use std::time::Duration;
    let w: [u16; 2] = any("w");
    let d = w[0] as u64 * 65536 + w[1] as u64;
    let x = Duration::from_micros(d);
    require(x.as_micros() == d as u128, "micros");
    require(x.as_nanos() == d as u128 * 1000, "nanos");
    let y = Duration::from_nanos(d * 1000);
    require(x == y, "equal");
    require(x.as_secs() * 1_000_000 + x.subsec_micros() as u64 == d, "parts");
    let z = Duration::from_secs(d / 1_000_000) + Duration::from_micros(d % 1_000_000);
    require(z.as_micros() == d as u128, "sum");
}
pub fn deque() {
    let b = bytes(4);
    let mut d: VecDeque<u8> = VecDeque::new();
    d.extend(b.iter());
    d.push_front(1);
    d.push_back(2);
    require(d.len() == b.len() + 2, "length");
    require(d.pop_front() == Some(1), "front");
    require(d.back() == Some(&2), "back");
    require(d.pop_back() == Some(2), "back");
    let v: Vec<u8> = d.iter().copied().collect();
    require(v == b, "order");
    require(d.front() == b.first(), "front");
    let e: Vec<u8> = d.drain(..).collect();
    require(e == b && d.is_empty(), "drain");
}
pub fn deque_index() {
    let mut d: VecDeque<Vec<u8>> = VecDeque::with_capacity(4);
    d.push_back(vec![1]);
    d.push_back(vec![2, 3]);
    require(d[1].len() == 2, "index");
    d[0].push(4);
    require(d.get(0).map(|v| v.len()) == Some(2), "get");
    d.truncate(1);
    for x in &d {
        require(x.len() == 2, "iteration");
    }
    let v: Vec<_> = d.into_iter().collect();
    require(v.len() == 1, "into iterator");
    let mut f: VecDeque<u8> = vec![1, 2, 3].into();
    f.make_contiguous();
    require(f.contains(&2), "contains");
    require(f.iter().rev().next() == Some(&3), "reverse");
    let g: Vec<u8> = f.into();
    require(g.len() == 3, "vector");
}
pub fn btree() {
    let mut m: BTreeMap<usize, u8> = BTreeMap::new();
    let a: u8 = any("a");
    m.insert(5, 1);
    m.insert(2, a);
    m.insert(9, 3);
    require(m.insert(5, 4) == Some(1), "insert");
    require(m.get(&2) == Some(&a), "get");
    let v: Vec<usize> = m.keys().copied().collect();
    require(v == [2, 5, 9], "keys");
    let w: Vec<(usize, u8)> = m.iter().map(|(k, v)| (*k, *v)).collect();
    require(w == [(2, a), (5, 4), (9, 3)], "entries");
    if let Some(x) = m.get_mut(&9) {
        *x = 8;
    }
    require(m.remove(&9) == Some(8) && m.remove(&9) == None, "remove");
    require(m.len() == 2 && !m.is_empty() && m.contains_key(&5), "length");
    *m.entry(7).or_insert(0) += 1;
    require(m[&7] == 1, "entry");
    let v: Vec<u8> = m.into_values().collect();
    require(v == [a, 4, 1], "values");
}
pub fn sets() {
    let mut s: HashSet<usize> = HashSet::new();
    let k = small("k", 3);
    require(s.insert(k), "insert");
    require(!s.insert(k), "insert");
    require(s.contains(&k) && s.len() == 1, "contains");
    require(s.remove(&k) && s.is_empty(), "remove");
    let mut t: BTreeSet<usize> = BTreeSet::new();
    t.insert(3);
    t.insert(1);
    let v: Vec<_> = t.iter().copied().collect();
    require(v == [1, 3], "order");
    let u: HashSet<usize> = [1, 2].into_iter().collect();
    require(u.len() == 2 && u.contains(&2), "collect");
    for x in &u {
        require(*x == 1 || *x == 2, "iteration");
    }
}
pub fn strings() {
    let mut s = String::new();
    s.push('x');
    s.push_str("yz");
    require(s == "xyz" && s.len() == 3, "push");
    let mut t = String::from("ab");
    t.make_ascii_uppercase();
    require(t == "AB", "make_ascii_uppercase");
}
pub fn vectors() {
    let b = bytes(4);
    let mut v = b.clone();
    v.rotate_right(0);
    v.insert(0, 9);
    require(v.split_first().map(|(h, t)| *h == 9 && t == b) == Some(true), "split_first");
    require(v.first() == Some(&9), "first");
    require(v.iter().skip(1).eq(b.iter()), "eq");
    let (x, y) = v.split_at(1);
    require(x.len() == 1 && y.len() == b.len(), "split_at");
    require(v.windows(2).count() == b.len(), "windows");
    require(v.chunks(2).map(|c| c.len()).sum::<usize>() == v.len(), "chunks");
    require(v.get(1..).map(|s| s.len()) == Some(b.len()), "get");
    require([&[1u8][..], &b[..]].concat().len() == v.len(), "concat");
    let w: Vec<u8> = std::iter::once(9).chain(b.iter().copied()).collect();
    require(w == v, "chain");
    require(v.drain(..1).next() == Some(9), "drain");
    require(v == b, "rest");
    let n = v.len();
    v.splice(..0, [7, 8]);
    require(v.len() == n + 2 && v[0] == 7, "splice");
    require(v.ends_with(&b), "ends_with");
    v.retain(|x| *x == 7);
    require(v.iter().all(|x| *x == 7), "retain");
}
trait UnzipTest {
    fn unzip_test(self) -> i32;
}
impl<I: Iterator<Item = i32>> UnzipTest for I {
    fn unzip_test(self) -> i32 {
        let (a, b): (Vec<i32>, Vec<i32>) = self.map(|x| (x, x)).unzip();
        a.iter().sum::<i32>() * b.len() as i32 / 3
    }
}
pub fn slices() {
    let mut a = [1, 2, 3, 4];
    a.rotate_right(1);
    require(a == [4, 1, 2, 3], "rotate_right");
    a[..2].copy_from_slice(&[7, 8]);
    a.copy_within(0..2, 2);
    require(a == [7, 8, 7, 8], "copy_within");
    let (x, y) = a.split_at_mut(2);
    x[0] = 1;
    y[0] = 2;
    std::mem::swap(&mut x[1], &mut y[1]);
    require(a == [1, 8, 2, 8], "split_at_mut");
    for c in a.chunks_mut(2) {
        c[0] = 0;
    }
    require(a == [0, 8, 0, 8], "chunks_mut");
    a.swap(0, 1);
    require(a.iter().position(|x| *x == 0) == Some(1), "position");
    require(a.to_vec().last() == Some(&8), "last");
    require(a.iter().rposition(|x| *x == 0) == Some(2), "rposition");
    require(matches!(a, [8, .., 8]), "pattern");
    if let [p, rest @ ..] = &a[..] {
        require(*p == 8 && rest.len() == 3, "pattern");
    }
    require(a.split(|x| *x == 0).count() == 3, "split");
    require(a.rchunks(2).next() == Some(&[0, 8][..]), "rchunks");
    let t: [u8; 2] = [1u8, 2, 3][..2].try_into().unwrap();
    require(t == [1, 2], "try_into");
    let (c, r) = [1, 2, 3].as_slice().split_at(1);
    require(c.len() + r.len() == 3, "split_at");
}
pub fn integers() {
    let x: u16 = any("x");
    require(u16::from_le_bytes(x.to_le_bytes()) == x, "bytes");
    require(u16::from_be_bytes(x.to_be_bytes()) == x.swap_bytes().swap_bytes(), "bytes");
    require(x.checked_add(1).is_some() == (x < 0xFFFF), "checked_add");
    require(x.checked_sub(5).is_some() == (x >= 5), "checked_sub");
    require(x.saturating_sub(5) == if x < 5 { 0 } else { x - 5 }, "saturating_sub");
    require(x.wrapping_add(1).wrapping_sub(1) == x, "wrapping");
    require(x.leading_zeros() <= 16 && x.count_ones() <= 16, "bits");
    require(x.rotate_left(8).rotate_right(8) == x, "rotate");
    require(x.clamp(3, 9) >= 3 && x.max(4) >= 4 && x.min(4) <= 4, "clamp");
    require((x as i16).is_negative() == (x >= 0x8000), "sign");
    require(u8::try_from(x).is_ok() == (x < 256), "try_from");
    require(u32::from(x) as u16 == x, "from");
    require(x / 3 * 3 + x % 3 == x, "division");
    require((x as i16).unsigned_abs() <= 0x8000, "unsigned_abs");
    require((x as i16).checked_neg().is_none() == (x == 0x8000), "checked_neg");
    require((x & 3).pow(2) < 16, "pow");
    require(x.abs_diff(x) == 0, "abs_diff");
    require(x.div_ceil(2) == x / 2 + x % 2, "div_ceil");
    require((x as i16).rem_euclid(4) >= 0, "rem_euclid");
    require(x.overflowing_add(1).1 == (x == 0xFFFF), "overflowing_add");
    require(x.is_power_of_two() == (x.count_ones() == 1), "is_power_of_two");
    require(x.trailing_zeros() == x.reverse_bits().leading_zeros(), "reverse_bits");
    require(x.checked_shl(16).is_none() && x.checked_mul(2).is_none() == (x >= 0x8000), "checked_shl");
    require((x as i16).signum() <= 1, "signum");
}
pub fn chars() {
    let b: u8 = any("b");
    require((b as char) as u32 == b as u32, "char");
    require(char::from(b).is_ascii() == (b < 128), "is_ascii");
    require(char::from_u32(b as u32).is_some(), "from_u32");
    require((b as char).is_ascii_digit() == (b >= 48 && b <= 57), "is_ascii_digit");
    require(b.is_ascii_alphabetic() == b.to_ascii_lowercase().is_ascii_lowercase(), "ascii");
}
pub fn options() {
    let o: Option<u8> = any("o");
    require(o.map(|x| x as u16).unwrap_or(300) <= 300, "map");
    require(o.ok_or(1u8).is_ok() == o.is_some(), "ok_or");
    require(o.filter(|x| *x > 3).is_none() || o.is_some(), "filter");
    require(o.and_then(|x| x.checked_add(1)) != Some(0), "and_then");
    require(o.xor(None) == o, "xor");
    require(o.is_some_and(|x| x > 3) == matches!(o, Some(4..)), "is_some_and");
    require(o.map_or(false, |x| x > 3) == o.is_some_and(|x| x > 3), "map_or");
    require(o.zip(o).map(|(a, b)| a == b).unwrap_or(true), "zip");
    let mut p = o;
    require(p.take() == o && p.is_none(), "take");
    require(*p.get_or_insert(3) == 3, "get_or_insert");
    require(p.replace(4) == Some(3) && p.insert(5) == &5, "replace");
    require(o.iter().count() == o.is_some() as usize, "iter");
    require(o.into_iter().chain(None).count() <= 1, "into_iter");
    require(o.or(Some(1)).is_some() && o.or_else(|| Some(2)).is_some(), "or");
    let r: Result<u8, u16> = any("r");
    require(r.ok().is_some() == r.is_ok(), "ok");
    require(r.map_err(|e| e as u32).is_err() == r.is_err(), "map_err");
    require(r.unwrap_or_default() == r.unwrap_or(0), "unwrap_or_default");
    require(r.and_then(|x| if x > 3 { Ok(x) } else { Err(0) }).is_ok() == r.is_ok_and(|x| x > 3), "and_then");
    require(r.as_ref().err().copied() == r.err(), "err");
    require(Some(r).transpose().is_ok() == r.is_ok(), "transpose");
    require(r.iter().count() <= 1 && r.or_else(|_| Ok::<u8, u8>(1)).is_ok(), "or_else");
    require(o.unwrap_or_else(|| 7) == o.map_or_else(|| 7, |x| x), "map_or_else");
    require(Some(Some(o)).flatten() == Some(o), "flatten");
    require(o.as_ref().copied() == o.as_ref().cloned(), "copied");
    require(o < Some(255) || o == Some(255), "order");
    require(o.ok_or_else(|| 3u8).unwrap_or(3) == o.unwrap_or(3), "ok_or_else");
}
pub fn memory() {
    let mut v = vec![1, 2];
    let w = std::mem::take(&mut v);
    require(v.is_empty() && w.len() == 2, "take");
    let x = std::mem::replace(&mut v, vec![5]);
    require(x.is_empty() && v[0] == 5, "replace");
    let b: Box<[u8]> = vec![1, 2, 3].into_boxed_slice();
    require(b.len() == 3 && b.into_vec().len() == 3, "boxed slice");
    let c = std::cell::Cell::new(1);
    c.set(c.get() + 1);
    require(c.get() == 2, "cell");
    let f: Box<dyn Fn(u8) -> u8> = Box::new(|x| x ^ 1);
    require(f(3) == 2, "closure");
    let fs: [fn(u8) -> u8; 2] = [|x| x, |x| x ^ 1];
    require(fs[1](3) == 2, "function pointer");
    let cow: std::borrow::Cow<[u8]> = (&[1u8, 2][..]).into();
    require(cow.len() == 2 && cow.into_owned().len() == 2, "cow");
    let a = std::sync::Arc::new(3);
}
pub fn io() {
    use std::io::{Read, Write};
    let b = [1u8, 2, 3];
    let mut s = &b[..];
    let mut d = [0u8; 2];
    require(matches!(s.read(&mut d), Ok(2)) && d == [1, 2] && s.len() == 1, "read");
    let mut v: Vec<u8> = vec![];
    require(v.write_all(&b).is_ok() && v == b, "write");
    let mut c = std::io::Cursor::new(&b[..]);
    require(matches!(c.read(&mut d), Ok(2)) && c.position() == 2, "cursor");
    let mut w: VecDeque<u8> = VecDeque::new();
    require(w.write_all(&b).is_ok() && w.len() == 3, "deque write");
    require(matches!(w.read(&mut d), Ok(2)) && d == [1, 2] && w.len() == 1, "deque read");
    let mut m = [0u8; 3];
    require((&mut m[..]).write(&b).is_ok() && m == b, "slice write");
}
pub fn durations() {
    use std::time::Duration;
    let n: u32 = any("n");
    let d = Duration::from_micros(n as u64);
    require(d.as_micros() == n as u128, "as_micros");
    require(Duration::from_nanos(5) * 3 == Duration::from_nanos(15), "product");
    require(Duration::from_millis(5) + Duration::from_millis(3) == Duration::from_millis(8), "sum");
    require(Duration::from_secs(3).checked_sub(Duration::from_secs(5)).is_none(), "difference");
    require(Duration::from_secs(3).as_millis() == 3000, "as_millis");
    require(Duration::from_secs_f32(0.5) == Duration::from_millis(500), "from_secs_f32");
    require(Duration::from_millis(1500).as_secs_f32() == 1.5, "as_secs_f32");
    require(Duration::new(1, 5).subsec_nanos() == 5 && Duration::ZERO.is_zero(), "parts");
    require(Duration::from_secs(1).max(Duration::from_secs(2)).as_secs() == 2, "max");
    require(Duration::MAX > d && d.saturating_sub(d).is_zero(), "order");
}
pub fn floats() {
    let x: i16 = any("x");
    let f = f32::from(x);
    require(f.abs() >= 0.0 && f as i16 == x, "abs");
    require((f + 0.25).round() as i16 == x, "round");
    require(f.clamp(-1.0, 1.0) <= 1.0 && f.max(0.0) >= 0.0, "clamp");
    require((f as f64) as f32 == f, "cast");
    require(f.is_finite() && !f.is_nan(), "finite");
    require((f / 2.0).floor() <= f / 2.0, "floor");
}

macro_rules! one {
    ($($n:ident: $e:expr;)*) => { $(pub fn $n() { require($e, "holds"); })* };
}
one! {
    strings_replacen: "a-b-c-d".replacen('-', "_", 2) == "a_b_c-d";
    strings_chars: "ab".chars().map(|c| if c == 'a' { '-' } else { c.to_ascii_uppercase() }).collect::<String>() == "-B";
    strings_starts_with: "UR20-4".starts_with("UR20") && !"UR20".starts_with("X");
    strings_ends_with: "UR20-4".ends_with('4') && "UR20".ends_with("20");
    strings_strip_prefix: "UR20-4".strip_prefix("UR20-") == Some("4");
    strings_contains: "UR20-4".contains('-') && !"UR20".contains("-");
    strings_find: "UR20-4".find('-') == Some(4);
    strings_bytes: "UR20".bytes().all(|b| b.is_ascii());
    strings_split: "a,b".split(',').count() == 2;
    strings_join: "a-b".split('-').collect::<Vec<_>>().join("_") == "a_b";
    strings_slice: &"abc"[1..] == "bc";
    strings_concatenation: "abc".to_owned() + "d" == "abcd";
    strings_trim: " ab ".trim() == "ab";
    strings_eq_ignore_ascii_case: "ab".eq_ignore_ascii_case("AB");
    strings_char_indices: "abc".char_indices().filter(|(_, c)| *c == 'b').count() == 1;
    strings_order: "a" < "b";
    strings_parse: "-".parse::<u8>().is_err();
    strings_parse2: "12".parse::<u32>() == Ok(12);
    vectors_max: vec![3, 1, 2].iter().max() == Some(&3);
    vectors_min_by_key: [3, 1, 2].iter().min_by_key(|x| **x) == Some(&1);
    vectors_rev: [1, 2, 3].iter().rev().copied().collect::<Vec<_>>() == [3, 2, 1];
    vectors_step_by: [1, 2, 3, 4].iter().step_by(2).sum::<i32>() == 4;
    vectors_chunks_exact: [1, 2, 3, 4].chunks_exact(2).map(|c| c[0]).product::<i32>() == 3;
    vectors_zip: [1, 2, 3].iter().zip([1, 2, 3].iter()).all(|(a, b)| a == b);
    vectors_concat: [[1, 2], [3, 4]].concat() == [1, 2, 3, 4];
    vectors_flatten: [vec![1], vec![2, 3]].into_iter().flatten().count() == 3;
    vectors_flat_map: (0..3).flat_map(|i| vec![i; i]).count() == 3;
    vectors_scan: [1, 2, 3].iter().scan(0, |s, x| { *s += x; Some(*s) }).last() == Some(6);
    vectors_take_while: (0..10).take_while(|x| *x < 3).count() == 3;
    vectors_skip_while: (0..10).skip_while(|x| *x < 3).count() == 7;
    vectors_peekable: [1, 2, 3].iter().peekable().peek() == Some(&&1);
    vectors_cycle: [1, 2, 3].iter().cycle().take(5).count() == 5;
    vectors_repeat: std::iter::repeat(1).take(3).collect::<Vec<_>>() == [1, 1, 1];
    vectors_successors: std::iter::successors(Some(1), |x| if *x < 8 { Some(x * 2) } else { None }).count() == 4;
    vectors_collect: (0..3).map(Some).collect::<Option<Vec<_>>>() == Some(vec![0, 1, 2]);
    vectors_filter_map: (0..3).filter_map(|x| if x > 0 { Some(x) } else { None }).count() == 2;
    vectors_try_fold: (0..3).try_fold(0u8, |a, x| a.checked_add(x)) == Some(3);
    vectors_reduce: (0..3).reduce(|a, b| a + b) == Some(3);
    vectors_unzip: [1, 2, 3].iter().copied().unzip_test() == 6;
    vectors_cmp: [1, 2].iter().cmp([1, 3].iter()) == std::cmp::Ordering::Less;
    vectors_is_sorted: [3, 1, 2].iter().is_sorted() == false;
    slices_try_from: <[u8; 2]>::try_from(&[1u8, 2, 3][..]).is_err();
    slices_first_chunk: [1u8, 2].first_chunk::<1>() == Some(&[1]);
    slices_binary_search: [1, 2, 3].binary_search(&2) == Ok(1);
    slices_enumerate: [0u8; 3].iter().enumerate().map(|(i, _)| i).sum::<usize>() == 3;
    floats_trunc: 1.5f32.trunc() == 1.0 && 1.5f32.fract() == 0.5;
    floats_mul_add: (-1.5f32).signum() == -1.0;
    floats_total_cmp: 1.0f32.total_cmp(&2.0) == std::cmp::Ordering::Less;
    floats_partial_cmp: 1.0f32.partial_cmp(&2.0) == Some(std::cmp::Ordering::Less);
    floats_powi: 4.0f32.sqrt() == 2.0;
    floats_sign: (-1.0f32).is_sign_negative() && 1.0f32.copysign(-1.0) == -1.0;
    slices_repeat: [1u8, 2].repeat(2) == [1, 2, 1, 2];
    slices_split_first: [1u8, 2, 3].split_first() == Some((&1, &[2, 3][..]));
    slices_split_last: [1u8, 2, 3].split_last() == Some((&3, &[1, 2][..]));
    slices_split_at: [1u8, 2, 3].split_at(1) == (&[1][..], &[2, 3][..]);
    slices_split_at_checked: [1u8, 2, 3].split_at_checked(4).is_none();
    slices_windows: [1u8, 2, 3].windows(2).map(|w| w[0] * w[1]).sum::<u8>() == 8;
    slices_chunks: [1u8, 2, 3].chunks(2).map(|w| w.len()).collect::<Vec<_>>() == [2, 1];
    slices_rchunks: [1u8, 2, 3].rchunks(2).map(|w| w.len()).collect::<Vec<_>>() == [2, 1];
    slices_chunks_remainder: [1u8, 2, 3].chunks_exact(2).remainder() == [3];
    slices_split: [1u8, 0, 3].split(|x| *x == 0).count() == 2;
    slices_ends_with: [1u8, 2, 3].ends_with(&[2, 3]);
    slices_strip_prefix: [1u8, 2, 3].strip_prefix(&[1]) == Some(&[2, 3][..]);
    slices_partition_point: [1u8, 2, 3].partition_point(|x| *x < 3) == 2;
    slices_first_last: [1u8, 2, 3].first() == Some(&1) && [1u8, 2, 3].last() == Some(&3);
    slices_get_range: [1u8, 2, 3].get(1..) == Some(&[2, 3][..]) && [1u8, 2, 3].get(2..5).is_none();
    slices_pattern: match [1u8, 2, 3].as_slice() { [a, .., b] => a + b == 4, _ => false };
    slices_copy_within: { let mut a = [1u8, 2, 3, 4]; a.copy_within(0..2, 2); a == [1, 2, 1, 2] };
    slices_iter_mut_rev: { let mut a = [1u8, 2]; for (i, x) in a.iter_mut().rev().enumerate() { *x = i as u8; } a == [1, 0] };
    slices_chunks_mut: { let mut a = [1u8, 2, 3]; for c in a.chunks_mut(2) { c[0] = 9; } a == [9, 2, 9] };
    slices_split_at_mut: { let mut a = [1u8, 2, 3]; let (x, y) = a.split_at_mut(1); x[0] = y[1]; a == [3, 2, 3] };
    slices_fill_with: { let mut a = [1u8, 2]; a.fill_with(Default::default); a == [0, 0] };
    slices_swap_with_slice: { let mut a = [1u8, 2]; let mut b = [3u8, 4]; a.swap_with_slice(&mut b); a == [3, 4] && b == [1, 2] };
    slices_chunk_by: [1u8, 1, 2].chunk_by(|a, b| a == b).count() == 2;
    slices_concat_str: ["a", "b"].concat() == "ab";
    slices_array_windows: [1u8, 2, 3].iter().zip([1u8, 2, 3].iter().skip(1)).map(|(a, b)| b - a).all(|d| d == 1);
    slices_into_iter_sum: [1u16, 2, 3].into_iter().map(u32::from).sum::<u32>() == 6;
    slices_each_ref: [1u8, 2].each_ref().iter().map(|x| **x).sum::<u8>() == 3;
    slices_eq_vec: vec![1u8, 2] == [1u8, 2][..] && [1u8, 2][..] == vec![1u8, 2];
    slices_boxed: vec![1u8, 2].into_boxed_slice().len() == 2;
    slices_array_try_into: { let a: Result<[u8; 2], _> = vec![1u8, 2].try_into(); a == Ok([1, 2]) };
    slices_array_ref_try_into: { let v = vec![1u8, 2, 3]; let a: Result<&[u8; 2], _> = v[1..].try_into(); a.is_ok_and(|x| *x == [2, 3]) };
    vectors_insert: { let mut v = vec![1u8, 3]; v.insert(1, 2); v == [1, 2, 3] };
    vectors_drain_all: { let mut v = vec![1u8, 3]; let w: Vec<u8> = v.drain(..).collect(); w == [1, 3] && v.is_empty() };
    vectors_mem_take: { let mut v = vec![1u8, 3]; let w = std::mem::take(&mut v); w == [1, 3] && v.is_empty() };
    vectors_truncate: { let mut v = vec![1u8, 3]; v.truncate(1); v == [1] };
    vectors_pop_if: { let mut v = vec![1u8, 3]; v.pop() == Some(3) && v.pop_if(|x| *x > 1).is_none() };
    vectors_first_mut: { let mut v = vec![1u8, 3]; if let Some(x) = v.first_mut() { *x = 7; } v == [7, 3] };
    vectors_last_mut: { let mut v = vec![1u8, 3]; if let Some(x) = v.last_mut() { *x |= 4; } v == [1, 7] };
    vectors_extend_iter: { let mut v = vec![1u8]; v.extend((0..2).map(|x| x + 1)); v.extend(&[5u8]); v == [1, 1, 2, 5] };
    vectors_collect_result: (0..3).map(|x| if x < 5 { Ok(x) } else { Err(x) }).collect::<Result<Vec<_>, _>>() == Ok(vec![0, 1, 2]);
    vectors_sum_result: (0..3).map(|x| if x < 2 { Ok(x) } else { Err(x) }).sum::<Result<i32, i32>>() == Err(2);
    vectors_chain: [1u8].iter().chain(&[2u8]).chain(std::iter::once(&3)).copied().collect::<Vec<_>>() == [1, 2, 3];
    vectors_skip_take: (0..10).skip(2).take(3).collect::<Vec<_>>() == [2, 3, 4];
    vectors_enumerate_rev: [5u8, 6].iter().enumerate().rev().map(|(i, _)| i).collect::<Vec<_>>() == [1, 0];
    vectors_max_by: [1.0f32, 2.0].iter().copied().fold(0.0f32, f32::max) == 2.0;
    vectors_inspect: [1u8, 2].iter().inspect(|_| ()).count() == 2;
    vectors_map_while: (0..9).map_while(|x| if x < 3 { Some(x * 2) } else { None }).collect::<Vec<_>>() == [0, 2, 4];
    vectors_last_nth: (0..9).last() == Some(8) && (0..9).nth(3) == Some(3);
    vectors_slice_nth: { let a: [u8; 6] = any("a"); let n = small("n", 6); let mut i = a[..n].iter(); let x = i.nth(2).copied();
        let y = i.next().copied(); let z = i.len();
        x == if n > 2 { Some(a[2]) } else { None } && y == if n > 3 { Some(a[3]) } else { None } && z == if n > 4 { n - 4 } else { 0 } };
    vectors_slice_nth_mut: { let mut a = [1u8, 2, 3]; if let Some(x) = a.iter_mut().nth(1) { *x = 9; } let mut i = a.iter(); i.nth(5);
        a == [1, 9, 3] && i.next().is_none() && i.next_back().is_none() && i.as_slice().is_empty() };
    vectors_slice_skip: { let a: [u8; 6] = any("a"); let n = small("n", 6); let v: Vec<u8> = a[..n].iter().skip(3).take(2).copied().collect();
        v.len() == n.saturating_sub(3).min(2) && (n < 4 || v[0] == a[3]) && (n < 5 || v[1] == a[4]) };
    vectors_slice_step: { let a: [u8; 6] = any("a"); let n = small("n", 6); let v: Vec<u8> = a[..n].iter().step_by(4).copied().collect();
        v.len() == (n + 3) / 4 && (n < 1 || v[0] == a[0]) && (n < 5 || v[1] == a[4]) };
    vectors_range_inclusive: (0..=3).rev().collect::<Vec<_>>() == [3, 2, 1, 0];
    vectors_range_step: (0..7).step_by(3).collect::<Vec<_>>() == [0, 3, 6];
    vectors_range_contains: (3..7).contains(&3) && !(3..=7).contains(&8);
    vectors_repeat_n: std::iter::repeat_n(1u8, 3).collect::<Vec<_>>() == [1, 1, 1];
    vectors_repeat_with: std::iter::repeat_with(|| 2u8).take(2).collect::<Vec<_>>() == [2, 2];
    vectors_from_fn: { let mut n = 0; std::iter::from_fn(move || { n += 1; if n < 4 { Some(n) } else { None } }).sum::<i32>() == 6 };
    vectors_zip_fn: std::iter::zip([1, 2], [3, 4]).map(|(a, b)| a * b).sum::<i32>() == 11;
    vectors_eq_iter: (0..3).eq([0, 1, 2]) && (0..3).ne([0, 1]);
    vectors_min_max: [3u8, 1, 2].iter().max_by_key(|x| **x) == Some(&3) && [3u8, 1].iter().min() == Some(&1);
    vectors_unzip_pairs: { let (a, b): (Vec<u8>, Vec<u8>) = vec![(1, 2), (3, 4)].into_iter().unzip(); a == [1, 3] && b == [2, 4] };
    vectors_partition: { let (a, b): (Vec<i32>, Vec<i32>) = (0..5).partition(|x| x % 2 == 0); a.len() == 3 && b.len() == 2 };
    vectors_copied_cloned: [1u8].iter().cloned().chain([2u8].iter().copied()).count() == 2;
    vectors_by_ref: { let mut i = 0..5; let a: Vec<i32> = i.by_ref().take(2).collect(); a == [0, 1] && i.next() == Some(2) };
    vectors_rev_chars: "abc".chars().rev().collect::<String>() == "cba";
    vectors_array_chunks: [1u8, 2, 3, 4].chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect::<Vec<_>>() == [0x0201, 0x0403];
    vectors_try_for_each: (0..3).try_for_each(|x| if x < 5 { Ok(()) } else { Err(x) }) == Ok(());
    vectors_box_dyn: { let v: Vec<Box<dyn Fn(u8) -> u8>> = vec![Box::new(|x| x + 1), Box::new(|x| x * 2)]; v.iter().map(|f| f(3)).sum::<u8>() == 10 };
    vectors_box_iter: { let i: Box<dyn Iterator<Item = u8>> = Box::new([1u8, 2].into_iter()); i.sum::<u8>() == 3 };
    vectors_dedup_by_key: { let mut v = vec![1u8, 1, 2]; v.dedup_by_key(|x| *x); v == [1, 2] };
    vectors_cow: { let c: std::borrow::Cow<[u8]> = std::borrow::Cow::Borrowed(&[1, 2]); c.into_owned() == [1, 2] };
    vectors_refcell: { let c = std::cell::RefCell::new(vec![1u8]); c.borrow_mut().push(2); let n = c.borrow().len(); n == 2 };
    vectors_cell: { let c = std::cell::Cell::new(1u8); c.set(c.get() + 1); c.replace(5) == 2 && c.take() == 5 };
    integers_le_bytes: 0x0102u16.to_le_bytes() == [2, 1] && u16::from_be_bytes([1, 2]) == 0x0102 && u32::from_ne_bytes([1, 0, 0, 0]) == 1;
    integers_bits: 0b1011u8.count_ones() == 3 && 8u16.trailing_zeros() == 3 && 1u8.leading_zeros() == 7;
    integers_rotate: 0x81u8.rotate_left(1) == 3 && 0x1234u16.swap_bytes() == 0x3412 && 1u8.reverse_bits() == 128;
    integers_checked: 250u8.checked_add(9).is_none() && 250u8.saturating_add(9) == 255 && 250u8.wrapping_add(9) == 3 && 250u8.overflowing_add(9) == (3, true);
    integers_checked2: 1u8.checked_shl(9).is_none() && 3u8.checked_sub(4).is_none() && 3u8.checked_div(0).is_none() && 3u8.checked_rem(2) == Some(1);
    integers_div_ceil: 7usize.div_ceil(2) == 4 && 7usize.next_multiple_of(4) == 8 && 3u8.abs_diff(5) == 2;
    integers_rem_euclid: (-1i8).rem_euclid(4) == 3 && (-7i32).div_euclid(4) == -2;
    integers_pow: 2u32.pow(10) == 1024 && 1000u32.ilog10() == 3 && 8u32.ilog2() == 3 && 5u32.is_power_of_two() == false;
    integers_pow2: 5u32.next_power_of_two() == 8 && 2u8.checked_pow(9).is_none() && 16u32.isqrt() == 4;
    integers_clamp: 9u8.clamp(1, 5) == 5 && 9u8.min(3) == 3 && std::cmp::max(1, 2) == 2 && (-3i16).signum() == -1;
    integers_signed: (-3i16).unsigned_abs() == 3 && (-3i16).abs() == 3 && i16::MIN.checked_abs().is_none() && (-3i16).is_negative();
    integers_cast_signed: 0xFFFFu16.cast_signed() == -1 && (-1i16).cast_unsigned() == 0xFFFF;
    integers_try_from: u8::try_from(300u16).is_err() && u16::try_from(3usize) == Ok(3) && i16::try_from(40000u16).is_err();
    integers_from: u32::from(true) == 1 && usize::from(3u8) == 3 && u8::from(b'a') == 97 && char::from(97u8) == 'a' && f32::from(3u8) == 3.0;
    integers_nonzero: std::num::NonZeroU8::new(0).is_none() && std::num::NonZeroUsize::new(3).map(|x| x.get()) == Some(3);
    integers_wrapping_type: (std::num::Wrapping(250u8) + std::num::Wrapping(9)).0 == 3;
    integers_saturating_type: (std::num::Saturating(250u8) + std::num::Saturating(9)).0 == 255;
    integers_cmp: 3u8.cmp(&4) == std::cmp::Ordering::Less && 3u8.cmp(&4).reverse().is_gt() && (1, 2) < (1, 3);
    integers_cmp_then: 1u8.cmp(&1).then_with(|| 2u8.cmp(&3)).is_lt() && std::cmp::Reverse(1) > std::cmp::Reverse(2);
    integers_parse_radix: u8::from_str_radix("ff", 16) == Ok(255);
    integers_bool: true.then(|| 3) == Some(3) && true.then_some(4) == Some(4) && (true ^ true) == false && true as u8 == 1;
    integers_midpoint: 3u8.midpoint(5) == 4 && 3u8.is_multiple_of(3);
    integers_unsigned_sub: 3u8.wrapping_neg() == 253 && 3u8.overflowing_sub(4) == (255, true) && !3u8 == 252;
    integers_checked_signed: 3usize.checked_add_signed(-4).is_none() && 3usize.saturating_add_signed(-4) == 0 && 3u8.checked_next_multiple_of(0).is_none();
    options_more: Some(3).is_some_and(|x| x > 2) && None::<u8>.is_none_or(|x| x > 2) && Some(3).xor(None) == Some(3) && Some(3).zip(Some('a')) == Some((3, 'a'));
    options_take: { let mut o = Some(3); o.take_if(|x| *x == 3) == Some(3) && o.is_none() && *o.get_or_insert(4) == 4 && o.replace(5) == Some(4) && *o.insert(6) == 6 };
    options_flatten: Some(Some(3)).flatten() == Some(3) && Some(3).filter(|x| *x > 5).is_none() && Some(&3).copied() == Some(3) && Some(3).into_iter().count() == 1;
    options_transpose: Some(Ok::<u8, u8>(3)).transpose() == Ok(Some(3)) && Ok::<Option<u8>, u8>(None).transpose().is_none();
    options_as_deref: Some(vec![1u8]).as_deref() == Some(&[1][..]) && Some(vec![1u8]).as_mut().map(|v| v.pop()) == Some(Some(1));
    options_map_or: Some(3).map_or(0, |x| x + 1) == 4 && None::<u8>.map_or_else(|| 7, |x| x) == 7 && Some(3).ok_or("e") == Ok(3) && Some(3).and_then(|x| if x > 3 { Some(x) } else { None }).is_none();
    options_unwrap_or: None::<u8>.unwrap_or_default() == 0 && None::<u8>.unwrap_or(3) == 3 && None::<u8>.or(Some(3)).unwrap_or_else(|| 5) == 3;
    results_more: Ok::<u8, u8>(3).is_ok_and(|x| x == 3) && Err::<u8, u8>(3).is_err_and(|x| x == 3) && Err::<u8, u8>(3).or_else(|x| Ok::<u8, u8>(x + 1)) == Ok(4);
    results_map: Ok::<u8, u8>(3).map(|x| x + 1).map_err(|e| e as u16) == Ok(4) && Err::<u8, u8>(3).unwrap_or(9) == 9 && Err::<u8, u8>(3).err() == Some(3) && Ok::<u8, u8>(3).ok() == Some(3);
    results_and: Ok::<u8, u8>(3).and(Err::<u8, u8>(4)) == Err(4) && Ok::<u8, u8>(3).and_then(|x| Err::<u8, u8>(x)) == Err(3) && Ok::<u8, u8>(3).iter().count() == 1;
    memory_swap: { let (mut a, mut b) = (1u8, 2u8); std::mem::swap(&mut a, &mut b); a == 2 && b == 1 && std::mem::replace(&mut a, 7) == 2 && std::mem::size_of::<u16>() == 2 };
    memory_discriminant: std::mem::discriminant(&Some(1)) == std::mem::discriminant(&Some(2)) && std::mem::discriminant(&Some(1)) != std::mem::discriminant(&None);
    memory_matches: matches!(Some(3), Some(x) if x > 2) && !matches!(Err::<u8, u8>(1), Ok(_));
    memory_closure: { let f = |x: u8| move |y: u8| x + y; f(1)(2) == 3 };
    memory_fn_ptr: { let f: fn(u8) -> u8 = |x| x + 1; let t = [f, f]; t.iter().fold(0, |a, g| g(a)) == 2 };
    memory_cow_str: { let c: std::borrow::Cow<str> = "a".into(); c.into_owned() == "a" };
    memory_array_default: <[u8; 4]>::default() == [0; 4] && Vec::<u8>::default().is_empty() && String::default().is_empty() && <(u8, bool)>::default() == (0, false);
    memory_control_flow: { let r: std::ops::ControlFlow<u8> = (0u8..5).try_for_each(|x| if x == 3 { std::ops::ControlFlow::Break(x) } else { std::ops::ControlFlow::Continue(()) }); r.is_break() };
    memory_let_else: { let f = |o: Option<u8>| { let Some(x) = o else { return 0 }; x }; f(Some(3)) == 3 && f(None) == 0 };
    memory_labeled: { let mut n = 0; 'o: for i in 0..4 { for j in 0..4 { if i * j == 4 { break 'o; } n += 1; } } n == 10 };
    memory_while_let: { let mut v = vec![1u8, 2, 3]; let mut s = 0; while let Some(x) = v.pop() { s += x; } s == 6 };
    floats_round: (2.5f32).round() == 3.0 && (2.5f32).round_ties_even() == 2.0 && (-2.5f32).ceil() == -2.0;
    floats_to_bits: 1.0f32.to_bits() == 0x3F80_0000 && f32::from_bits(0x3F80_0000) == 1.0 && 1.0f32.to_le_bytes()[3] == 0x3F;
    floats_rem: 5.5f32 % 2.0 == 1.5 && (5.5f32).rem_euclid(2.0) == 1.5 && 2.0f32.powi(3) == 8.0 && 2.0f32.recip() == 0.5;
    floats_casts: 300.0f32 as u8 == 255 && f32::NAN as i16 == 0 && -1.0f32 as u16 == 0 && 1e10f32 as i32 == i32::MAX;
    floats_minmax: 1.0f32.min(2.0) == 1.0 && 1.0f64.max(f64::NAN) == 1.0 && 3.0f32.clamp(0.0, 2.0) == 2.0 && f32::EPSILON > 0.0;
    floats_mul_add2: 2.0f32.mul_add(3.0, 1.0) == 7.0 && (1.0f32 / 3.0).is_normal() && (0.0f32 / 0.0).is_nan() && f64::from(1.5f32) == 1.5;
    durations_more: std::time::Duration::from_millis(1500).as_secs() == 1 && std::time::Duration::from_micros(1500).subsec_nanos() == 1_500_000;
    durations_checked: std::time::Duration::from_secs(1).checked_sub(std::time::Duration::from_secs(2)).is_none() && std::time::Duration::from_secs(1).saturating_sub(std::time::Duration::from_secs(2)).is_zero();
    durations_micros: std::time::Duration::new(1, 500_000).as_micros() == 1_000_500 && std::time::Duration::new(1, 0).as_millis() == 1000 && std::time::Duration::ZERO.as_nanos() == 0;
    durations_mul: std::time::Duration::from_micros(2) * 3 == std::time::Duration::from_micros(6) && std::time::Duration::from_micros(6) / 3 == std::time::Duration::from_micros(2);
    destructors_refcell: { let c = std::cell::RefCell::new(1u8); { let mut b = c.borrow_mut(); *b += 1; } drop(c.borrow_mut()); let x = c.try_borrow_mut().is_ok(); let g = c.borrow(); x && c.try_borrow_mut().is_err() && *g == 2 };
    destructors_option: { let c = std::cell::RefCell::new(1u8); let mut g = Some(c.borrow_mut()); g = None; g.is_none() && c.try_borrow().is_ok() };
    memory_once: { let c = std::cell::OnceCell::new(); *c.get_or_init(|| 3u8) == 3 && c.set(4).is_err() && c.into_inner() == Some(3) };
    maps_range: { let m = BTreeMap::from([((1usize, 2usize), 5u8), ((2, 0), 6), ((2, 1), 7), ((3, 0), 8)]); m.range((2, 0)..(3, 0)).map(|(_, v)| *v).eq([6, 7]) && m.range(..=(1, 2)).count() == 1 && m.range((2, 1)..).next_back() == Some((&(3, 0), &8)) };
    maps_range_mut: { let mut m = BTreeMap::from([(1usize, 5u8), (2, 6), (4, 7)]); for (_, v) in m.range_mut(2..) { *v += 1; } m == BTreeMap::from([(1, 5), (2, 7), (4, 8)]) };
    maps_split_off: { let mut m = BTreeMap::from([(1usize, 5u8), (2, 6), (4, 7)]); let mut r = m.split_off(&2); r.retain(|k, _| *k != 2); m.append(&mut r); m.into_iter().eq([(1, 5), (4, 7)]) && r.is_empty() };
    maps_back: { let mut m = BTreeMap::from([(1usize, 5u8), (2, 6)]); if let Some(v) = m.values_mut().next_back() { *v = 9; } m.keys().rev().eq(&[2, 1]) && m.values().rev().eq(&[9, 5]) && m.into_iter().rev().next() == Some((2, 9)) };
    sets_more: { let mut m = BTreeSet::from([1u8, 3, 5]); let r = m.split_off(&3); m.extend(r); m.retain(|x| *x != 3); m.pop_last() == Some(5) && m.take(&1) == Some(1) && m.is_empty() && BTreeSet::from([1u8, 3, 5]).range(2..4).eq(&[3]) };
    sets_hash: { let mut m = HashSet::from([1u8, 3, 5]); m.retain(|x| *x > 2); m.len() == 2 && m.take(&3) == Some(3) && m.get(&5) == Some(&5) && !m.contains(&1) };
    chunks_arrays: { let v = [1u16, 2, 3, 4, 5]; let (a, r) = v.as_chunks::<2>(); a.len() == 2 && a[1] == [3, 4] && r == [5] && a.as_flattened() == [1, 2, 3, 4] && v.as_rchunks::<2>().1[0] == [2, 3] };
    chunks_unknown: { let v = bytes(6); let (a, r) = v.as_chunks::<2>(); let mut n = r.len(); for x in a { n += x.len(); if x[0] != v[n - 2 - r.len()] { n = 99; } } n == v.len() };
    deques_more: { let mut d = VecDeque::from([1u8, 2, 3]); d.rotate_left(1); d.pop_front_if(|x| *x == 2) == Some(2) && d.range(1..).eq(&[1]) && d.pop_back_if(|x| *x == 2).is_none() && d.len() == 2 };
    vectors_extract: { let mut v = vec![1u8, 2, 3, 4]; let e: Vec<u8> = v.extract_if(.., |x| *x % 2 == 0).collect(); e == [2, 4] && v == [1, 3] };
    maps_equal: HashMap::from([(1u8, 2u8), (3, 4)]) == HashMap::from([(3, 4), (1, 2)]) && HashSet::from([1u8, 2]) == HashSet::from([2, 1]) && BTreeSet::from([1u8]) != BTreeSet::from([2]) && HashMap::from([(1u8, 2u8)]) != HashMap::from([(1, 3)]);
}
pub fn clone_from() {
    let a: [u8; 3] = any("bytes");
    let mut v: Vec<Vec<u8>> = vec![vec![1], vec![]];
    v[0].clone_from(&a.to_vec());
    require(v[0] == a, "vectors");
    let w = v.clone();
    v.push(vec![]);
    v.clone_from(&w);
    require(v == w, "vectors of vectors");
    let mut q: std::collections::VecDeque<u8> = Default::default();
    q.clone_from(&a.iter().copied().collect());
    require(q.len() == 3 && q[2] == a[2], "deques");
    let mut m: std::collections::HashMap<u8, u8> = Default::default();
    let mut n = m.clone();
    n.insert(a[0], a[1]);
    m.clone_from(&n);
    require(m.get(&a[0]) == Some(&a[1]), "maps");
    let mut s = String::from("x");
    s.clone_from(&String::from("abc"));
    require(s == "abc", "texts");
    let mut o = Some(vec![1u8]);
    o.clone_from(&Some(a.to_vec()));
    require(o == Some(a.to_vec()), "options");
    o.clone_from(&None);
    require(o.is_none(), "options");
}
fn twin<T: Clone>(t: &T) -> T {
    t.clone()
}
pub fn clone_tuples() {
    let a: [u8; 3] = any("bytes");
    let t = (a[0], a[1]);
    let u = twin(&t);
    require(u.0 == a[0] && u.1 == a[1], "pairs");
    let t = (a[0], vec![a[1]], a[2]);
    let u = twin(&t);
    require(u.0 == a[0] && u.1[0] == a[1] && u.2 == a[2], "triples");
}
