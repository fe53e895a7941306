use crate::kit::*;
use crate::seqs::num;

use eastl_rs::equals::{EqualTo, Equals};
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::vector_map::Entry as VEntry;
use eastl_rs::{Compare, Greater, HashMap, HashSet, VectorMap};
use std::collections::BTreeMap;

type Case = fn(&mut Rng) -> R;

/// everything collides
pub struct Bad<const M: u64>;
impl<T: Elem, const M: u64> Hash<T> for Bad<M> {
    fn hash(v: &T) -> usize {
        (v.v() % M) as usize
    }
}
pub struct Big;
impl<T: Elem> Hash<T> for Big {
    fn hash(v: &T) -> usize {
        usize::MAX - v.v() as usize * 12345
    }
}

/// a key that has more to it than what it is compared by
#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub struct Loose(u64, u64);
impl Elem for Loose {
    fn mk(v: u64) -> Self {
        thread_local! { static N: std::cell::Cell<u64> = const { std::cell::Cell::new(0) } }
        Loose(N.with(|n| n.replace(n.get() + 1)), v)
    }
    fn v(&self) -> u64 {
        self.1
    }
    fn set(&mut self, v: u64) {
        self.1 = v
    }
}
pub struct Same;
impl Equals<Loose> for Same {
    fn equals(a: &Loose, b: &Loose) -> bool {
        a.1 == b.1
    }
}

/// the table, as it lies in memory
#[repr(C)]
struct Table {
    pad: u8,
    buckets: *const usize,
    count: u32,
    elements: u32,
}

fn table_ok<K: Elem, V, H: Hash<K>>(t: *const (), m: &BTreeMap<u64, u64>) -> R {
    unsafe {
        let t = &*(t as *const Table);
        ck!(t.elements as usize == m.len(), "element_count is {} with {} elements", t.elements, m.len());
        ckp!(*t.buckets.add(t.count as usize) == usize::MAX, "no sentinel after {} buckets", t.count);
        ckp!(m.len() <= t.count as usize, "load factor exceeded: {} elements in {} buckets", m.len(), t.count);
        #[repr(C)]
        struct N<K, V> {
            k: K,
            v: V,
            next: usize,
        }
        let mut n = 0;
        for b in 0..t.count as usize {
            let mut p = *t.buckets.add(b);
            while p != 0 {
                n += 1;
                if n > m.len() {
                    return Err((Kind::Sem, format!("more than {} nodes in the chains", m.len())));
                }
                let q = &*(p as *const N<K, V>);
                ckp!(H::hash(&q.k) % t.count as usize == b, "a node is in bucket {b} of {}", t.count);
                p = q.next;
            }
        }
        ck!(n == m.len(), "{n} nodes in the chains instead of {}", m.len());
    }
    mem_ok()
}

fn map_ok<K: Elem, V: Elem, H: Hash<K>, E: Equals<K>>(h: &mut HashMap<K, V, Ck, H, E>, m: &BTreeMap<u64, u64>, r: &mut Rng) -> R {
    ck!(h.len() == m.len(), "len() is {} instead of {}", h.len(), m.len());
    ck!(h.is_empty() == m.is_empty(), "is_empty() is wrong with {} elements", m.len());
    table_ok::<K, V, H>(h as *const _ as *const (), m)?;
    for _ in 0..3 {
        let k = r.below(60);
        let kk = K::mk(k);
        let g = h.get(&kk).map(|v| v.v());
        ck!(g == m.get(&k).copied(), "get({k}) is {g:?} instead of {:?}", m.get(&k));
        ck!(h.contains_key(&kk) == m.contains_key(&k), "contains_key({k}) is wrong");
        let g = h.get_mut(&kk).map(|v| v.v());
        ck!(g == m.get(&k).copied(), "get_mut({k}) is {g:?} instead of {:?}", m.get(&k));
    }
    let lim = m.len() + 2;
    let mut got: Vec<(u64, u64)> = h.iter().take(lim).map(|(k, v)| (k.v(), v.v())).collect();
    got.sort();
    cki!(m.iter().map(|(a, b)| (*a, *b)).eq(got.iter().copied()), "iter() gives {got:?} instead of {m:?}");
    if r.chance(1, 3) {
        let mut got: Vec<(u64, u64)> = h.iter_mut().take(lim).map(|(k, v)| (k.v(), v.v())).collect();
        got.sort();
        cki!(m.iter().map(|(a, b)| (*a, *b)).eq(got.iter().copied()), "iter_mut() gives {got:?} instead of {m:?}");
        // part of the way, through C++ iterators and a clone
        let mut it = h.iter();
        let mut seen = Vec::new();
        let stop = r.us(m.len() + 1);
        for _ in 0..stop {
            if let Some((k, v)) = it.next() {
                seen.push((k.v(), v.v()));
            }
        }
        let mut seen2 = seen.clone();
        seen2.extend(it.clone().take(lim).map(|(k, v)| (k.v(), v.v())));
        let (b, e) = it.into_compat();
        let it = unsafe { eastl_rs::hash_map::iter::Iter::from_compat(b, e) };
        seen.extend(it.take(lim).map(|(k, v)| (k.v(), v.v())));
        seen.sort();
        seen2.sort();
        cki!(got == seen, "iter() through compat after {stop} gives {seen:?} instead of {got:?}");
        cki!(got == seen2, "a clone of iter() after {stop} gives {seen2:?} instead of {got:?}");
    }
    mem_ok()
}

fn map_op<K: Elem, V: Elem, H: Hash<K>, E: Equals<K>>(r: &mut Rng, h: &mut HashMap<K, V, Ck, H, E>, m: &mut BTreeMap<u64, u64>, range: u64) -> R {
    let k = r.below(range);
    let v = num(r);
    match r.us(14) {
        0..=4 => {
            op!("insert({k}, {v})");
            let g = h.insert(K::mk(k), V::mk(v)).map(|x| x.v());
            let w = m.insert(k, v);
            ck!(g == w, "insert({k}) is {g:?} instead of {w:?}");
        }
        5 | 6 => {
            op!("remove({k})");
            let g = h.remove(&K::mk(k)).map(|x| x.v());
            let w = m.remove(&k);
            ck!(g == w, "remove({k}) is {g:?} instead of {w:?}");
        }
        7 => {
            op!("remove_entry({k})");
            let g = h.remove_entry(&K::mk(k)).map(|(a, b)| (a.v(), b.v()));
            let w = m.remove_entry(&k);
            ck!(g == w, "remove_entry({k}) is {g:?} instead of {w:?}");
        }
        8 => {
            op!("entry({k}).or_insert({v})");
            let g = h.entry(K::mk(k)).or_insert(V::mk(v)).v();
            let w = *m.entry(k).or_insert(v);
            ck!(g == w, "entry({k}).or_insert() is {g} instead of {w}");
        }
        9 => {
            op!("entry({k}).or_insert_with({v}) = 7");
            let e = h.entry(K::mk(k)).or_insert_with(|| V::mk(v));
            let g = e.v();
            e.set(7);
            let w = m.entry(k).or_insert(v);
            ck!(g == *w, "entry({k}).or_insert_with() is {g} instead of {w}");
            *w = 7;
        }
        10 => {
            op!("entry({k}).and_modify(9)");
            h.entry(K::mk(k)).and_modify(|x| x.set(9));
            m.entry(k).and_modify(|x| *x = 9);
        }
        11 => {
            op!("*get_mut({k}) = {v}");
            if let Some(x) = h.get_mut(&K::mk(k)) {
                x.set(v);
            }
            if let Some(x) = m.get_mut(&k) {
                *x = v;
            }
        }
        12 => {
            if r.chance(1, 4) {
                op!("clear()");
                h.clear();
                m.clear();
            }
        }
        _ => {
            op!("iter_mut(): add {v}");
            for (_, x) in h.iter_mut() {
                let y = (x.v() + v) % 250;
                x.set(y);
            }
            for x in m.values_mut() {
                *x = (*x + v) % 250;
            }
        }
    }
    map_ok(h, m, r)
}

fn hash_map_case<K: Elem, V: Elem, H: Hash<K>, E: Equals<K>>(r: &mut Rng) -> R {
    let mut m = BTreeMap::new();
    let mut h: HashMap<K, V, Ck, H, E> = unsafe { HashMap::new_in(Ck::default()) };
    map_ok(&mut h, &m, r)?;
    let range = [4, 20, 60][r.us(3)];
    let long = if r.chance(1, 8) { 200 } else { 50 };
    for _ in 0..r.us(long) {
        map_op(r, &mut h, &mut m, range)?;
    }
    Ok(())
}

fn hash_map_default<V: Elem>(r: &mut Rng) -> R {
    let s: Vec<(u64, u64)> = (0..r.us(30)).map(|_| (r.below(40), num(r))).collect();
    op!("from_iter({s:?})");
    let mut m: BTreeMap<u64, u64> = s.iter().copied().collect();
    let mut h: HashMap<u32, V, Ck> = hinted(s.iter().map(|(k, v)| (*k as u32, V::mk(*v))), r).collect();
    map_ok::<u32, V, DefaultHash<u32>, EqualTo<u32>>(&mut h, &m, r)?;
    for _ in 0..r.us(20) {
        map_op(r, &mut h, &mut m, 50)?;
    }
    Ok(())
}

fn hash_map_big(r: &mut Rng) -> R {
    let mut h: HashMap<u32, u32, Ck> = HashMap::new();
    let n = 2000 + r.us(2000) as u32;
    op!("insert 0..{n}");
    for i in 0..n {
        ck!(h.insert(i.wrapping_mul(2654435761), i).is_none(), "insert() finds a key that is not there");
    }
    for i in 0..n {
        ck!(h.get(&i.wrapping_mul(2654435761)) == Some(&i), "get() does not find key {i}");
    }
    cki!(h.iter().count() == n as usize, "iter() gives {} of {n}", h.iter().count());
    for i in 0..n / 2 {
        ck!(h.remove(&i.wrapping_mul(2654435761)) == Some(i), "remove() does not find key {i}");
    }
    ck!(h.len() == (n - n / 2) as usize, "len() is {}", h.len());
    op!("drop");
    mem_ok()
}

/// one chain holds everything
fn hash_map_chain(r: &mut Rng) -> R {
    if !r.chance(1, 20) {
        return Ok(());
    }
    let mut h: HashMap<u32, El<0>, Ck, Bad<1>> = unsafe { HashMap::new_in(Ck::default()) };
    let n = 3000;
    op!("insert 0..{n} into one bucket");
    for i in 0..n {
        h.insert(i, El::mk(i as u64));
    }
    h.clear();
    ck!(h.is_empty(), "not empty after clear");
    mem_ok()
}

pub fn hash_map() -> Vec<Case> {
    vec![
        hash_map_case::<El<0>, El<1>, Bad<7>, EqualTo<El<0>>>,
        hash_map_case::<u32, El<0>, Bad<1>, EqualTo<u32>>,
        hash_map_case::<El<0>, u64, Big, EqualTo<El<0>>>,
        hash_map_case::<Loose, u32, Bad<9>, Same>,
        hash_map_case::<u64, u32, Bad<1000>, EqualTo<u64>>,
        hash_map_default::<El<0>>,
        hash_map_big,
        hash_map_chain,
    ]
}

// ------------------------------------------------------------------ set
fn hash_set_case<K: Elem, H: Hash<K>, E: Equals<K>>(r: &mut Rng) -> R {
    let mut m: BTreeMap<u64, u64> = BTreeMap::new();
    let mut h: HashSet<K, Ck, H, E> = unsafe { HashSet::new_in(Ck::default()) };
    let range = [4, 20, 60][r.us(3)];
    for _ in 0..r.us(60) {
        let k = r.below(range);
        match r.us(8) {
            0..=4 => {
                op!("insert({k})");
                let g = h.insert(K::mk(k));
                let w = m.insert(k, 0).is_none();
                ck!(g == w, "insert({k}) is {g} instead of {w}");
            }
            5 | 6 => {
                op!("remove({k})");
                let g = h.remove(&K::mk(k)).map(|x| x.v());
                let w = m.remove_entry(&k).map(|x| x.0);
                ck!(g == w, "remove({k}) is {g:?} instead of {w:?}");
            }
            _ => {
                if r.chance(1, 6) {
                    op!("clear()");
                    h.clear();
                    m.clear();
                }
            }
        }
        ck!(h.len() == m.len(), "len() is {} instead of {}", h.len(), m.len());
        ck!(h.is_empty() == m.is_empty(), "is_empty() is wrong with {} elements", m.len());
        table_ok::<K, (), H>(&h as *const _ as *const (), &m)?;
        let k = r.below(range);
        let g = h.get(&K::mk(k)).map(|x| x.v());
        let w = m.get_key_value(&k).map(|x| *x.0);
        ck!(g == w, "get({k}) is {g:?} instead of {w:?}");
        ck!(h.contains_key(&K::mk(k)) == w.is_some(), "contains_key({k}) is wrong");
        let mut got: Vec<u64> = h.iter().take(m.len() + 2).map(|x| x.v()).collect();
        got.sort();
        cki!(m.keys().copied().eq(got.iter().copied()), "iter() gives {got:?} instead of {:?}", m.keys());
        let stop = r.us(m.len() + 1);
        let mut it = h.iter();
        let mut seen: Vec<u64> = it.by_ref().take(stop).map(|x| x.v()).collect();
        let (b, e) = it.into_compat();
        seen.extend(unsafe { eastl_rs::hash_set::iter::Iter::from_compat(b, e) }.take(m.len() + 2).map(|x| x.v()));
        seen.sort();
        cki!(got == seen, "iter() through compat gives {seen:?} instead of {got:?}");
        mem_ok()?;
    }
    Ok(())
}

fn hash_set_default(r: &mut Rng) -> R {
    let s: Vec<u64> = (0..r.us(30)).map(|_| r.below(40)).collect();
    op!("from_iter({s:?})");
    let m: std::collections::BTreeSet<u64> = s.iter().copied().collect();
    let h: HashSet<u64, Ck> = hinted(s.iter().copied(), r).collect();
    ck!(h.len() == m.len(), "len() is {} instead of {}", h.len(), m.len());
    let mut got: Vec<u64> = h.iter().take(m.len() + 2).copied().collect();
    got.sort();
    cki!(m.iter().copied().eq(got.iter().copied()), "iter() gives {got:?} instead of {m:?}");
    mem_ok()
}

pub fn hash_set() -> Vec<Case> {
    vec![hash_set_case::<Loose, Bad<9>, Same>, hash_set_case::<El<0>, Bad<7>, EqualTo<El<0>>>, hash_set_case::<u32, Big, EqualTo<u32>>, hash_set_case::<El<1>, Bad<1>, EqualTo<El<1>>>, hash_set_default]
}

// ------------------------------------------------------------------ vector map
fn vm_ok<K: Elem, V: Elem, C: Compare<K> + Default>(h: &mut VectorMap<K, V, Ck, C>, m: &BTreeMap<u64, u64>, up: bool, r: &mut Rng) -> R {
    ck!(h.len() == m.len(), "len() is {} instead of {}", h.len(), m.len());
    ck!(h.is_empty() == m.is_empty(), "is_empty() is wrong with {} elements", m.len());
    ck!(h.capacity() >= h.len(), "capacity {} below length {}", h.capacity(), h.len());
    let got: Vec<(u64, u64)> = h.as_ref().iter().map(|(k, v)| (k.v(), v.v())).collect();
    let mut want: Vec<(u64, u64)> = m.iter().map(|(k, v)| (*k, *v)).collect();
    if !up {
        want.reverse();
    }
    ck!(got == want, "contents are {got:?} instead of {want:?}");
    ck!(h.iter().map(|(k, v)| (k.v(), v.v())).eq(want.iter().copied()), "iter() is wrong for {want:?}");
    let k = r.below(60);
    let kk = K::mk(k);
    let g = h.get(&kk).map(|v| v.v());
    ck!(g == m.get(&k).copied(), "get({k}) is {g:?} instead of {:?}", m.get(&k));
    let g = h.get_mut(&kk).map(|v| v.v());
    ck!(g == m.get(&k).copied(), "get_mut({k}) is {g:?} instead of {:?}", m.get(&k));
    ck!(h.contains_key(&kk) == m.contains_key(&k), "contains_key({k}) is wrong");
    mem_ok()
}

fn vm_ops<K: Elem, V: Elem, C: Compare<K> + Default>(r: &mut Rng, h: &mut VectorMap<K, V, Ck, C>, m: &mut BTreeMap<u64, u64>, up: bool) -> R {
    vm_ok(h, m, up, r)?;
    let range = [4, 20, 60][r.us(3)];
    for _ in 0..r.us(50) {
        let k = r.below(range);
        let v = num(r);
        match r.us(12) {
            0..=4 => {
                op!("insert({k}, {v})");
                let g = h.insert(K::mk(k), V::mk(v)).map(|x| x.v());
                let w = m.insert(k, v);
                ck!(g == w, "insert({k}) is {g:?} instead of {w:?}");
            }
            5 | 6 => {
                op!("remove({k})");
                let g = h.remove(&K::mk(k)).map(|x| x.v());
                let w = m.remove(&k);
                ck!(g == w, "remove({k}) is {g:?} instead of {w:?}");
            }
            7 => {
                op!("remove_entry({k})");
                let g = h.remove_entry(&K::mk(k)).map(|(a, b)| (a.v(), b.v()));
                let w = m.remove_entry(&k);
                ck!(g == w, "remove_entry({k}) is {g:?} instead of {w:?}");
            }
            8 | 9 => {
                op!("entry({k}), {v}");
                match h.entry(K::mk(k)) {
                    VEntry::Occupied(mut e) => {
                        ck!(m.contains_key(&k), "entry({k}) is occupied but the key is not there");
                        ck!(e.key().v() == k && e.get().v() == m[&k], "entry({k}) is ({}, {}) instead of {}", e.key().v(), e.get().v(), m[&k]);
                        e.get_mut().set(v);
                        m.insert(k, v);
                    }
                    VEntry::Vacant(e) => {
                        ck!(!m.contains_key(&k), "entry({k}) is vacant but the key is there");
                        ck!(e.key().v() == k, "entry({k}).key() is {}", e.key().v());
                        if r.chance(1, 3) {
                            ck!(e.into_key().v() == k, "into_key() is wrong");
                        } else {
                            let g = e.insert(V::mk(v)).v();
                            ck!(g == v, "entry({k}).insert({v}) is {g}");
                            m.insert(k, v);
                        }
                    }
                }
            }
            10 => {
                op!("*get_mut({k}) = {v}");
                if let Some(x) = h.get_mut(&K::mk(k)) {
                    x.set(v);
                }
                if let Some(x) = m.get_mut(&k) {
                    *x = v;
                }
            }
            _ => {
                if r.chance(1, 6) {
                    op!("clear()");
                    h.clear();
                    m.clear();
                }
            }
        }
        vm_ok(h, m, up, r)?;
    }
    Ok(())
}

fn vm_less<K: Elem, V: Elem>(r: &mut Rng) -> R {
    let mut m = BTreeMap::new();
    let mut h: VectorMap<K, V, Ck> = match r.us(3) {
        0 => VectorMap::with_capacity(r.us(9)),
        1 => VectorMap::default(),
        _ => {
            let s: Vec<(u64, u64)> = (0..r.us(12)).map(|_| (r.below(20), num(r))).collect();
            op!("from({s:?})");
            m.extend(s.iter().copied());
            let mut e: Vec<(K, V)> = s.iter().map(|(k, v)| (K::mk(*k), V::mk(*v))).collect();
            match r.us(3) {
                0 => VectorMap::from(e.as_slice()),
                1 => VectorMap::from(e.as_mut_slice()),
                _ => hinted(e.into_iter(), r).collect(),
            }
        }
    };
    vm_ops(r, &mut h, &mut m, true)
}

fn vm_array(r: &mut Rng) -> R {
    let a: [(u64, u64); 4] = std::array::from_fn(|_| (r.below(6), num(r)));
    op!("from({a:?})");
    let mut m: BTreeMap<u64, u64> = a.iter().copied().collect();
    let mut h: VectorMap<El<0>, u32, Ck> = if r.chance(1, 2) {
        VectorMap::from(a.map(|(k, v)| (El::mk(k), v as u32)))
    } else {
        let b = a.map(|(k, v)| (El::mk(k), v as u32));
        VectorMap::from(&b)
    };
    vm_ops(r, &mut h, &mut m, true)
}

fn vm_greater<K: Elem, V: Elem>(r: &mut Rng) -> R {
    let mut m = BTreeMap::new();
    let mut h: VectorMap<K, V, Ck, Greater<K>> = VectorMap::new();
    vm_ops(r, &mut h, &mut m, false)
}

pub fn vector_map() -> Vec<Case> {
    vec![vm_less::<El<0>, El<1>>, vm_greater::<u32, El<0>>, vm_less::<u32, u8>, vm_array, vm_greater::<El<0>, El<0>>]
}
