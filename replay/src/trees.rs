//! Maps are built the way C++ hands them over: this library cannot insert.
use crate::kit::*;
use crate::seqs::num;

use eastl_rs::{Allocator, Compare, Greater, Less, Map, Set};
use std::collections::BTreeMap;
use std::mem::ManuallyDrop;

type Case = fn(&mut Rng) -> R;

#[repr(C)]
struct Tree {
    pad: u8,
    begin: *mut u8,
    end: *mut u8,
    parent: *mut u8,
    size: u32,
}

#[repr(C)]
struct Node<K, V> {
    right: *mut Node<K, V>,
    left: *mut Node<K, V>,
    parent: usize,
    pair: (K, V),
}

type Link = *mut u8;

unsafe fn build<K: Elem, V>(t: *mut Tree, pairs: Vec<(u64, V)>, up: bool, r: &mut Rng) {
    let n = pairs.len();
    let anchor = &mut (*t).begin as *mut Link as *mut Node<K, V>;
    let mut pairs: Vec<_> = pairs.into_iter().map(Some).collect();
    // random order, or a path
    let mut order: Vec<usize> = (0..n).collect();
    match r.us(6) {
        0 => {}
        1 => order.reverse(),
        _ => {
            for i in (1..n).rev() {
                order.swap(i, r.us(i + 1));
            }
        }
    }
    (*t).begin = std::ptr::null_mut();
    (*t).end = std::ptr::null_mut();
    (*t).parent = std::ptr::null_mut();
    for i in order {
        let (k, v) = pairs[i].take().unwrap();
        let node: *mut Node<K, V> = Ck::default().allocate(1);
        let mut at = (*t).parent as *mut Node<K, V>;
        let mut parent = anchor;
        let mut left = false;
        while !at.is_null() {
            let other = (*at).pair.0.v();
            left = if up { k < other } else { k > other };
            parent = at;
            at = if left { (*at).left } else { (*at).right };
        }
        let color = r.us(2);
        std::ptr::write(node, Node { right: std::ptr::null_mut(), left: std::ptr::null_mut(), parent: parent as usize | color, pair: (K::mk(k), v) });
        if parent == anchor {
            (*t).parent = node as Link;
        } else if left {
            (*parent).left = node;
        } else {
            (*parent).right = node;
        }
    }
    let mut lo = (*t).parent as *mut Node<K, V>;
    let mut hi = lo;
    if !lo.is_null() {
        while !(*lo).left.is_null() {
            lo = (*lo).left;
        }
        while !(*hi).right.is_null() {
            hi = (*hi).right;
        }
        (*t).begin = lo as Link;
        (*t).end = hi as Link;
    } else {
        (*t).begin = anchor as Link;
        (*t).end = anchor as Link;
    }
    (*t).size = n as u32;
}

fn pick(r: &mut Rng, max: usize) -> BTreeMap<u64, u64> {
    let n = r.us(max + 1);
    (0..n).map(|_| (r.below(80), num(r))).collect()
}

fn map_case<K: Elem + PartialEq, V: Elem, C: Compare<K> + Default>(r: &mut Rng, up: bool) -> R {
    let mut m = pick(r, 24);
    op!("map of {m:?} (ascending: {up})");
    let mut h: Map<K, V, Ck, C> = match r.us(3) {
        0 => Map::with_allocator(Ck::default()),
        1 => Map::with_compare(C::default()),
        _ => Map::with_allocator_and_compare(Ck::default(), C::default()),
    };
    ck!(h.is_empty() && h.len() == 0 && h.get(&K::mk(1)).is_none(), "a new map is not empty");
    unsafe {
        let p = m.iter().map(|(k, v)| (*k, V::mk(*v))).collect();
        build::<K, V>(&mut h as *mut _ as *mut Tree, p, up, r);
    }
    for _ in 0..r.us(6) + 2 {
        ck!(h.len() == m.len(), "len() is {} instead of {}", h.len(), m.len());
        ck!(h.is_empty() == m.is_empty(), "is_empty() is wrong with {} elements", m.len());
        for _ in 0..4 {
            let k = if m.is_empty() || r.chance(1, 2) { r.below(80) } else { *m.keys().nth(r.us(m.len())).unwrap() };
            let kk = K::mk(k);
            let g = h.get(&kk).map(|v| v.v());
            ck!(g == m.get(&k).copied(), "get({k}) is {g:?} instead of {:?}", m.get(&k));
            ck!(h.contains_key(&kk) == m.contains_key(&k), "contains_key({k}) is wrong");
            let g = h.get_mut(&kk);
            ck!(g.as_ref().map(|v| v.v()) == m.get(&k).copied(), "get_mut({k}) is {g:?} instead of {:?}", m.get(&k));
            if let Some(g) = g {
                let x = num(r);
                op!("*get_mut({k}) = {x}");
                g.set(x);
                m.insert(k, x);
            }
        }
        let mut want: Vec<(u64, u64)> = m.iter().map(|(k, v)| (*k, *v)).collect();
        if !up {
            want.reverse();
        }
        unsafe {
            let got: Vec<(u64, u64)> = h.iter().take(m.len() + 2).map(|(k, v)| (k.v(), v.v())).collect();
            cki!(got == want, "iter() gives {got:?} instead of {want:?}");
            let got: Vec<(u64, u64)> = h.iter_mut().take(m.len() + 2).map(|(k, v)| (k.v(), v.v())).collect();
            cki!(got == want, "iter_mut() gives {got:?} instead of {want:?}");
            let x = num(r);
            op!("iter_mut(): add {x}");
            for (_, v) in h.iter_mut() {
                let y = (v.v() + x) % 250;
                v.set(y);
            }
            for v in m.values_mut() {
                *v = (*v + x) % 250;
            }
            let mut it = h.iter();
            while it.next().is_some() {}
            cki!(it.next().is_none(), "iter() goes on after its end");
        }
        mem_ok()?;
    }
    if r.chance(1, 2) {
        op!("clear()");
        h.clear();
        ck!(h.is_empty() && h.len() == 0 && h.get(&K::mk(1)).is_none(), "a cleared map is not empty");
        ckm!(blocks() == 0, "{} nodes are left after clear()", blocks());
        cki!(unsafe { h.iter() }.next().is_none(), "iter() of a cleared map is not empty");
        h.clear();
    }
    op!("drop");
    mem_ok()
}

fn set_case<K: Elem, C: Compare<K> + Default>(r: &mut Rng, up: bool) -> R {
    let m = pick(r, 24);
    op!("set of {:?} (ascending: {up})", m.keys());
    let mut h: Set<K, Ck, C> = match r.us(3) {
        0 => Set::with_allocator(Ck::default()),
        1 => Set::with_compare(C::default()),
        _ => Set::with_allocator_and_compare(Ck::default(), C::default()),
    };
    ck!(h.is_empty() && h.len() == 0, "a new set is not empty");
    unsafe {
        let p = m.keys().map(|k| (*k, ())).collect();
        build::<K, ()>(&mut h as *mut _ as *mut Tree, p, up, r);
    }
    ck!(h.len() == m.len(), "len() is {} instead of {}", h.len(), m.len());
    for k in 0..80 {
        ck!(h.contains_key(&K::mk(k)) == m.contains_key(&k), "contains_key({k}) is wrong");
    }
    let mut want: Vec<u64> = m.keys().copied().collect();
    if !up {
        want.reverse();
    }
    let got: Vec<u64> = unsafe { h.iter() }.take(m.len() + 2).map(|k| k.v()).collect();
    cki!(got == want, "iter() gives {got:?} instead of {want:?}");
    if r.chance(1, 2) {
        op!("clear()");
        h.clear();
        ck!(h.is_empty() && h.len() == 0 && !h.contains_key(&K::mk(1)), "a cleared set is not empty");
    }
    mem_ok()
}

fn empty_case(_: &mut Rng) -> R {
    let _ = ManuallyDrop::new(0);
    let mut h: Map<u32, u32, Ck> = Map::default();
    ck!(h.is_empty() && h.get(&1).is_none() && !h.contains_key(&1), "a new map is not empty");
    cki!(unsafe { h.iter() }.next().is_none(), "iter() of a new map is not empty");
    cki!(unsafe { h.iter_mut() }.next().is_none(), "iter_mut() of a new map is not empty");
    h.clear();
    mem_ok()
}

pub fn map() -> Vec<Case> {
    vec![
        |r| map_case::<El<0>, El<1>, Less<El<0>>>(r, true),
        |r| map_case::<u32, El<0>, Greater<u32>>(r, false),
        |r| set_case::<El<0>, Less<El<0>>>(r, true),
        |r| map_case::<u64, u8, Less<u64>>(r, true),
        |r| set_case::<u32, Greater<u32>>(r, false),
        empty_case,
    ]
}
