use crate::kit::*;
use crate::seqs::num;

use eastl_rs::{Allocator, FixedList, List};
use moveit::moveit;
use std::collections::VecDeque;

type Case = fn(&mut Rng) -> R;

/// next, prev of the sentinel and of every node
fn links<T: Elem, A: Allocator>(l: &List<T, A>, n: usize) -> R {
    unsafe {
        let s = l as *const List<T, A> as *const [usize; 2];
        let mut p = s;
        for i in 0..=n {
            let q = (*p)[0] as *const [usize; 2];
            ck!((*q)[1] == p as usize, "the node after node {i} does not point back to it");
            p = q;
            ck!(i == n || p != s, "the ring has {i} of {n} nodes");
        }
        ck!(p == s, "the ring does not close after {n} nodes");
    }
    Ok(())
}

fn list_ok<T: Elem, A: Allocator>(l: &List<T, A>, m: &VecDeque<u64>) -> R {
    ck!(l.len() as usize == m.len() && l.size() == m.len(), "len() is {} instead of {}", l.len(), m.len());
    ck!(l.is_empty() == m.is_empty() && l.empty() == m.is_empty(), "is_empty() is wrong with {} elements", m.len());
    let (f, b) = (l.front().map(|x| x.v()), l.back().map(|x| x.v()));
    ck!(f == m.front().copied(), "front() is {f:?} instead of {:?}", m.front());
    ck!(b == m.back().copied(), "back() is {b:?} instead of {:?}", m.back());
    links(l, m.len())?;
    let mut it = l.iter();
    for i in 0..=m.len() {
        ck!(it.size_hint() == (m.len() - i, Some(m.len() - i)), "size_hint() is {:?} with {} left", it.size_hint(), m.len() - i);
        let g = it.next().map(|x| x.v());
        ck!(g == m.get(i).copied(), "iter() gives {g:?} instead of {:?}", m.get(i));
    }
    ck!(it.next().is_none(), "iter() goes on after its end");
    mem_ok()
}

fn list_op<T: Elem, A: Allocator + Default>(r: &mut Rng, l: &mut List<T, A>, m: &mut VecDeque<u64>) -> R {
    match r.us(15) {
        0..=2 => {
            let x = num(r);
            op!("push_back({x})");
            l.push_back(T::mk(x));
            m.push_back(x);
        }
        3..=5 => {
            let x = num(r);
            op!("push_front({x})");
            l.push_front(T::mk(x));
            m.push_front(x);
        }
        6 | 7 => {
            op!("pop_back()");
            let g = l.pop_back().map(|e| e.v());
            let w = m.pop_back();
            ck!(g == w, "pop_back() is {g:?} instead of {w:?}");
        }
        8 | 9 => {
            op!("pop_front()");
            let g = l.pop_front().map(|e| e.v());
            let w = m.pop_front();
            ck!(g == w, "pop_front() is {g:?} instead of {w:?}");
        }
        10 => {
            if r.chance(1, 3) {
                op!("clear()");
                l.clear();
                m.clear();
            }
        }
        11 => {
            let s = crate::seqs::seq(r, 5);
            op!("extend({s:?})");
            l.extend(hinted(s.iter().map(|x| T::mk(*x)), r));
            m.extend(s);
        }
        13 => {
            let s = crate::seqs::seq(r, 5);
            if T::extend_refs(l, &s) {
                op!("extend(&{s:?})");
                m.extend(s);
            }
        }
        12 => {
            let (x, y) = (num(r), num(r));
            op!("front_mut/back_mut = {x}, {y}");
            if let Some(e) = l.front_mut() {
                e.set(x);
            }
            if let Some(e) = l.back_mut() {
                e.set(y);
            }
            if let Some(e) = m.front_mut() {
                *e = x;
            }
            if let Some(e) = m.back_mut() {
                *e = y;
            }
        }
        _ => {
            let x = num(r);
            op!("iter_mut(): add {x}");
            let n = m.len();
            let mut it = l.iter_mut();
            for i in 0..n {
                ck!(it.size_hint() == (n - i, Some(n - i)), "iter_mut().size_hint() is {:?} with {} left", it.size_hint(), n - i);
                match it.next() {
                    Some(e) => {
                        let y = (e.v() + x) % 250;
                        e.set(y);
                    }
                    None => ck!(false, "iter_mut() ends after {i} of {n}"),
                }
            }
            cki!(it.next().is_none(), "iter_mut() goes on after its end");
            for e in m.iter_mut() {
                *e = (*e + x) % 250;
            }
        }
    }
    list_ok(l, m)
}

fn list_case<T: Elem + Unpin>(r: &mut Rng) -> R {
    let mut m = VecDeque::new();
    moveit! { let mut l = unsafe { List::<T, Ck>::new() }; }
    list_ok(&l, &m)?;
    for _ in 0..r.us(40) {
        list_op(r, &mut l, &mut m)?;
        ckm!(blocks() == m.len(), "{} blocks for {} nodes", blocks(), m.len());
    }
    Ok(())
}

pub fn list() -> Vec<Case> {
    vec![list_case::<El<0>>, list_case::<u32>, list_case::<El<2>>, list_case::<u8>]
}

fn fixed_list_case<T: Elem + Unpin, const N: usize>(r: &mut Rng) -> R {
    let mut m = VecDeque::new();
    moveit! { let mut l = unsafe { FixedList::<T, N, Ck>::new_with_default_overflow_allocator() }; }
    let at = &*l as *const FixedList<T, N, Ck> as usize;
    let size = std::mem::size_of::<FixedList<T, N, Ck>>();
    list_ok(&**l, &m)?;
    for _ in 0..r.us(40) {
        list_op(r, &mut **l, &mut m)?;
        let mut inside = 0;
        for e in l.iter() {
            let p = e as *const T as usize;
            if p >= at && p < at + size {
                inside += 1;
            }
        }
        ckm!(inside <= N, "{inside} nodes in a buffer of {N}");
        ckm!(blocks() == m.len() - inside, "{} blocks for {} of {} nodes", blocks(), m.len() - inside, m.len());
        // a node comes from the buffer as long as there is room
        if m.len() <= N && blocks() == 0 {
            ckm!(inside == m.len(), "{inside} of {} nodes in a buffer of {N}", m.len());
        }
    }
    // fill up what is left
    while let Some(w) = m.pop_front() {
        let g = l.pop_front().map(|e| e.v());
        ck!(g == Some(w), "pop_front() is {g:?} instead of {w}");
    }
    op!("fill with {N} + 2");
    for i in 0..N + 2 {
        l.push_back(T::mk(i as u64));
        m.push_back(i as u64);
        let over = (i + 1).saturating_sub(N);
        ckm!(blocks() == over, "{} blocks with {} nodes in a list of {N}", blocks(), i + 1);
    }
    list_ok(&**l, &m)
}

pub fn fixed_list() -> Vec<Case> {
    vec![fixed_list_case::<El<0>, 4>, fixed_list_case::<u32, 1>, fixed_list_case::<El<2>, 7>, fixed_list_case::<u8, 3>]
}
