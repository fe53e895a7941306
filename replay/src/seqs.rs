use crate::kit::*;

use eastl_rs::deque::iter::{Iter as DIter, IterMut as DIterMut};
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::{Deque, Queue, String as EString, Vector};
use moveit::{moveit, MoveNew};
use std::collections::VecDeque;
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Case = fn(&mut Rng) -> R;

pub fn vals<T: Elem>(s: &[T]) -> Vec<u64> {
    s.iter().map(|x| x.v()).collect()
}

/// a value that survives being narrowed
pub fn num(r: &mut Rng) -> u64 {
    r.below(250)
}

pub fn seq(r: &mut Rng, max: usize) -> Vec<u64> {
    let n = r.us(max + 1);
    (0..n).map(|_| num(r)).collect()
}

pub fn els<T: Elem>(v: &[u64]) -> Vec<T> {
    v.iter().map(|x| T::mk(*x)).collect()
}

pub fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

// ------------------------------------------------------------------ vector
fn vec_ok<T: Elem, A: eastl_rs::Allocator>(v: &Vector<T, A>, m: &[u64]) -> R {
    ck!(v.len() == m.len(), "len() is {} instead of {}", v.len(), m.len());
    ck!(v.is_empty() == m.is_empty(), "is_empty() is {} with {} elements", v.is_empty(), m.len());
    ckm!(v.capacity() >= v.len(), "capacity {} below length {}", v.capacity(), v.len());
    ck!(v.is_full() == (v.len() == v.capacity()), "is_full() is {} with {} of {}", v.is_full(), v.len(), v.capacity());
    let got = vals(v.as_slice());
    ck!(got == m, "contents are {got:?} instead of {m:?}");
    mem_ok()
}

fn vector_ops<T: Elem>(r: &mut Rng, v: &mut Vector<T, Ck>, m: &mut Vec<u64>) -> R {
    match r.us(16) {
        0..=3 => {
            let x = num(r);
            op!("push({x})");
            let c = v.capacity();
            let full = v.len() == c;
            v.push(T::mk(x));
            m.push(x);
            let want = if full { if c == 0 { 1 } else { 2 * c } } else { c };
            ck!(v.capacity() == want, "capacity after push is {} instead of {want}", v.capacity());
        }
        4 => {
            op!("pop()");
            let got = v.pop().map(|e| e.v());
            let want = m.pop();
            ck!(got == want, "pop() is {got:?} instead of {want:?}");
        }
        5 | 6 => {
            let i = r.us(m.len() + 1);
            let x = num(r);
            op!("insert({i}, {x})");
            v.insert(i, T::mk(x));
            m.insert(i, x);
        }
        7 | 8 => {
            let i = r.us(m.len() + 2);
            op!("remove({i})");
            let got = v.remove(i).map(|e| e.v());
            let want = if i < m.len() { Some(m.remove(i)) } else { None };
            ck!(got == want, "remove({i}) is {got:?} instead of {want:?}");
        }
        9 => {
            let k = r.us(9);
            let c = v.capacity();
            op!("reserve({k})");
            v.reserve(k);
            ck!(v.capacity() == c + k, "capacity after reserve({k}) is {} instead of {}", v.capacity(), c + k);
        }
        10 => {
            let s = seq(r, 9);
            op!("append({s:?})");
            v.append(&els::<T>(&s));
            m.extend(&s);
        }
        11 => {
            let s = seq(r, 9);
            op!("assign({s:?})");
            v.assign(&els::<T>(&s));
            *m = s;
        }
        12 => {
            op!("clear()");
            v.clear();
            m.clear();
            ck!(v.capacity() == 0, "capacity after clear is {}", v.capacity());
        }
        13 => {
            op!("clone()");
            let c = v.clone();
            vec_ok(&c, m)?;
            ck!(c.capacity() == m.len(), "clone of {} elements has capacity {}", m.len(), c.capacity());
            if r.chance(1, 2) {
                *v = c;
            }
        }
        14 => {
            if !m.is_empty() {
                let i = r.us(m.len());
                let x = num(r);
                op!("[{i}] = {x}");
                v.as_slice_mut()[i].set(x);
                m[i] = x;
            }
        }
        _ => {
            if r.chance(1, 4) {
                let i = m.len() + 1 + r.us(3);
                op!("insert({i}, _) past the end");
                ck!(panics(|| v.insert(i, T::mk(1))), "insert past the end does not panic");
            } else {
                let w = std::mem::take(v);
                op!("into_iter()");
                into_iter(r, w, m)?;
                m.clear();
            }
        }
    }
    vec_ok(v, m)
}

fn into_iter<T: Elem>(r: &mut Rng, w: Vector<T, Ck>, m: &[u64]) -> R {
    let cap = w.capacity();
    let mut it = w.into_iter();
    let mut d: VecDeque<u64> = m.iter().copied().collect();
    for _ in 0..r.us(m.len() + 3) {
        ck!(it.len() == d.len(), "into_iter().len() is {} instead of {}", it.len(), d.len());
        ck!(it.is_empty() == d.is_empty(), "into_iter().is_empty() is wrong");
        ck!(it.capacity() == cap, "into_iter().capacity() is {} instead of {cap}", it.capacity());
        ck!(vals(it.as_slice()) == d.iter().copied().collect::<Vec<_>>(), "into_iter().as_slice() is {:?} instead of {d:?}", vals(it.as_slice()));
        let (got, want) = if r.chance(1, 2) {
            op!("next()");
            (it.next().map(|e| e.v()), d.pop_front())
        } else {
            op!("next_back()");
            (it.next_back().map(|e| e.v()), d.pop_back())
        };
        ck!(got == want, "into_iter() gives {got:?} instead of {want:?}");
        mem_ok()?;
    }
    drop(it);
    mem_ok()
}

fn vector_case<T: Elem>(r: &mut Rng) -> R {
    let mut m = Vec::new();
    let mut v: Vector<T, Ck> = match r.us(6) {
        0 => {
            let c = r.us(12);
            op!("with_capacity({c})");
            let v = Vector::with_capacity(c);
            ck!(v.capacity() == c, "with_capacity({c}) has capacity {}", v.capacity());
            v
        }
        1 => {
            m = seq(r, 12);
            op!("from slice {m:?}");
            let e = els::<T>(&m);
            Vector::from(e.as_slice())
        }
        2 => {
            m = seq(r, 12);
            op!("from_iter {m:?}");
            hinted(m.iter().map(|x| T::mk(*x)), r).collect()
        }
        3 => {
            m = vec![num(r), num(r), num(r)];
            op!("from array {m:?}");
            let a = [T::mk(m[0]), T::mk(m[1]), T::mk(m[2])];
            if r.chance(1, 2) {
                Vector::from(a)
            } else {
                Vector::from(&a)
            }
        }
        _ => {
            op!("new()");
            Vector::default()
        }
    };
    vec_ok(&v, &m)?;
    for _ in 0..r.us(40) {
        vector_ops(r, &mut v, &mut m)?;
    }
    op!("drop");
    Ok(())
}

fn vector_huge(r: &mut Rng) -> R {
    // sizes that do not fit into memory must not be wrapped around
    let n = usize::MAX / 8 + 1 + r.us(16);
    op!("with_capacity({n}) of u64");
    ckm!(panics(|| drop(Vector::<u64, Ck>::with_capacity(n))), "with_capacity({n}) of u64 does not panic");
    let mut v: Vector<u64, Ck> = Vector::default();
    v.push(1);
    op!("reserve({n}) of u64");
    ckm!(panics(|| v.reserve(n)), "reserve({n}) of u64 does not panic");
    ckm!(panics(|| v.reserve(usize::MAX)), "reserve(MAX) of u64 does not panic");
    vec_ok(&v, &[1])
}

pub fn vector() -> Vec<Case> {
    vec![vector_case::<El<0>>, vector_case::<u32>, vector_case::<El<3>>, vector_case::<u8>, vector_case::<El<0>>, vector_case::<El<1>>, vector_case::<El<0>>, vector_huge]
}

// ------------------------------------------------------------------ string
const CHARS: [char; 12] = ['a', 'b', ' ', '0', 'é', 'ß', 'Ω', '中', '文', '😀', '𝄞', '\u{10FFFF}'];

fn text(r: &mut Rng, max: usize) -> String {
    let n = r.us(max + 1);
    let ascii = r.chance(1, 3);
    (0..n).map(|_| CHARS[if ascii { r.us(4) } else { r.us(12) }]).collect()
}

fn str_ok(s: &EString<Ck>, m: &str) -> R {
    ck!(s.len() == m.len(), "len() is {} instead of {}", s.len(), m.len());
    ck!(s.is_empty() == m.is_empty(), "is_empty() is wrong for {m:?}");
    ck!(s.as_bytes() == m.as_bytes(), "bytes are {:?} instead of {:?}", s.as_bytes(), m.as_bytes());
    ck!(std::str::from_utf8(s.as_bytes()).is_ok(), "not UTF-8: {:?}", s.as_bytes());
    ckm!(s.capacity() >= s.len(), "capacity {} below length {}", s.capacity(), s.len());
    ck!(s.is_full() == (s.len() == s.capacity()), "is_full() is wrong");
    if s.capacity() > 0 {
        let p = s.as_bytes().as_ptr();
        let z = unsafe { *p.add(s.len()) };
        if z != 0 {
            return Err((Kind::Iter, format!("no null after {m:?}: {z}")));
        }
    }
    mem_ok()
}

fn string_case(r: &mut Rng) -> R {
    let mut m = String::new();
    let mut s: EString<Ck> = match r.us(5) {
        0 => {
            let c = r.us(12);
            op!("with_capacity({c})");
            let s = EString::with_capacity(c);
            ck!(s.capacity() >= c, "with_capacity({c}) has capacity {}", s.capacity());
            s
        }
        1 => {
            m = text(r, 8);
            op!("from({m:?})");
            EString::from(m.as_str())
        }
        2 => {
            m = text(r, 8);
            op!("from_in({m:?})");
            EString::from_in(&m, Ck::default())
        }
        _ => EString::default(),
    };
    str_ok(&s, &m)?;
    for _ in 0..r.us(30) {
        match r.us(12) {
            0..=3 => {
                let c = CHARS[r.us(12)];
                op!("push({c:?})");
                s.push(c);
                m.push(c);
            }
            4 => {
                op!("pop()");
                let (a, b) = (s.pop(), m.pop());
                ck!(a == b, "pop() is {a:?} instead of {b:?}");
            }
            5 | 6 => {
                let b: Vec<usize> = m.char_indices().map(|x| x.0).chain([m.len()]).collect();
                let i = b[r.us(b.len())];
                let c = CHARS[r.us(12)];
                op!("insert({i}, {c:?})");
                s.insert(i, c);
                m.insert(i, c);
            }
            7 | 8 => {
                let b: Vec<usize> = m.char_indices().map(|x| x.0).collect();
                if b.is_empty() || r.chance(1, 8) {
                    op!("remove({})", m.len());
                    let g = s.remove(m.len());
                    ck!(g.is_none(), "remove past the end is {g:?}");
                } else {
                    let i = b[r.us(b.len())];
                    op!("remove({i})");
                    let g = s.remove(i);
                    let w = Some(m.remove(i));
                    ck!(g == w, "remove({i}) is {g:?} instead of {w:?}");
                }
            }
            9 => {
                let k = r.us(9);
                let c = s.capacity();
                op!("reserve({k})");
                s.reserve(k);
                ck!(s.capacity() >= c + k, "capacity after reserve({k}) is {}", s.capacity());
            }
            10 => {
                let t = text(r, 8);
                op!("assign({t:?})");
                s.assign(&t);
                m = t;
            }
            _ => {
                op!("clone(), ==");
                let c = s.clone();
                str_ok(&c, &m)?;
                ck!(c == s, "a clone is not equal");
                let t = text(r, 3);
                let o: EString<Ck> = EString::from(t.as_str());
                ck!((o == s) == (t == m), "{t:?} == {m:?} is {}", o == s);
                ck!(s.as_str() == m && format!("{s}") == m, "as_str() or Display is wrong for {m:?}");
                if r.chance(1, 2) {
                    s = c;
                }
            }
        }
        str_ok(&s, &m)?;
    }
    Ok(())
}

pub fn string() -> Vec<Case> {
    vec![string_case]
}

// ------------------------------------------------------------------ deque
fn deq_ok<T: Elem>(d: &mut Deque<'_, T, Ck>, m: &VecDeque<u64>, r: &mut Rng) -> R {
    ck!(d.len() == m.len(), "len() is {} instead of {}", d.len(), m.len());
    ck!(d.is_empty() == m.is_empty(), "is_empty() is wrong with {} elements", m.len());
    let (f, b) = (d.front().map(|x| x.v()), d.back().map(|x| x.v()));
    ck!(f == m.front().copied(), "front() is {f:?} instead of {:?}", m.front());
    ck!(b == m.back().copied(), "back() is {b:?} instead of {:?}", m.back());
    ck!(d.front_mut().map(|x| x.v()) == m.front().copied(), "front_mut() is wrong");
    ck!(d.back_mut().map(|x| x.v()) == m.back().copied(), "back_mut() is wrong");
    let lim = m.len() + 2;
    let got: Vec<u64> = d.iter().take(lim).map(|x| x.v()).collect();
    cki!(m.iter().copied().eq(got.iter().copied()), "iter() gives {got:?} instead of {m:?}");
    mem_ok()?;
    if r.chance(1, 4) {
        let got: Vec<u64> = d.iter().rev().take(lim).map(|x| x.v()).collect();
        cki!(m.iter().rev().copied().eq(got.iter().copied()), "iter().rev() gives {got:?} for {m:?}");
        let got: Vec<u64> = d.iter_mut().take(lim).map(|x| x.v()).collect();
        cki!(m.iter().copied().eq(got.iter().copied()), "iter_mut() gives {got:?} instead of {m:?}");
    }
    if r.chance(1, 4) {
        // both ends, through C++ iterators
        let mut w = m.clone();
        let mut it = d.iter();
        for _ in 0..r.us(m.len() + 3) {
            if r.chance(1, 4) {
                let (b, e) = it.into_compat();
                it = unsafe { DIter::from_compat(b, e) };
            }
            let (g, x) = if r.chance(1, 2) { (it.next(), w.pop_front()) } else { (it.next_back(), w.pop_back()) };
            let g = g.map(|x| x.v());
            cki!(g == x, "a double-ended iterator gives {g:?} instead of {x:?} over {m:?}");
        }
    }
    mem_ok()
}

fn deque_case<T: Elem>(r: &mut Rng) -> R {
    let mut m = VecDeque::new();
    let mut d: Deque<T, Ck> = if r.chance(1, 4) {
        let s = seq(r, 150);
        op!("from_iter {s:?}");
        m.extend(&s);
        hinted(s.iter().map(|x| T::mk(*x)), r).collect()
    } else {
        Deque::new()
    };
    deq_ok(&mut d, &m, r)?;
    if r.chance(1, 150) {
        let n = 65_500 + r.us(200);
        op!("push_back and push_front, {n} altogether");
        for i in 0..n {
            let x = i as u64 % 250;
            if i % 3 == 0 {
                d.push_front(T::mk(x));
                m.push_front(x);
            } else {
                d.push_back(T::mk(x));
                m.push_back(x);
            }
        }
        ck!(d.len() == m.len(), "len() is {} instead of {}", d.len(), m.len());
        cki!(d.iter().map(|x| x.v()).eq(m.iter().copied()), "iter() is wrong with {} elements", m.len());
        while m.len() > 100 {
            ck!(d.len() == m.len(), "len() is {} instead of {}", d.len(), m.len());
            let (g, w) = (d.pop_front().map(|e| e.v()), m.pop_front());
            ck!(g == w, "pop_front() is {g:?} instead of {w:?}");
        }
    }
    let style = r.us(6);
    let long = if r.chance(1, 6) { 300 } else { 60 };
    for _ in 0..r.us(long) {
        let k = match style {
            0 => r.us(4),
            1 => 4 + r.us(4),
            2 => [0, 1, 8][r.us(3)],
            3 => [4, 5, 9][r.us(3)],
            _ => r.us(16),
        };
        match k {
            0..=3 => {
                let x = num(r);
                op!("push_back({x})");
                d.push_back(T::mk(x));
                m.push_back(x);
            }
            4..=7 => {
                let x = num(r);
                op!("push_front({x})");
                d.push_front(T::mk(x));
                m.push_front(x);
            }
            8 | 10 => {
                op!("pop_front()");
                let g = d.pop_front().map(|e| e.v());
                let w = m.pop_front();
                ck!(g == w, "pop_front() is {g:?} instead of {w:?}");
            }
            9 | 11 => {
                op!("pop_back()");
                let g = d.pop_back().map(|e| e.v());
                let w = m.pop_back();
                ck!(g == w, "pop_back() is {g:?} instead of {w:?}");
            }
            12 | 13 => {
                let i = if m.is_empty() || r.chance(1, 8) { m.len() + r.us(2) } else { r.us(m.len()) };
                op!("remove({i})");
                let g = d.remove(i).map(|e| e.v());
                let w = m.remove(i);
                ck!(g == w, "remove({i}) is {g:?} instead of {w:?}");
            }
            14 => {
                let x = num(r);
                op!("iter_mut(): add {x}");
                for e in d.iter_mut() {
                    let y = (e.v() + x) % 250;
                    e.set(y);
                }
                for e in m.iter_mut() {
                    *e = (*e + x) % 250;
                }
            }
            _ => {
                let n = r.us(40);
                op!("drain {n} and refill");
                for _ in 0..n {
                    if let Some(x) = m.pop_front() {
                        let g = d.pop_front().map(|e| e.v());
                        ck!(g == Some(x), "pop_front() is {g:?} instead of {x}");
                        d.push_back(T::mk(x));
                        m.push_back(x);
                    }
                }
            }
        }
        deq_ok(&mut d, &m, r)?;
    }
    if r.chance(1, 3) {
        op!("into_iter()");
        let mut it = d.into_iter();
        for _ in 0..r.us(m.len() + 3) {
            let (g, w) = if r.chance(1, 2) { (it.next(), m.pop_front()) } else { (it.next_back(), m.pop_back()) };
            let g = g.map(|x| x.v());
            ck!(g == w, "into_iter() gives {g:?} instead of {w:?}");
        }
    } else if r.chance(1, 2) {
        let (b, e) = d.iter_mut().into_compat_mut();
        let got: Vec<u64> = unsafe { DIterMut::from_compat(b, e) }.take(m.len() + 2).map(|x| x.v()).collect();
        cki!(m.iter().copied().eq(got.iter().copied()), "iter_mut() through compat gives {got:?} instead of {m:?}");
    }
    Ok(())
}

pub fn deque() -> Vec<Case> {
    vec![deque_case::<El<4>>, deque_case::<El<0>>, deque_case::<u32>, deque_case::<El<4>>, deque_case::<u64>, deque_case::<El<2>>]
}

// ------------------------------------------------------------------ queue
fn queue_case<T: Elem>(r: &mut Rng) -> R {
    let mut m = VecDeque::new();
    let mut d: Queue<T, Ck> = if r.chance(1, 3) {
        let s = seq(r, 40);
        op!("from_iter {s:?}");
        m.extend(&s);
        hinted(s.iter().map(|x| T::mk(*x)), r).collect()
    } else {
        Queue::default()
    };
    for _ in 0..r.us(80) {
        if r.chance(3, 5) {
            let x = num(r);
            op!("push({x})");
            d.push(T::mk(x));
            m.push_back(x);
        } else {
            op!("pop()");
            let g = d.pop().map(|e| e.v());
            let w = m.pop_front();
            ck!(g == w, "pop() is {g:?} instead of {w:?}");
        }
        ck!(d.len() == m.len(), "len() is {} instead of {}", d.len(), m.len());
        ck!(d.is_empty() == m.is_empty(), "is_empty() is wrong with {} elements", m.len());
        let t = d.top().map(|x| x.v());
        ck!(t == m.front().copied(), "top() is {t:?} instead of {:?}", m.front());
        let got: Vec<u64> = d.iter().take(m.len() + 2).map(|x| x.v()).collect();
        ck!(m.iter().copied().eq(got.iter().copied()), "iter() gives {got:?} instead of {m:?}");
        let got: Vec<u64> = d.iter_mut().rev().take(m.len() + 2).map(|x| x.v()).collect();
        ck!(m.iter().rev().copied().eq(got.iter().copied()), "iter_mut().rev() gives {got:?} for {m:?}");
        mem_ok()?;
    }
    match r.us(3) {
        0 => {
            op!("into_iter()");
            let got: Vec<u64> = d.into_iter().map(|x| x.v()).collect();
            ck!(m.iter().copied().eq(got.iter().copied()), "into_iter() gives {got:?} instead of {m:?}");
        }
        1 => {
            op!("into_inner()");
            let mut q = d.into_inner();
            deq_ok(&mut q, &m, r)?;
        }
        _ => {}
    }
    Ok(())
}

pub fn queue() -> Vec<Case> {
    vec![queue_case::<El<4>>, queue_case::<El<0>>, queue_case::<u32>]
}

// ------------------------------------------------------------------ fixed vector
fn fixed_vector_case<T: Elem, const N: usize>(r: &mut Rng) -> R {
    let mut m: Vec<u64> = Vec::new();
    moveit! { let mut v = unsafe { FixedVector::<T, N, Ck>::new() }; }
    let mut over = false;
    ck!(v.max_size() == N, "max_size() is {}", v.max_size());
    ck!(v.capacity() == N && v.is_empty() && !v.has_overflowed(), "a new fixed vector has capacity {} of {N}", v.capacity());
    let v: &mut FixedVector<T, N, Ck> = unsafe { std::pin::Pin::into_inner_unchecked(v.as_mut()) };
    for _ in 0..r.us(30) {
        match r.us(10) {
            0..=3 => {
                let x = num(r);
                op!("push({x})");
                if m.len() == v.capacity() {
                    over = true;
                }
                v.push(T::mk(x));
                m.push(x);
            }
            4 => {
                op!("pop()");
                let g = v.pop().map(|e| e.v());
                let w = m.pop();
                ck!(g == w, "pop() is {g:?} instead of {w:?}");
            }
            5 => {
                let i = r.us(m.len() + 1);
                let x = num(r);
                op!("insert({i}, {x})");
                if m.len() == v.capacity() {
                    over = true;
                }
                v.insert(i, T::mk(x));
                m.insert(i, x);
            }
            6 => {
                let i = r.us(m.len() + 2);
                op!("remove({i})");
                let g = v.remove(i).map(|e| e.v());
                let w = if i < m.len() { Some(m.remove(i)) } else { None };
                ck!(g == w, "remove({i}) is {g:?} instead of {w:?}");
            }
            7 => {
                let s = seq(r, 4);
                op!("append({s:?})");
                if m.len() + s.len() > v.capacity() {
                    over = true;
                }
                v.append(&els::<T>(&s));
                m.extend(&s);
            }
            8 => {
                if r.chance(1, 4) {
                    op!("clear()");
                    v.clear();
                    m.clear();
                    over = false;
                }
            }
            _ => {
                let s = seq(r, N + 2);
                op!("assign({s:?})");
                if s.len() > v.capacity() {
                    over = true;
                }
                v.assign(&els::<T>(&s));
                m = s;
            }
        }
        vec_ok(&**v, &m)?;
        ck!(v.has_overflowed() == over, "has_overflowed() is {} but should be {over}", v.has_overflowed());
        ckm!(blocks() == over as usize, "{} blocks are allocated (overflowed: {over})", blocks());
        ck!(vals(v.as_ref()) == m, "as_ref() is wrong");
    }
    Ok(())
}

/// moves are done by hand: the source is leaked storage
fn fixed_vector_move<T: Elem, const N: usize>(r: &mut Rng) -> R {
    use std::pin::Pin;
    let mut m: Vec<u64> = Vec::new();
    let mut cur: Box<MaybeUninit<FixedVector<T, N, Ck>>> = Box::new(MaybeUninit::uninit());
    unsafe {
        use moveit::New;
        FixedVector::<T, N, Ck>::new().new(Pin::new_unchecked(&mut *cur));
    }
    for _ in 0..r.us(5) + 1 {
        let n = if r.chance(1, 3) { r.us(2 * N + 2) } else { r.us(N + 1) };
        let v = unsafe { cur.assume_init_mut() };
        for _ in 0..n {
            let x = num(r);
            op!("push({x})");
            v.push(T::mk(x));
            m.push(x);
        }
        for _ in 0..r.us(4) {
            op!("pop()");
            let g = v.pop().map(|e| e.v());
            let w = m.pop();
            ck!(g == w, "pop() is {g:?} instead of {w:?}");
        }
        if r.chance(1, 6) {
            op!("clear()");
            v.clear();
            m.clear();
            if N > 0 {
                vec_ok(&**v, &m)?;
                break;
            }
        }
        vec_ok(&**v, &m)?;
        let (cap, over) = (v.capacity(), v.has_overflowed());
        op!("move (overflowed: {over})");
        let mut to: Box<MaybeUninit<FixedVector<T, N, Ck>>> = Box::new(MaybeUninit::uninit());
        unsafe { std::ptr::write_bytes(to.as_mut_ptr() as *mut u8, 0, std::mem::size_of::<FixedVector<T, N, Ck>>()) };
        move_into(v, &mut to);
        // the old place has been dropped by the move; scribble over it
        unsafe {
            std::ptr::write_bytes(cur.as_mut_ptr() as *mut u8, 0xEE, std::mem::size_of::<FixedVector<T, N, Ck>>());
        }
        cur = to;
        let v = unsafe { cur.assume_init_mut() };
        vec_ok(&**v, &m)?;
        ck!(v.capacity() == cap, "capacity after a move is {} instead of {cap}", v.capacity());
        ck!(v.has_overflowed() == over, "has_overflowed() after a move is {} instead of {over}", v.has_overflowed());
    }
    unsafe { std::ptr::drop_in_place(cur.as_mut_ptr()) };
    Ok(())
}

fn move_into<T: Elem, const N: usize>(src: &mut FixedVector<T, N, Ck>, to: &mut MaybeUninit<FixedVector<T, N, Ck>>) {
    use moveit::drop_flag::DroppingFlag;
    use std::pin::Pin;
    let flag = DroppingFlag::new(());
    let (_, f) = DroppingFlag::as_parts(&flag);
    unsafe {
        let m = moveit::MoveRef::new_unchecked(src, f);
        FixedVector::move_new(moveit::MoveRef::into_pin(m), Pin::new_unchecked(to));
    }
}

pub fn fixed_vector() -> Vec<Case> {
    vec![fixed_vector_case::<El<0>, 4>, fixed_vector_case::<u32, 10>, fixed_vector_move::<El<0>, 4>, fixed_vector_move::<u32, 3>, fixed_vector_case::<El<0>, 1>]
}
