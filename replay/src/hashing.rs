use crate::kit::*;

use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::{Allocator, Compare, DefaultAllocator, EqualTo, Equals, Greater, Less, String as EString};
use std::ffi::{c_char, CString};

type Case = fn(&mut Rng) -> R;

fn fnv(s: &[u8]) -> usize {
    let mut h: u32 = 2166136261;
    for c in s {
        h = h.wrapping_mul(16777619) ^ *c as u32;
    }
    h as usize
}

fn hash_case(r: &mut Rng) -> R {
    let x = match r.us(4) {
        0 => r.below(300),
        1 => 1u64 << r.us(64),
        2 => (1u64 << r.us(64)).wrapping_sub(1),
        _ => r.next(),
    };
    op!("hash of {x}");
    macro_rules! int {
        ($($t:ty),*) => { $(
            let v = x as $t;
            let g = DefaultHash::<$t>::hash(&v);
            ck!(g == v as usize, "hash({v}) of {} is {g}", stringify!($t));
        )* };
    }
    int!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
    ck!(DefaultHash::<bool>::hash(&true) == 1 && DefaultHash::<bool>::hash(&false) == 0, "hash of bool is wrong");
    let f = (x as i64 / 1000) as f64 / 8.0;
    ck!(DefaultHash::<f64>::hash(&f) == f as usize, "hash({f}) is wrong");
    ck!(DefaultHash::<f32>::hash(&(f as f32)) == f as f32 as usize, "hash({f}) is wrong");
    let n = r.us(12);
    let s: String = (0..n).map(|_| ['a', 'Z', '\u{1}', 'é', '中', '😀', '\u{7f}'][r.us(7)]).collect();
    op!("hash of {s:?}");
    let w = fnv(s.as_bytes());
    let g = DefaultHash::<str>::hash(&s);
    ck!(g == w, "hash({s:?}) is {g} instead of {w}");
    let g = DefaultHash::<&str>::hash(&s.as_str());
    ck!(g == w, "hash(&{s:?}) is {g} instead of {w}");
    let c = CString::new(s.clone()).unwrap();
    let g = DefaultHash::<*const c_char>::hash(&c.as_ptr());
    ck!(g == w, "hash of the C string {s:?} is {g} instead of {w}");
    let e: EString<Ck> = EString::from(s.as_str());
    let g = DefaultHash::<EString<Ck>>::hash(&e);
    ck!(g == w, "hash of the string {s:?} is {g} instead of {w}");
    drop(e);
    let (a, b) = (r.below(4), r.below(4));
    ck!(Less::compare(&a, &b) == (a < b) && Greater::compare(&a, &b) == (a > b), "comparison of {a} and {b} is wrong");
    ck!(<EqualTo<u64> as Equals<u64>>::equals(&a, &b) == (a == b), "equality of {a} and {b} is wrong");
    Ok(())
}

pub fn hash() -> Vec<Case> {
    vec![hash_case]
}

// ------------------------------------------------------------------ allocators
struct Rec(Vec<(bool, usize, usize)>);
unsafe impl Allocator for Rec {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        self.0.push((true, n, align));
        4096 as *mut ()
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        self.0.push((p as usize == 4096, n, align));
    }
}

#[repr(C, align(64))]
struct Wide([u8; 128]);

fn provided<T>(r: &mut Rng) -> R {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let mut a = Rec(vec![]);
    let n = r.us(1000);
    let (s, al) = (std::mem::size_of::<T>(), std::mem::align_of::<T>());
    let p: *mut T = a.allocate(n);
    ckm!(p as usize == 4096 && a.0 == [(true, n * s, al)], "allocate({n}) asks for {:?}", a.0);
    unsafe { a.deallocate(p, n) };
    ckm!(a.0[1] == (true, n * s, al), "deallocate({n}) gives back {:?}", a.0[1]);
    let q = a.allocate_raw(n);
    ckm!(q as usize == 4096 && a.0[2] == (true, n, 8), "allocate_raw({n}) asks for {:?}", a.0[2]);
    unsafe { a.deallocate_raw(q, n) };
    ckm!(a.0[3] == (true, n, 8), "deallocate_raw({n}) gives back {:?}", a.0[3]);
    if s > 1 {
        let m = usize::MAX / s + 1 + r.us(9);
        let mut a = Rec(vec![]);
        ckm!(catch_unwind(AssertUnwindSafe(|| { a.allocate::<T>(m); })).is_err(), "allocate({m}) of {s} bytes does not panic");
    }
    Ok(())
}

fn alloc_case(r: &mut Rng) -> R {
    provided::<u8>(r)?;
    provided::<u32>(r)?;
    provided::<Wide>(r)?;
    provided::<[u64; 3]>(r)?;
    let mut a = DefaultAllocator::default();
    let mut live: Vec<(usize, usize, usize, u8)> = vec![];
    for i in 0..r.us(30) {
        if r.chance(2, 3) {
            let n = 1 + r.us(200);
            let al = 1usize << r.us(8);
            op!("allocate {n} aligned {al}");
            let p = a.allocate_raw_aligned(n, al) as usize;
            ckm!(p != 0 && p % al == 0, "a block at {p:x} for alignment {al}");
            for (q, m, _, _) in &live {
                ckm!(p + n <= *q || *q + *m <= p, "two blocks overlap");
            }
            unsafe { std::ptr::write_bytes(p as *mut u8, i as u8, n) };
            live.push((p, n, al, i as u8));
        } else if !live.is_empty() {
            let (p, n, al, x) = live.swap_remove(r.us(live.len()));
            op!("deallocate {n} aligned {al}");
            ckm!(unsafe { std::slice::from_raw_parts(p as *const u8, n) }.iter().all(|b| *b == x), "a block has changed");
            unsafe { a.deallocate_raw_aligned(p as *mut (), n, al) };
        }
    }
    for (p, n, al, _) in live {
        unsafe { a.deallocate_raw_aligned(p as *mut (), n, al) };
    }
    Ok(())
}

// ------------------------------------------------------------------ layouts the global allocator sees
pub struct Watch;
thread_local! { static SEEN: std::cell::RefCell<(bool, Vec<(bool, usize, usize, usize)>)> = const { std::cell::RefCell::new((false, Vec::new())) }; }

fn note(e: (bool, usize, usize, usize)) {
    let _ = SEEN.try_with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            if s.0 && s.1.len() < s.1.capacity() {
                s.1.push(e);
            }
        }
    });
}

unsafe impl std::alloc::GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        note((true, p as usize, l.size(), l.align()));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        note((false, p as usize, l.size(), l.align()));
        std::alloc::System.dealloc(p, l)
    }
}

fn layouts(r: &mut Rng) -> R {
    let n = 1 + r.us(300);
    let al = 1usize << r.us(10);
    op!("allocate and deallocate {n} aligned {al}");
    SEEN.with(|s| *s.borrow_mut() = (true, Vec::with_capacity(64)));
    let mut a = DefaultAllocator::default();
    let p = a.allocate_raw_aligned(n, al);
    unsafe { a.deallocate_raw_aligned(p, n, al) };
    let got = SEEN.with(|s| { s.borrow_mut().0 = false; s.borrow().1.clone() });
    ckm!(got == [(true, p as usize, n, al), (false, p as usize, n, al)], "the global allocator sees {:?} for {n} bytes aligned to {al}", got);
    Ok(())
}

/// what a string asks for, it gives back
fn of_string(r: &mut Rng) -> R {
    let n = r.us(20);
    op!("a string with room for {n}");
    let mut s: EString<Ck> = EString::with_capacity(n);
    if r.chance(1, 2) {
        s.reserve(1 + r.us(20));
    }
    drop(s);
    mem_ok()
}

pub fn alloc() -> Vec<Case> {
    vec![alloc_case, layouts, of_string]
}
