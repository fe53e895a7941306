//! The fixed pools: their source files are compiled into this program, as they are private to the crate.
use crate::fixed_pool::{with_overflow::FixedPoolWithOverflow, FixedPool, PoolAllocator};
use crate::kit::*;
use crate::Case;
use eastl_rs::Allocator;
use std::mem::{align_of, size_of};

#[allow(dead_code)]
struct N3([u64; 3]);
#[allow(dead_code)]
#[repr(align(32))]
struct Wide([u8; 40]);
#[allow(dead_code)]
#[repr(align(8))]
struct Odd([u8; 20]);

/// memory of an odd place and size, and where nodes fit into it
fn place<T>(r: &mut Rng, store: &mut Vec<u8>) -> (usize, usize, usize, usize) {
    let (s, a) = (size_of::<T>(), align_of::<T>());
    let at = store.as_mut_ptr() as usize + r.us(70);
    let first = at.div_ceil(a) * a;
    let len = (first - at) + if r.chance(1, 8) { 0 } else { r.us(6 * s) };
    (at, len, first, (len - (first - at)) / s)
}

fn pool_case<T>(r: &mut Rng) -> R {
    let mut store = vec![0u8; 2048];
    let (at, len, first, room) = place::<T>(r, &mut store);
    let (s, a) = (size_of::<T>(), align_of::<T>());
    op!("pool of {len} bytes at {} past the alignment, {room} nodes of {s} bytes", at % a);
    let m = unsafe { std::slice::from_raw_parts_mut(at as *mut u8, len) };
    let mut p: FixedPool<T> = if r.chance(1, 2) {
        unsafe { FixedPool::new(m) }
    } else {
        let mut p = FixedPool::default();
        ck!(!p.can_allocate(), "a pool without memory can allocate");
        unsafe { p.init(m) };
        p
    };
    let mut live: Vec<(usize, u8)> = vec![];
    for i in 0..r.us(60) {
        ck!(p.can_allocate() == (live.len() < room), "can_allocate() is {} with {} of {room} nodes in use", p.can_allocate(), live.len());
        if r.chance(3, 5) {
            let q = p.allocate_raw_aligned(s, a) as usize;
            op!("allocate: {}", if q == 0 { -1 } else { q as i64 - first as i64 });
            ck!((q == 0) == (live.len() == room), "a node is {} with {} of {room} in use", if q == 0 { "refused" } else { "given" }, live.len());
            if q == 0 {
                continue;
            }
            ck!(q % a == 0, "a node at {q:x} is not aligned to {a}");
            ck!(q >= at && q + s <= at + len, "a node lies outside the memory of the pool");
            ck!(live.iter().all(|(o, _)| q + s <= *o || *o + s <= q), "a node overlaps one in use");
            unsafe { std::ptr::write_bytes(q as *mut u8, i as u8, s) };
            live.push((q, i as u8));
        } else if !live.is_empty() {
            let (q, x) = live.swap_remove(r.us(live.len()));
            op!("deallocate {}", q - first);
            ck!(unsafe { std::slice::from_raw_parts(q as *const u8, s) }.iter().all(|b| *b == x), "a node in use has changed");
            unsafe { p.deallocate_raw_aligned(q as *mut (), s, a) };
        }
    }
    Ok(())
}

fn overflow_case<T>(r: &mut Rng) -> R {
    let mut store = vec![0u8; 2048];
    let (at, len, first, room) = place::<T>(r, &mut store);
    let (s, a) = (size_of::<T>(), align_of::<T>());
    op!("pool of {len} bytes at {} past the alignment, {room} nodes of {s} bytes", at % a);
    let m = unsafe { std::slice::from_raw_parts_mut(at as *mut u8, len) };
    let mut room = room;
    let mut p: FixedPoolWithOverflow<T, Ck> = match r.us(4) {
        0 => unsafe { FixedPoolWithOverflow::new(m, Ck::default()) },
        1 => unsafe { FixedPoolWithOverflow::new_with_default_allocator(m) },
        2 => unsafe {
            let mut p = FixedPoolWithOverflow::with_allocator(Ck::default());
            if r.chance(1, 2) {
                p.init(m);
            } else {
                room = 0;
            }
            p
        },
        _ => unsafe {
            let mut p = FixedPoolWithOverflow::default();
            p.init(m);
            p
        },
    };
    let inside = |q: usize| q >= at && q + s <= at + len;
    let mut live: Vec<(usize, u8)> = vec![];
    for i in 0..r.us(60) {
        let used = live.iter().filter(|x| inside(x.0)).count();
        ck!(blocks() == live.len() - used, "{} blocks for {} nodes outside the pool", blocks(), live.len() - used);
        ck!(p.can_allocate() == (used < room), "can_allocate() is {} with {used} of {room} nodes in use", p.can_allocate());
        if r.chance(3, 5) {
            let q = p.allocate_raw_aligned(s, a) as usize;
            op!("allocate: {}", if inside(q) { (q - first).to_string() } else { "outside".into() });
            ck!(inside(q) == (used < room), "a node is {} the pool with {used} of {room} in use", if inside(q) { "inside" } else { "outside" });
            ck!(q % a == 0, "a node at {q:x} is not aligned to {a}");
            ck!(live.iter().all(|(o, _)| q + s <= *o || *o + s <= q), "a node overlaps one in use");
            unsafe { std::ptr::write_bytes(q as *mut u8, i as u8, s) };
            live.push((q, i as u8));
        } else if !live.is_empty() {
            let (q, x) = live.swap_remove(r.us(live.len()));
            op!("deallocate {}", if inside(q) { (q - first).to_string() } else { "outside".into() });
            ck!(unsafe { std::slice::from_raw_parts(q as *const u8, s) }.iter().all(|b| *b == x), "a node in use has changed");
            unsafe { p.deallocate_raw_aligned(q as *mut (), s, a) };
        }
        mem_ok()?;
    }
    for (q, _) in live {
        unsafe { p.deallocate_raw_aligned(q as *mut (), s, a) };
    }
    ck!(blocks() == 0, "{} blocks were not given back", blocks());
    mem_ok()
}

pub fn pools() -> Vec<Case> {
    vec![pool_case::<u64>, overflow_case::<u64>, pool_case::<N3>, overflow_case::<N3>, pool_case::<Wide>, overflow_case::<Wide>, pool_case::<Odd>, overflow_case::<Odd>]
}
