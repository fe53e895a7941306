//! Runs random operation sequences of a container against a simple model of it.
//! replay SUITE SEED FIRST COUNT [--trace]
//! Prints `FAIL kind case message` for the first failing case.
#[macro_use]
mod kit;
mod hashing;
mod lists;
mod maps;
mod seqs;
mod trees;
#[cfg(feature = "links")]
mod links;
#[cfg(feature = "pools")]
#[path = "/repo/src/fixed_pool/mod.rs"]
#[allow(dead_code, clippy::all)]
mod fixed_pool;
#[cfg(feature = "pools")]
mod pools;
#[cfg(feature = "pools")]
#[allow(unused_imports)]
mod allocator {
    pub use eastl_rs::allocator::*;
}

use kit::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

extern "C" {
    fn signal(n: i32, f: usize) -> usize;
    fn _exit(n: i32) -> !;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn alarm(n: u32) -> u32;
    fn sigaltstack(a: *const Stack, b: *mut Stack) -> i32;
    fn sigaction(n: i32, a: *const Act, b: *mut Act) -> i32;
}

#[repr(C)]
struct Stack {
    sp: *mut u8,
    flags: i32,
    size: usize,
}

#[repr(C)]
struct Act {
    f: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

extern "C" fn crash(n: i32) {
    let mut b = [0u8; 64];
    let head: &[u8] = if n == 14 { b"\nFAIL Hang " } else { b"\nFAIL Crash " };
    let mut k = head.len();
    b[..k].copy_from_slice(head);
    let mut c = CASE.load(Ordering::Relaxed);
    let mut d = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        d[i] = b'0' + (c % 10) as u8;
        c /= 10;
        if c == 0 {
            break;
        }
    }
    for x in &d[i..] {
        b[k] = *x;
        k += 1;
    }
    let tail = b" signal\n";
    b[k..k + tail.len()].copy_from_slice(tail);
    unsafe {
        write(1, b.as_ptr(), k + tail.len());
        _exit(3)
    }
}

#[global_allocator]
static GLOBAL: hashing::Watch = hashing::Watch;

type Case = fn(&mut Rng) -> R;

fn suite(n: &str) -> Option<Vec<Case>> {
    Some(match n {
        "vector" => seqs::vector(),
        "string" => seqs::string(),
        "deque" => seqs::deque(),
        "queue" => seqs::queue(),
        "fixed_vector" => seqs::fixed_vector(),
        "list" => lists::list(),
        "fixed_list" => lists::fixed_list(),
        "hash_map" => maps::hash_map(),
        "hash_set" => maps::hash_set(),
        "vector_map" => maps::vector_map(),
        "hash" => hashing::hash(),
        "map" => trees::map(),
        #[cfg(feature = "links")]
        "links" => links::links(),
        #[cfg(feature = "pools")]
        "pool" => pools::pools(),
        "alloc" => hashing::alloc(),
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cases = match suite(&a[1]) {
        Some(c) => c,
        None => {
            println!("OK cases=0 ops=0 busy=0");
            return;
        }
    };
    let seed: u64 = a[2].parse().unwrap();
    let first: u64 = a[3].parse().unwrap();
    let count: u64 = a[4].parse().unwrap();
    if a.iter().any(|x| x == "--trace") {
        TRACE.with(|t| *t.borrow_mut() = Some(true));
    }
    unsafe {
        signal(6, crash as *const () as usize);
        signal(4, crash as *const () as usize);
        signal(5, crash as *const () as usize);
        signal(8, crash as *const () as usize);
        signal(14, crash as *const () as usize);
        let st = Box::leak(vec![0u8; 1 << 16].into_boxed_slice());
        sigaltstack(&Stack { sp: st.as_mut_ptr(), flags: 0, size: st.len() }, std::ptr::null_mut());
        for n in [7, 11] {
            sigaction(n, &Act { f: crash as *const () as usize, mask: [0; 16], flags: 0x08000000, restorer: 0 }, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let kinds = a.iter().find_map(|x| x.strip_prefix("--kinds=")).unwrap_or("").to_string();
    kit::ONLY_PLACE.store(kinds == "Place", Ordering::Relaxed);
    kit::PLACE.store(kinds.is_empty() || kinds.split(',').any(|x| x == "Place"), Ordering::Relaxed);
    let mut other = 0;
    let mut ops = 0;
    let mut busy = 0;
    for i in first..first + count {
        CASE.store(i, Ordering::Relaxed);
        unsafe { alarm(20) };
        reset();
        let f = cases[(i % cases.len() as u64) as usize];
        let mut r = Rng::new(seed, i);
        let res = catch_unwind(AssertUnwindSafe(|| f(&mut r)));
        let res = match res {
            Ok(Ok(())) => all_gone(),
            Ok(e) => e,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if m.contains("replay: allocation too large") {
                    Err((Kind::Mem, m))
                } else {
                    Err((Kind::Sem, format!("panic: {}", m.replace('\n', " "))))
                }
            }
        };
        let n = OPS.with(|o| o.get());
        ops += n;
        if n > 3 {
            busy += 1;
        }
        if let Err((k, m)) = res {
            let ks = format!("{k:?}");
            if !kinds.is_empty() && !kinds.split(',').any(|x| x == ks) {
                other += 1;
                continue;
            }
            println!("\nFAIL {k:?} {i} {m}");
            unsafe { _exit(1) };
        }
    }
    println!("OK cases={count} ops={ops} busy={busy} other={other}");
}
