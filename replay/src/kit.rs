//! What every suite shares: random numbers, a trace of operations, an allocator that checks how it is
//! used, and elements that know whether they are alive.
use eastl_rs::Allocator;
use std::alloc::Layout;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

pub static CASE: AtomicU64 = AtomicU64::new(0);

/// what kind of guarantee a failure breaks
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// contents, results
    Sem,
    /// memory and ownership
    Mem,
    /// order of iteration
    Iter,
    /// where the elements of a table are
    Place,
}

/// only where elements are is of interest: the rest is not looked at
pub static ONLY_PLACE: AtomicBool = AtomicBool::new(false);
pub static PLACE: AtomicBool = AtomicBool::new(true);

pub fn wants(k: Kind) -> bool {
    match k {
        Kind::Place => PLACE.load(Ordering::Relaxed),
        _ => !ONLY_PLACE.load(Ordering::Relaxed),
    }
}

pub type Fail = (Kind, String);
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => {
        if !($c) && $crate::kit::wants($crate::kit::Kind::Sem) { return Err(($crate::kit::Kind::Sem, format!($($a)*))); }
    };
}
#[macro_export]
macro_rules! cki {
    ($c:expr, $($a:tt)*) => {
        if !($c) && $crate::kit::wants($crate::kit::Kind::Iter) { return Err(($crate::kit::Kind::Iter, format!($($a)*))); }
    };
}
#[macro_export]
macro_rules! ckp {
    ($c:expr, $($a:tt)*) => {
        if $crate::kit::wants($crate::kit::Kind::Place) && !($c) { return Err(($crate::kit::Kind::Place, format!($($a)*))); }
    };
}
#[macro_export]
macro_rules! ckm {
    ($c:expr, $($a:tt)*) => {
        if !($c) { return Err(($crate::kit::Kind::Mem, format!($($a)*))); }
    };
}

pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, case: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, a: u64, b: u64) -> bool {
        self.below(b) < a
    }
}

thread_local! {
    pub static TRACE: RefCell<Option<bool>> = const { RefCell::new(None) };
    pub static OPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static HEAP: RefCell<Heap> = RefCell::new(Heap::default());
    static LIVE: RefCell<Lives> = RefCell::new(Lives::default());
}

pub fn tracing() -> bool {
    TRACE.with(|t| t.borrow().is_some())
}

pub fn say(s: impl FnOnce() -> String) {
    OPS.with(|o| o.set(o.get() + 1));
    if tracing() {
        use std::io::Write;
        let mut o = std::io::stdout().lock();
        let _ = writeln!(o, "  {}", s());
        let _ = o.flush();
    }
}

#[macro_export]
macro_rules! op {
    ($($a:tt)*) => { $crate::kit::say(|| format!($($a)*)) };
}

// ------------------------------------------------------------------ allocator
#[derive(Default)]
struct Heap {
    live: HashMap<usize, (usize, usize)>,
    dead: Vec<(usize, usize, usize)>,
    error: Option<String>,
    count: u64,
}

const RED: usize = 64;

/// An allocator that remembers what it handed out. Every block has red zones; freed blocks stay poisoned
/// until the case is over.
#[derive(Clone, Copy, Default)]
#[repr(C)]
pub struct Ck {
    _pad: u8,
}

fn heap_error(h: &mut Heap, s: String) {
    if h.error.is_none() {
        h.error = Some(s);
    }
}

unsafe impl Allocator for Ck {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        HEAP.with(|h| {
            let mut h = h.borrow_mut();
            h.count += 1;
            if n == 0 {
                heap_error(&mut h, "allocation of no bytes".into());
            }
            if n > 1 << 30 {
                panic!("replay: allocation too large");
            }
            let a = align.max(16);
            let pad = RED.max(a);
            unsafe {
                let b = std::alloc::alloc(Layout::from_size_align(n + pad + RED, a).unwrap());
                std::ptr::write_bytes(b, 0xFD, pad);
                std::ptr::write_bytes(b.add(pad), 0xA5, n);
                std::ptr::write_bytes(b.add(pad + n), 0xFD, RED);
                let p = b.add(pad);
                h.live.insert(p as usize, (n, align));
                p.cast()
            }
        })
    }

    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        HEAP.with(|h| {
            let mut h = h.borrow_mut();
            match h.live.remove(&(p as usize)) {
                None => heap_error(&mut h, format!("deallocation of a block that is not allocated (size {n})")),
                Some((m, a)) => {
                    if m != n || a != align {
                        heap_error(&mut h, format!("block of {m} bytes (align {a}) deallocated as {n} bytes (align {align})"));
                    }
                    check_red(&mut h, p as usize, m, a);
                    std::ptr::write_bytes(p as *mut u8, 0xDD, m);
                    h.dead.push((p as usize, m, a));
                }
            }
        })
    }
}

unsafe fn check_red(h: &mut Heap, p: usize, n: usize, align: usize) {
    let pad = RED.max(align.max(16));
    let low = std::slice::from_raw_parts((p - pad) as *const u8, pad);
    let high = std::slice::from_raw_parts((p + n) as *const u8, RED);
    if low.iter().any(|b| *b != 0xFD) {
        heap_error(h, format!("write before a block of {n} bytes"));
    }
    if high.iter().any(|b| *b != 0xFD) {
        heap_error(h, format!("write past a block of {n} bytes"));
    }
}

/// number of live blocks
pub fn blocks() -> usize {
    HEAP.with(|h| h.borrow().live.len())
}

/// how many blocks were ever allocated in this case
pub fn allocs() -> u64 {
    HEAP.with(|h| h.borrow().count)
}

/// does p lie in a live block?
pub fn in_heap(p: usize) -> bool {
    HEAP.with(|h| h.borrow().live.iter().any(|(b, (n, _))| *b <= p && p < *b + *n))
}

pub fn mem_ok() -> R {
    HEAP.with(|h| {
        let mut h = h.borrow_mut();
        let all: Vec<_> = h.live.iter().map(|(p, (n, a))| (*p, *n, *a)).collect();
        for (p, n, a) in all {
            unsafe { check_red(&mut h, p, n, a) }
        }
        match &h.error {
            Some(e) => Err((Kind::Mem, e.clone())),
            None => Ok(()),
        }
    })?;
    LIVE.with(|l| match &l.borrow().error {
        Some(e) => Err((Kind::Mem, e.clone())),
        None => Ok(()),
    })
}

/// at the end of a case everything must be gone, and freed memory untouched
pub fn all_gone() -> R {
    mem_ok()?;
    HEAP.with(|h| {
        let h = h.borrow();
        if !h.live.is_empty() {
            return Err((Kind::Mem, format!("{} blocks are leaked", h.live.len())));
        }
        for (p, n, _) in &h.dead {
            let s = unsafe { std::slice::from_raw_parts(*p as *const u8, *n) };
            if s.iter().any(|b| *b != 0xDD) {
                return Err((Kind::Mem, format!("write to a freed block of {n} bytes")));
            }
        }
        Ok(())
    })?;
    LIVE.with(|l| {
        let l = l.borrow();
        if !l.live.is_empty() {
            return Err((Kind::Mem, format!("{} elements are never dropped", l.live.len())));
        }
        Ok(())
    })
}

pub fn reset() {
    HEAP.with(|h| {
        let mut h = h.borrow_mut();
        for (p, n, a) in std::mem::take(&mut h.dead) {
            let a = a.max(16);
            let pad = RED.max(a);
            unsafe { std::alloc::dealloc((p - pad) as *mut u8, Layout::from_size_align(n + pad + RED, a).unwrap()) }
        }
        *h = Heap::default();
    });
    LIVE.with(|l| *l.borrow_mut() = Lives::default());
    OPS.with(|o| o.set(0));
}

// ------------------------------------------------------------------ elements
#[derive(Default)]
struct Lives {
    live: HashSet<u64>,
    next: u64,
    error: Option<String>,
}

pub trait Elem: Clone + PartialEq + PartialOrd + Debug + 'static {
    fn mk(v: u64) -> Self;
    fn v(&self) -> u64;
    fn set(&mut self, v: u64);
    /// extend by borrowed items, where the element type can
    fn extend_refs<A: Allocator + Default>(_: &mut eastl_rs::List<Self, A>, _: &[u64]) -> bool
    where
        Self: Sized,
    {
        false
    }
}

macro_rules! plain {
    ($($t:ty),*) => { $(impl Elem for $t {
        fn mk(v: u64) -> Self { v as $t }
        fn v(&self) -> u64 { *self as u64 }
        fn set(&mut self, v: u64) { *self = v as $t }
        fn extend_refs<A: Allocator + Default>(l: &mut eastl_rs::List<Self, A>, s: &[u64]) -> bool {
            let v: Vec<Self> = s.iter().map(|x| Self::mk(*x)).collect();
            l.extend(v.iter());
            true
        }
    })* };
}
plain!(u8, u16, u32, u64);

/// an element that is counted: 16 + 8 * W bytes
pub struct El<const W: usize> {
    id: u64,
    val: u64,
    pad: [u64; W],
}

const MAGIC: u64 = 0x5EED_0000_0000_0000;

fn life_error(s: String) {
    LIVE.with(|l| {
        let mut l = l.borrow_mut();
        if l.error.is_none() {
            l.error = Some(s);
        }
    })
}

impl<const W: usize> El<W> {
    fn check(&self, what: &str) {
        let ok = LIVE.with(|l| l.borrow().live.contains(&self.id));
        if !ok {
            life_error(format!("{what} of an element that is not there (id {:x})", self.id));
        }
        if self.pad.iter().any(|p| *p != self.id) {
            life_error(format!("{what} of a torn element (id {:x})", self.id));
        }
    }
}

impl<const W: usize> Elem for El<W> {
    fn mk(v: u64) -> Self {
        let id = LIVE.with(|l| {
            let mut l = l.borrow_mut();
            l.next += 1;
            let id = MAGIC + l.next;
            l.live.insert(id);
            id
        });
        El { id, val: v, pad: [id; W] }
    }
    fn v(&self) -> u64 {
        self.check("use");
        self.val
    }
    fn set(&mut self, v: u64) {
        self.check("use");
        self.val = v;
    }
}

impl<const W: usize> Clone for El<W> {
    fn clone(&self) -> Self {
        self.check("clone");
        El::mk(self.val)
    }
}

impl<const W: usize> Drop for El<W> {
    fn drop(&mut self) {
        let ok = LIVE.with(|l| l.borrow_mut().live.remove(&self.id));
        if !ok {
            life_error(format!("drop of an element that is not there (id {:x})", self.id));
        }
    }
}

impl<const W: usize> PartialEq for El<W> {
    fn eq(&self, o: &Self) -> bool {
        self.check("comparison");
        o.check("comparison");
        self.val == o.val
    }
}

impl<const W: usize> PartialOrd for El<W> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.check("comparison");
        o.check("comparison");
        self.val.partial_cmp(&o.val)
    }
}

impl<const W: usize> Debug for El<W> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.val)
    }
}

/// an iterator that knows more or less about how many items it has left
pub struct Hint<I>(pub I, pub u64);
pub fn hinted<I: ExactSizeIterator>(it: I, r: &mut Rng) -> Hint<I> {
    Hint(it, r.below(5))
}
impl<I: ExactSizeIterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 {
            0 => (n, Some(n)),
            1 => (0, Some(n)),
            2 => (n / 2, Some(2 * n + 1)),
            3 => (n, None),
            _ => (0, None),
        }
    }
}
