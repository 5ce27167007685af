//! Symbolic intrinsics and their native stand-ins.

/// Stable id of a check or witness, computed from its text.
pub const fn id(s: &str) -> u32 {
    let b = s.as_bytes();
    let mut h: u32 = 0x811c_9dc5;
    let mut i = 0;
    while i < b.len() {
        h ^= b[i] as u32;
        h = h.wrapping_mul(0x0100_0193);
        i += 1;
    }
    h
}

/// The property: must hold for every input that reaches it.
macro_rules! check {
    ($c:expr, $m:literal) => {{
        const ID: u32 = $crate::sym::id($m);
        $crate::sym::check($c, ID, $m)
    }};
}
/// Vacuity witness: some input must reach it.
macro_rules! reach {
    ($m:literal) => {{
        const ID: u32 = $crate::sym::id($m);
        $crate::sym::reach(ID)
    }};
}

/// Defines the entries of a property. Every entry takes one concrete parameter
/// (a case number); all other inputs are symbolic.
macro_rules! entries {
    ($($(#[$a:meta])* fn $n:ident($p:ident) $b:block)*) => {
        $(
            $(#[$a])*
            #[no_mangle]
            pub extern "C" fn $n($p: u64) { let _ = $p; $b }
        )*
        pub fn run(name: &str, p: u64) -> bool {
            $( if name == stringify!($n) { $n(p); return true; } )*
            let _ = p;
            false
        }
    };
}

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn sym_bytes(p: *mut u8, n: usize);
        fn sym_assume(c: bool);
        fn sym_check(c: bool, id: u32);
        fn sym_reach(id: u64);
        fn sym_obs(v: u64);
        fn sym_concrete(v: u64) -> u64;
        fn sym_fork(c: bool) -> bool;
        fn sym_heap_reset();
        fn sym_heap_peak() -> u64;
        fn sym_heap_live() -> u64;
    }
    pub fn bytes(b: &mut [u8]) {
        unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    pub fn check(c: bool, id: u32, _: &str) {
        unsafe { sym_check(c, id) }
    }
    pub fn reach(id: u32) {
        unsafe { sym_reach(id as u64) }
    }
    pub fn obs(v: u64) {
        unsafe { sym_obs(v) }
    }
    pub fn concrete(v: u64) -> u64 {
        unsafe { sym_concrete(v) }
    }
    pub fn fork(c: bool) -> bool {
        unsafe { sym_fork(c) }
    }
    pub fn heap_reset() {
        unsafe { sym_heap_reset() }
    }
    pub fn heap_peak() -> u64 {
        unsafe { sym_heap_peak() }
    }
    pub fn heap_live() -> u64 {
        unsafe { sym_heap_live() }
    }
}

#[cfg(not(feature = "sym"))]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

    pub static mut INPUT: Vec<u8> = Vec::new();
    static mut POS: usize = 0;

    #[allow(static_mut_refs)]
    pub fn bytes(b: &mut [u8]) {
        unsafe {
            for x in b {
                *x = INPUT.get(POS).copied().unwrap_or(0);
                POS += 1;
            }
        }
    }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUME");
            std::process::exit(11);
        }
    }
    pub fn check(c: bool, id: u32, m: &str) {
        if !c {
            println!("CHECK {} {}", id, m);
            std::process::exit(10);
        }
    }
    pub fn reach(_: u32) {}
    pub fn obs(v: u64) {
        println!("OBS {}", v);
    }
    pub fn concrete(v: u64) -> u64 {
        v
    }
    pub fn fork(c: bool) -> bool {
        c
    }

    pub struct Counting;
    static LIVE: AtomicU64 = AtomicU64::new(0);
    static PEAK: AtomicU64 = AtomicU64::new(0);
    pub static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
    fn add(n: u64) {
        if n > LIMIT.load(Relaxed) {
            // no allocation on this path
            use std::io::Write;
            let _ = std::io::stdout().write_all(b"ALLOC\n");
            std::process::exit(12);
        }
        let l = LIVE.load(Relaxed).wrapping_add(n);
        LIVE.store(l, Relaxed);
        if l > PEAK.load(Relaxed) && l < 1 << 63 {
            PEAK.store(l, Relaxed);
        }
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            add(l.size() as u64);
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            add(l.size() as u64);
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.store(LIVE.load(Relaxed).wrapping_sub(l.size() as u64), Relaxed);
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            LIVE.store(LIVE.load(Relaxed).wrapping_sub(l.size() as u64), Relaxed);
            add(n as u64);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
    pub fn heap_reset() {
        PEAK.store(LIVE.load(Relaxed), Relaxed);
    }
    pub fn heap_peak() -> u64 {
        PEAK.load(Relaxed)
    }
    pub fn heap_live() -> u64 {
        LIVE.load(Relaxed)
    }
}
pub use imp::*;

// ---- arbitrary values ----

pub fn arr<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    bytes(&mut b);
    b
}
pub fn u8() -> u8 {
    arr::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(arr())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(arr())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(arr())
}
pub fn i8() -> i8 {
    u8() as i8
}
pub fn i16() -> i16 {
    u16() as i16
}
pub fn i32() -> i32 {
    u32() as i32
}
pub fn i64() -> i64 {
    u64() as i64
}
/// Any boolean, both explored as separate paths.
pub fn flip() -> bool {
    fork(u8() & 1 == 1)
}
/// Any boolean, left symbolic.
pub fn boolean() -> bool {
    u8() & 1 == 1
}
/// Any number below `n`, one path each.
pub fn pick(n: u64) -> u64 {
    let v = u8() as u64;
    assume(v < n);
    concrete(v)
}
pub fn pick16(n: u64) -> u64 {
    let v = u16() as u64;
    assume(v < n);
    concrete(v)
}
/// Any bytes, `0..=max` of them (the length is one path each).
pub fn vec(max: usize) -> Vec<u8> {
    let n = pick(max as u64 + 1) as usize;
    vec_of(n)
}
pub fn vec_of(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    bytes(&mut v);
    v
}
/// Any string of at most `max` bytes.
pub fn string(max: usize) -> String {
    let v = vec(max);
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            loop {}
        }
    }
}
/// Any ASCII string of at most `max` bytes (cheaper than `string`).
pub fn ascii(max: usize) -> String {
    let v = vec(max);
    for b in &v {
        assume(*b < 128);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn char() -> char {
    let v = u32();
    // formulated without a branch per bound
    assume(v < 0x11_0000 && !(v >= 0xd800 && v <= 0xdfff));
    unsafe { char::from_u32_unchecked(v) }
}
/// Record the observable outcome, compared with the native run of the same input.
pub fn obs_bytes(b: &[u8]) {
    obs(b.len() as u64);
    let mut i = 0;
    while i < b.len() && i < 24 {
        let mut a = [0u8; 8];
        let n = (b.len() - i).min(8);
        a[..n].copy_from_slice(&b[i..i + n]);
        obs(u64::from_le_bytes(a));
        i += 8;
    }
}
