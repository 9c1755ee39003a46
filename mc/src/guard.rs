//! Memory that ends at inaccessible pages: a global allocator that, while switched on, places every allocation directly at a guard zone
//! and fills it with a poison byte, and image buffers of the same kind.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

/// 0 off, 1 end of allocation at a guard, 2 start of allocation at a guard, 3 ordinary placement (poison only)
static MODE: AtomicU32 = AtomicU32::new(0);
static POISON: AtomicU32 = AtomicU32::new(0xcb);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static BAD: AtomicUsize = AtomicUsize::new(0);
const CANARY: u8 = 0x7e;
const NEAR: usize = 128;

struct Class { slot: usize, data: usize, n: usize }
const CLASSES: [Class; 3] = [Class { slot: 1 << 20, data: 512 << 10, n: 2048 }, Class { slot: 64 << 20, data: 62 << 20, n: 24 }, Class { slot: 2 << 30, data: (2 << 30) - (8 << 20), n: 4 }];
struct Arena { base: usize, top: usize, free: [u16; 2048], nfree: usize, ptr: [usize; 2048], size: [usize; 2048], mode: [u8; 2048] }
struct Arenas(UnsafeCell<[Arena; 3]>);
unsafe impl Sync for Arenas {}
const EMPTY: Arena = Arena { base: 0, top: 0, free: [0; 2048], nfree: 0, ptr: [0; 2048], size: [0; 2048], mode: [0; 2048] };
static ARENAS: Arenas = Arenas(UnsafeCell::new([EMPTY, EMPTY, EMPTY]));
static LOCK: AtomicBool = AtomicBool::new(false);
fn locked<R>(f: impl FnOnce(&mut [Arena; 3]) -> R) -> R {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() { std::hint::spin_loop(); }
    let r = f(unsafe { &mut *ARENAS.0.get() });
    LOCK.store(false, Release);
    r
}
unsafe fn map(len: usize) -> usize {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
    if p == libc::MAP_FAILED { 0 } else { p as usize }
}
// ---- preemption at heap operations: when the watched thread reaches its k-th one, another thread runs to completion first
static HOOK_AT: AtomicU64 = AtomicU64::new(0);
static HOOK_N: AtomicU64 = AtomicU64::new(0);
static HOOK_THREAD: AtomicUsize = AtomicUsize::new(0);
static HOOK_OWNER: AtomicUsize = AtomicUsize::new(0);
/// The library call of the watched thread begins or ends: only heap operations inside count.
pub fn in_call(on: bool) {
    let o = HOOK_OWNER.load(Relaxed);
    if o != 0 && unsafe { libc::pthread_self() } as usize == o { HOOK_THREAD.store(if on { o } else { 0 }, SeqCst); }
}
static TURN: AtomicU32 = AtomicU32::new(0);
#[inline]
fn heap_op() {
    #[cfg(feature = "sched")]
    rayon_core::mc::heap_point();
    crate::step::heap_point();
    if HOOK_THREAD.load(Relaxed) != 0 && unsafe { libc::pthread_self() } as usize == HOOK_THREAD.load(Relaxed) {
        let n = HOOK_N.fetch_add(1, Relaxed) + 1;
        if n == HOOK_AT.load(Relaxed) {
            TURN.store(1, SeqCst);
            let mut i = 0u64;
            // bounded: the other call may rightly have to wait for this one
            while TURN.load(SeqCst) != 2 && i < 400_000 { i += 1; if i > 2000 { unsafe { libc::usleep(5); } i += 50; } else { std::hint::spin_loop(); } }
        }
    }
}
/// Runs `a` on this thread; at its k-th heap operation (k > 0) `b` runs on another thread. Returns the heap operations seen in `a`.
pub fn preempted<R, S: Send>(k: u64, a: impl FnOnce() -> R, b: impl FnOnce() -> S + Send) -> (R, Option<S>, u64) {
    std::thread::scope(|sc| {
        TURN.store(0, SeqCst);
        let h = sc.spawn(move || {
            while TURN.load(SeqCst) == 0 { std::thread::yield_now(); }
            if TURN.load(SeqCst) == 3 { return None }
            let r = b();
            TURN.store(2, SeqCst);
            Some(r)
        });
        HOOK_N.store(0, SeqCst);
        HOOK_AT.store(k, SeqCst);
        HOOK_OWNER.store(unsafe { libc::pthread_self() } as usize, SeqCst);
        let r = a();
        HOOK_OWNER.store(0, SeqCst);
        let n = HOOK_N.load(SeqCst);
        if TURN.load(SeqCst) == 0 { TURN.store(3, SeqCst); }
        (r, h.join().unwrap(), n)
    })
}
pub struct GuardAlloc;
unsafe fn take(l: Layout, zero: bool, mode: u32) -> *mut u8 {
    let k = match CLASSES.iter().position(|c| l.size() + l.align() <= c.data) { Some(k) if l.size() > 0 => k, _ => return std::ptr::null_mut() };
    let c = &CLASSES[k];
    let i = locked(|a| unsafe {
        let a = &mut a[k];
        if a.base == 0 { a.base = map(c.slot * c.n); if a.base == 0 { return None } }
        if a.nfree > 0 { a.nfree -= 1; return Some(a.free[a.nfree] as usize) }
        if a.top == c.n { return None }
        let s = a.base + a.top * c.slot + (c.slot - c.data) / 2;
        if libc::mprotect(s as *mut _, c.data, libc::PROT_READ | libc::PROT_WRITE) != 0 { return None }
        a.top += 1;
        Some(a.top - 1)
    });
    let Some(i) = i else { return std::ptr::null_mut() };
    unsafe {
        let lo = (*ARENAS.0.get())[k].base + i * c.slot + (c.slot - c.data) / 2;
        let hi = lo + c.data;
        let p = if mode == 2 { lo } else { (hi - l.size()) & !(l.align() - 1) };
        std::ptr::write_bytes(p as *mut u8, if zero { 0 } else { POISON.load(Relaxed) as u8 }, l.size());
        if mode == 2 { let e = p + l.size(); std::ptr::write_bytes(e as *mut u8, CANARY, NEAR.min(hi - e)); }
        else { let e = p + l.size(); std::ptr::write_bytes(e as *mut u8, CANARY, hi - e); let n = NEAR.min(p - lo); std::ptr::write_bytes((p - n) as *mut u8, CANARY, n); }
        locked(|a| { a[k].ptr[i] = p; a[k].size[i] = l.size(); a[k].mode[i] = mode as u8; });
        ALLOCS.fetch_add(1, Relaxed);
        p as *mut u8
    }
}
fn find(p: usize) -> Option<(usize, usize)> {
    let a = unsafe { &*ARENAS.0.get() };
    (0..3).find(|&k| a[k].base != 0 && p >= a[k].base && p < a[k].base + CLASSES[k].slot * CLASSES[k].n).map(|k| (k, (p - a[k].base) / CLASSES[k].slot))
}
unsafe impl GlobalAlloc for GuardAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let was = crate::step::pause();
        heap_op();
        let p = match MODE.load(Relaxed) {
            0 => unsafe { System.alloc(l) },
            3 => unsafe { let p = System.alloc(l); if !p.is_null() { std::ptr::write_bytes(p, POISON.load(Relaxed) as u8, l.size()); ALLOCS.fetch_add(1, Relaxed); } p },
            m => unsafe { let p = take(l, false, m); if p.is_null() { System.alloc(l) } else { p } },
        };
        crate::step::resume(was);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let was = crate::step::pause();
        heap_op();
        let p = match MODE.load(Relaxed) {
            0 | 3 => unsafe { System.alloc_zeroed(l) },
            m => unsafe { let p = take(l, true, m); if p.is_null() { System.alloc_zeroed(l) } else { p } },
        };
        crate::step::resume(was);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let was = crate::step::pause();
        heap_op();
        if !crate::step::tracing() { unsafe { Self::release(p, l); } }
        crate::step::resume(was);
    }
}
impl GuardAlloc {
    unsafe fn release(p: *mut u8, l: Layout) {
        let Some((k, i)) = find(p as usize) else { return unsafe { System.dealloc(p, l) } };
        unsafe {
            let c = &CLASSES[k];
            let a = &(*ARENAS.0.get())[k];
            let lo = a.base + i * c.slot + (c.slot - c.data) / 2;
            let hi = lo + c.data;
            let (q, n, m) = (a.ptr[i], a.size[i], a.mode[i]);
            let ok = |from: usize, to: usize| std::slice::from_raw_parts(from as *const u8, to - from).iter().all(|b| *b == CANARY);
            let e = q + n;
            let good = if m == 2 { ok(e, e + NEAR.min(hi - e)) } else { ok(e, hi) && ok(q - NEAR.min(q - lo), q) };
            if !good { BAD.store(n.max(1), SeqCst); }
            if c.data > 1 << 20 && n > 1 << 16 { libc::madvise((q & !4095) as *mut _, hi - (q & !4095), libc::MADV_DONTNEED); }
            locked(|a| { let a = &mut a[k]; a.free[a.nfree] = i as u16; a.nfree += 1; });
        }
    }
}
#[global_allocator]
static GA: GuardAlloc = GuardAlloc;

/// Every allocation made by any thread while `f` runs is placed and poisoned as asked.
pub fn with<R>(mode: u32, poison: u8, f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { MODE.store(0, SeqCst); } }
    POISON.store(poison as u32, SeqCst);
    let off = Off;
    MODE.store(mode, SeqCst);
    let r = f();
    drop(off);
    r
}
pub fn allocations() -> u64 { ALLOCS.load(SeqCst) }
/// Size of a temporary whose surroundings were overwritten, if any since the last call.
pub fn overwritten() -> Option<usize> { match BAD.swap(0, SeqCst) { 0 => None, n => Some(n) } }

/// A buffer between guard zones; the view handed out can be read-only while the owner writes through another mapping.
pub struct Zone { rw: usize, view: usize, pub len: usize }
impl Zone {
    pub fn new(len: usize, read_only: bool) -> Zone {
        let len = len.next_multiple_of(4096);
        let g = 1 << 20;
        unsafe {
            let fd = libc::memfd_create(c"zone".as_ptr(), 0);
            assert!(fd >= 0 && libc::ftruncate(fd, len as i64) == 0);
            let outer = map(len + 2 * g);
            assert!(outer != 0);
            let view = libc::mmap((outer + g) as *mut _, len, if read_only { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE }, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0) as usize;
            assert_eq!(view, outer + g);
            let rw = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0) as usize;
            assert!(rw as isize != -1);
            libc::close(fd);
            Zone { rw, view, len }
        }
    }
    fn off(&self, bytes: usize, end: bool) -> usize { assert!(bytes <= self.len); if end { self.len - bytes } else { 0 } }
    /// Slice of n elements that touches the guard at its end (or its start), writable by the owner.
    pub fn own<T>(&self, n: usize, end: bool) -> &'static mut [T] { let b = n * std::mem::size_of::<T>(); unsafe { std::slice::from_raw_parts_mut((self.rw + self.off(b, end)) as *mut T, n) } }
    /// The same memory as the library sees it.
    pub fn view<T>(&self, n: usize, end: bool) -> &'static mut [T] { let b = n * std::mem::size_of::<T>(); unsafe { std::slice::from_raw_parts_mut((self.view + self.off(b, end)) as *mut T, n) } }
    /// Bytes beside the slice up to a page, inside the mapping.
    pub fn beside(&self, bytes: usize, end: bool) -> &'static mut [u8] {
        let n = 4096.min(self.len - bytes);
        let at = if end { self.len - bytes - n } else { bytes };
        unsafe { std::slice::from_raw_parts_mut((self.rw + at) as *mut u8, n) }
    }
    /// Distance text of an address relative to the slice, if it is near this zone.
    pub fn locate(&self, addr: usize, bytes: usize, end: bool) -> Option<(bool, isize)> {
        if addr + (1 << 20) < self.view || addr >= self.view + self.len + (1 << 20) { return None }
        let s = self.view + self.off(bytes, end);
        Some(if addr >= s + bytes { (true, (addr - (s + bytes)) as isize) } else { (false, addr as isize - s as isize) })
    }
}
