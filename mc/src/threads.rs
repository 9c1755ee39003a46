//! Counts every thread the process creates: this definition of pthread_create takes the place of libc's for the whole executable.
use std::sync::atomic::{AtomicUsize, Ordering::*};
static CREATED: AtomicUsize = AtomicUsize::new(0);
static REAL: AtomicUsize = AtomicUsize::new(0);
pub fn created() -> usize { CREATED.load(SeqCst) }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, p: *mut libc::c_void) -> libc::c_int {
    type F = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> libc::c_int;
    let mut r = REAL.load(SeqCst);
    if r == 0 { r = unsafe { libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) } as usize; REAL.store(r, SeqCst); }
    CREATED.fetch_add(1, SeqCst);
    let f0: F = unsafe { std::mem::transmute(r) };
    unsafe { f0(t, a, f, p) }
}
