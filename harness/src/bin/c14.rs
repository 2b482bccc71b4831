//! C14: DefaultStack releases exactly what it mapped, also when creation fails half-way.
#![allow(static_mut_refs)]
#[path = "../os.rs"]
mod os;
use corosensei::stack::DefaultStack;
use hx::*;
use os::*;

static CAP: Cnt = Cnt::new();
static mut AT: [usize; 8] = [0; 8];

/// any size, any page size; every pattern of failing calls
#[cfg(feature = "unwind")]
fn patterns(faults: usize) {
    let size = any();
    let heap = heap_live();
    unsafe { OS.page = any_page(); OS.faults = faults }
    let r = catch(|| with_os(|| DefaultStack::new(size)));
    unsafe { OS.on = false }
    match r {
        Ok(Ok(s)) => {
            unsafe { ckeq(OS.failed, 0, 1); ckeq(OS.nmap, 1, 2); ckeq(OS.nunmap, 0, 3) }
            let r = catch(|| with_os(|| drop(s)));
            unsafe {
                OS.on = false;
                ckeq(OS.nunmap, 1, 4);
                ckeq(OS.live(), OS.failed, 5);
                // a panic is tolerated only when the system refused to unmap
                ck(r.is_ok() || OS.failed == 1, 6);
                cover(OS.failed);
            }
        }
        Ok(Err(e)) => unsafe {
            ck(OS.failed >= 1, 7);
            ckeq(OS.nunmap, OS.nmap, 8);
            if OS.nmap == 0 {
                // nothing was reserved: nothing may be touched
                ckeq(OS.nprot, 0, 9);
                ckeq(e.raw_os_error().unwrap_or(0) as usize, OS.errno, 10);
                cover(2);
            } else {
                // the error of the call that failed first
                if OS.failed == 1 { ckeq(e.raw_os_error().unwrap_or(0) as usize, OS.errno, 11); ckeq(OS.live(), 0, 12) }
                cover(3);
            }
            log(0);
        },
        Err(_) => unsafe {
            // impossible sizes never reach the system; a failing munmap may be reported by panicking
            ck(OS.nmap == 0 || (OS.nunmap == 1 && OS.failed >= 1), 13);
            ck(OS.failed == 0 || OS.nunmap == 1, 15);
            cover(4);
        },
    }
    let _ = heap;
}

/// one more fails or succeeds while others live
fn several(count: usize) {
    unsafe { OS.page = 65536; OS.faults = 3 }
    let mut v: [Option<DefaultStack>; 3] = [None, None, None];
    let mut k = 0;
    while k < count {
        let n = any();
        assume(n < TOP / 4);
        let live = unsafe { OS.live() };
        match with_os(|| DefaultStack::new(n)) {
            Ok(s) => {
                unsafe {
                    let m = OS.map[OS.nmap - 1];
                    let mut j = 0;
                    while j + 1 < OS.nmap {
                        let o = OS.map[j];
                        assume(!o.2 || o.0 + o.1 <= m.0 || m.0 + m.1 <= o.0);
                        j += 1;
                    }
                    ckeq(OS.live(), live + 1, 1);
                    ckeq(s.limit_(), m.0, 2);
                }
                v[k] = Some(s);
            }
            Err(_) => unsafe { ckeq(OS.live(), live, 3) },
        }
        k += 1;
    }
    let n = v.iter().flatten().count();
    unsafe { ckeq(OS.live(), n, 4) }
    // released in any order
    let i = choice(count);
    k = 0;
    while k < count {
        let live = unsafe { OS.live() };
        let s = v[(i + k) % count].take();
        let d = s.is_some() as usize;
        with_os(|| drop(s));
        unsafe { ckeq(OS.live(), live - d, 5) }
        k += 1;
    }
    unsafe { ckeq(OS.nunmap, OS.nmap, 6) }
    cover(n);
}
trait L { fn limit_(&self) -> usize; }
impl L for DefaultStack { fn limit_(&self) -> usize { self.limit().get() } }

/// the life of a coroutine on a default stack: the mapping goes away once, after everything that lived in it
fn life(std: bool) {
    type Co = Coroutine<usize, usize, usize, DefaultStack>;
    unsafe {
        OS.real = true;
        OS.at_unmap = |k| AT[k] = tick();
    }
    let t = Tok::new(&CAP, ());
    let end = choice(if cfg!(feature = "unwind") { 4 } else { 3 });
    let f = move |s: &Yielder<usize, usize>, mut x: usize| {
        let _t = t;
        loop {
            x = s.suspend(x);
            if end == 2 { return x }
            #[cfg(feature = "unwind")]
            if end == 3 { throw(x) }
        }
    };
    let mut co = with_os(|| if std { Co::new(f) } else { match DefaultStack::new(65536) { Ok(s) => Co::with_stack(s, f), Err(_) => { ck(false, 1); loop {} } } });
    let x = any();
    if end > 0 {
        ck(co.resume(x) == CoroutineResult::Yield(x), 2);
    }
    if end == 2 {
        ck(co.resume(x) == CoroutineResult::Return(x), 3);
        if choice(2) == 0 {
            let s = co.into_stack();
            unsafe { ckeq(OS.nunmap, 0, 4); ckeq(CAP.dropped(), 1, 5) }
            with_os(|| drop(s));
            unsafe { ckeq(OS.nunmap, 1, 6); ckeq(OS.live(), 0, 7) }
            return cover(10);
        }
    }
    #[cfg(feature = "unwind")]
    if end == 3 {
        ck(catch(|| co.resume(x)).is_err(), 8);
    }
    if end == 1 && !cfg!(feature = "unwind") {
        unsafe { co.force_reset() }
        with_os(|| drop(co));
        unsafe { ckeq(OS.nunmap, 1, 9); ckeq(OS.live(), 0, 10) }
        return cover(1);
    }
    unsafe { ckeq(OS.nunmap, 0, 11) }
    with_os(|| drop(co));
    unsafe {
        ckeq(OS.nunmap, 1, 12);
        ckeq(OS.live(), 0, 13);
        ckeq(CAP.dropped(), 1, 14);
        ck(CAP.last() < AT[0], 15);
    }
    cover(end);
}

scenarios! {
    #[cfg(feature = "unwind")]
    fn pattern() { patterns(3); }
    #[cfg(feature = "unwind")]
    fn pattern_unmap() { patterns(7); }
    fn interleaved2() { several(2); }
    fn interleaved3() { several(3); }
    fn lifecycle() { life(false); }
    fn lifecycle_std() { life(true); }
    #[cfg(feature = "unwind")]
    fn default_fails() {
        unsafe { OS.page = any_page(); OS.faults = 3 }
        let r = catch(|| with_os(DefaultStack::default));
        unsafe {
            OS.on = false;
            ckeq(r.is_err() as usize, OS.failed, 1);
            ckeq(OS.live(), 1 - OS.failed, 2);
            cover(OS.failed);
            if OS.failed == 1 { ckeq(OS.nunmap, OS.nmap, 3) }
        }
        core::mem::forget(r);
    }
}
