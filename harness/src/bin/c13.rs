//! C13: DefaultStack gives the requested usable space above an inaccessible guard page.
#![allow(static_mut_refs)]
#[path = "../os.rs"]
mod os;
use corosensei::stack::{DefaultStack, MIN_STACK_SIZE, STACK_ALIGNMENT};
use hx::*;
use os::*;

/// the stack the system's answers describe
fn judge(s: &DefaultStack, size: usize, id: usize) {
    let page = unsafe { OS.page };
    let (b, l) = (s.base().get(), s.limit().get());
    unsafe {
        ckeq(OS.live(), 1, id);
        // the limit is the lowest address of the mapping, the base is its end
        ckeq(l, OS.map[0].0, id + 1);
        ckeq(b, OS.map[0].0 + OS.map[0].1, id + 2);
    }
    ckeq(b % STACK_ALIGNMENT, 0, id + 3);
    ckeq(l % STACK_ALIGNMENT, 0, id + 4);
    ckeq(b & (page - 1), 0, id + 5);
    ck(b > l && b - l > page, id + 6);
    let usable = b - l - page;
    ck(usable >= size, id + 7);
    ck(usable >= MIN_STACK_SIZE, id + 8);
    // no more than rounding to pages requires
    ck(usable - core::cmp::max(size, MIN_STACK_SIZE) < page, id + 9);
    // every byte of it
    let a = any();
    assume(a >= l && a < b);
    let p = unsafe { OS.prot_of(a) };
    if a - l < page {
        ckeq(p, P_NONE, id + 10);
        cover(1);
    } else {
        ckeq(p, P_RW, id + 11);
        cover(2);
    }
}

scenarios! {
    fn minimum() {
        ck(MIN_STACK_SIZE >= 1024 && STACK_ALIGNMENT == 16, 1);
        cover(1);
    }
    #[cfg(feature = "unwind")]
    fn any_size() {
        let size = any();
        unsafe { OS.page = any_page(); OS.faults = 3 }
        let page = unsafe { OS.page };
        match catch(|| with_os(|| DefaultStack::new(size))) {
            Ok(Ok(s)) => {
                unsafe { ckeq(OS.failed, 0, 1) }
                judge(&s, size, 10);
                with_os(|| drop(s));
                unsafe { ckeq(OS.live(), 0, 2) }
            }
            Ok(Err(_)) => {
                // only because the system refused
                unsafe { ckeq(OS.failed, 1, 3); ckeq(OS.live(), 0, 4) }
                cover(3);
            }
            Err(_) => {
                // only because the size does not fit the address space
                ck(size > usize::MAX - 2 * page, 5);
                unsafe { OS.on = false; ckeq(OS.live(), 0, 6) }
                cover(4);
            }
        }
    }
    /// when nothing fails there is always a stack; also without unwinding support
    fn cooperative() {
        let size = any();
        assume(size < TOP / 4);
        unsafe { OS.page = any_page() }
        match with_os(|| DefaultStack::new(size)) {
            Ok(s) => {
                judge(&s, size, 10);
                // asking again gives the same answers
                ck(s.base().get() - s.limit().get() == unsafe { OS.map[0].1 }, 1);
                with_os(|| drop(s));
                unsafe { ckeq(OS.live(), 0, 2); ckeq(OS.nunmap, 1, 3) }
            }
            Err(_) => ck(false, 4),
        }
    }
    fn default() {
        unsafe { OS.page = any_page() }
        let s = with_os(DefaultStack::default);
        judge(&s, 1 << 20, 10);
        with_os(|| drop(s));
    }
    /// two stacks at once
    fn two() {
        let (n, m) = (any(), any());
        assume(n < TOP / 4 && m < TOP / 4);
        unsafe { OS.page = any_page() }
        let a = with_os(|| DefaultStack::new(n));
        let b = with_os(|| DefaultStack::new(m));
        if let (Ok(a), Ok(b)) = (a, b) {
            unsafe {
                let (p, q) = (OS.map[0], OS.map[1]);
                // the system never hands out the same memory twice
                assume(p.0 + p.1 <= q.0 || q.0 + q.1 <= p.0);
                ckeq(a.limit().get(), p.0, 1);
                ckeq(a.base().get(), p.0 + p.1, 2);
                ckeq(b.limit().get(), q.0, 3);
                ckeq(b.base().get(), q.0 + q.1, 4);
            }
            let w = choice(2);
            with_os(|| if w == 0 { drop(a); unsafe { ck(!OS.map[0].2 && OS.map[1].2, 5) } drop(b) } else { drop(b); unsafe { ck(OS.map[0].2 && !OS.map[1].2, 6) } drop(a) });
            unsafe { ckeq(OS.live(), 0, 7) }
            cover(w);
        } else {
            ck(false, 8)
        }
    }
}
