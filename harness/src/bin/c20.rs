//! C20: Valgrind stack registration is balanced and otherwise invisible.
#![allow(static_mut_refs)]
#[path = "../os.rs"]
mod os;
use corosensei::stack::DefaultStack;
use hx::*;
use os::*;

const REG: usize = 0x1501;
const DEREG: usize = 0x1502;
static mut AT: [usize; 4] = [0; 4];

fn req(i: usize, f: usize) -> usize {
    unsafe { v_vg_get(i, f) }
}
fn count(code: usize) -> usize {
    let n = unsafe { v_vg_count() };
    (0..n).filter(|i| req(*i, 0) == code).count()
}
fn at_unmap(k: usize) {
    // withdrawn before the memory goes away
    unsafe { AT[k] = count(DEREG) + 1 }
}
/// request n announces exactly [l, b)
fn announces(n: usize, l: usize, b: usize, id: usize) {
    ckeq(req(n, 0), REG, id);
    ckeq(req(n, 1), l, id + 1);
    ckeq(req(n, 2), b, id + 2);
}
fn withdraws(n: usize, of: usize, id: usize) {
    ckeq(req(n, 0), DEREG, id);
    ckeq(req(n, 1), req(of, 6), id + 1);
}

scenarios! {
    /// creation and release under every pattern of failures
    #[cfg(feature = "unwind")]
    fn faults() {
        let size = any();
        unsafe { OS.page = any_page(); OS.faults = 3; OS.at_unmap = at_unmap; v_vg_mode(1) }
        let r = catch(|| with_os(|| DefaultStack::new(size)));
        unsafe { OS.on = false }
        match r {
            Ok(Ok(s)) => {
                ckeq(unsafe { v_vg_count() }, 1, 1);
                announces(0, s.limit().get(), s.base().get(), 2);
                with_os(|| drop(s));
                ckeq(unsafe { v_vg_count() }, 2, 5);
                withdraws(1, 0, 6);
                ckeq(unsafe { AT[0] }, 2, 8);
                cover(0);
            }
            Ok(Err(_)) => {
                // balanced, and withdrawn before the memory is given back
                let n = count(REG);
                ck(n <= 1, 9);
                ckeq(count(DEREG), n, 10);
                ckeq(unsafe { v_vg_count() }, 2 * n, 11);
                if n == 1 {
                    withdraws(1, 0, 12);
                    ckeq(unsafe { AT[0] }, 2, 14);
                }
                cover(1 + n);
            }
            Err(_) => { ckeq(unsafe { v_vg_count() }, 0, 15); cover(3) }
        }
        unsafe { v_vg_mode(0) }
    }
    /// several stacks: each is withdrawn with its own identifier, in any order
    fn several() {
        let (n, m) = (any(), any());
        assume(n < TOP / 4 && m < TOP / 4);
        unsafe { OS.page = 4096; OS.at_unmap = at_unmap; v_vg_mode(1) }
        let (a, b) = with_os(|| (DefaultStack::new(n), DefaultStack::new(m)));
        ckeq(unsafe { v_vg_count() }, 2, 1);
        if let (Ok(a), Ok(b)) = (a, b) {
            announces(0, a.limit().get(), a.base().get(), 2);
            announces(1, b.limit().get(), b.base().get(), 5);
            let w = choice(2);
            let mut v = [Some(a), Some(b)];
            with_os(|| drop(v[w].take()));
            withdraws(2, w, 8);
            ckeq(unsafe { AT[w] }, 2, 10);
            ckeq(unsafe { AT[1 - w] }, 0, 11);
            with_os(|| drop(v[1 - w].take()));
            withdraws(3, 1 - w, 13);
            ckeq(unsafe { v_vg_count() }, 4, 15);
            cover(w);
        } else { ck(false, 12) }
        unsafe { v_vg_mode(0) }
    }
    /// a coroutine on a default stack: one registration and one withdrawal, whatever happens to the coroutine
    fn life() {
        type Co = Coroutine<usize, usize, usize, DefaultStack>;
        unsafe { OS.real = true; OS.at_unmap = at_unmap; v_vg_mode(1) }
        let end = choice(3);
        let mut co = with_os(|| match DefaultStack::new(65536) {
            Ok(s) => Co::with_stack(s, move |s, x| { let y = s.suspend(x); on_stack(VStack::new(16384), move || y) }),
            Err(_) => { ck(false, 1); loop {} }
        });
        let x = any();
        if end > 0 {
            ck(co.resume(x) == CoroutineResult::Yield(x), 2);
            ck(co.resume(x) == CoroutineResult::Return(x), 3);
        }
        ckeq(unsafe { v_vg_count() }, 1, 4);
        unsafe { announces(0, OS.map[0].0, OS.map[0].0 + OS.map[0].1, 5) }
        if end == 2 {
            let s = co.into_stack();
            ckeq(unsafe { v_vg_count() }, 1, 8);
            // the same stack again
            let co = Co::with_stack(s, |_, x| x);
            ckeq(unsafe { v_vg_count() }, 1, 9);
            with_os(|| drop(co));
        } else {
            with_os(|| drop(co));
        }
        ckeq(unsafe { v_vg_count() }, 2, 10);
        withdraws(1, 0, 11);
        ckeq(unsafe { AT[0] }, 2, 13);
        unsafe { v_vg_mode(0) }
        cover(end);
    }
    /// without Valgrind: registers, frames and results
    fn invisible() {
        unsafe { OS.page = any_page() }
        let n = any();
        assume(n < TOP / 4);
        let l = [n; 12];
        let mut s = None;
        guard_p(|| with_os(|| s = DefaultStack::new(n).ok()), 10);
        if let Some(s) = s {
            unsafe {
                ckeq(s.limit().get(), OS.map[0].0, 1);
                ckeq(s.base().get(), OS.map[0].0 + OS.map[0].1, 2);
            }
            guard_p(|| with_os(|| drop(s)), 30);
        } else { ck(false, 3) }
        ckeq(vol(&l)[7], n, 4);
        unsafe { ckeq(OS.live(), 0, 5); ckeq(OS.nunmap, 1, 6) }
        cover(1);
    }
}
