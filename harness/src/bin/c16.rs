//! C16: stack_ptr_in_bounds answers exactly whether an address is on the stack.
#![allow(static_mut_refs)]
use hx::*;

static mut TH: Option<CoroutineTrapHandler<usize>> = None;
static mut LIM: usize = 0;
static mut BASE: usize = 0;

#[inline(never)]
fn judge<R>(h: &CoroutineTrapHandler<R>, l: usize, b: usize, id: usize) {
    // any address at all
    let a = any();
    let want = a >= l && a < b;
    ck(h.stack_ptr_in_bounds(a) == want, id);
    // the edges, in case the arbitrary one is chosen elsewhere
    ck(h.stack_ptr_in_bounds(l), id + 1);
    ck(h.stack_ptr_in_bounds(b - 1), id + 2);
    ck(!h.stack_ptr_in_bounds(b), id + 3);
    ck(!h.stack_ptr_in_bounds(l - 1), id + 4);
    ck(!h.stack_ptr_in_bounds(0), id + 5);
    ck(!h.stack_ptr_in_bounds(usize::MAX), id + 6);
    cover(if want { 1 } else { 2 });
}
/// at every stage of a coroutine's life
fn stages<S: Stack>(s: S, stage: usize) {
    let (b, l) = (s.base().get(), s.limit().get());
    unsafe { LIM = l; BASE = b }
    let mut co = Coroutine::<usize, usize, usize, S>::with_stack(s, |s, x| {
        // asked from inside
        let sp = unsafe { v_sp() };
        ck(unsafe { TH.as_ref().unwrap() }.stack_ptr_in_bounds(sp), 40);
        if x == 3 { judge(unsafe { TH.as_ref().unwrap() }, unsafe { LIM }, unsafe { BASE }, 50) }
        let y = s.suspend(x);
        let r = s.on_parent_stack(move || {
            let sp = unsafe { v_sp() };
            ck(!unsafe { TH.as_ref().unwrap() }.stack_ptr_in_bounds(sp), 41);
            y
        });
        r
    });
    unsafe { TH = Some(co.trap_handler()) }
    if stage == 0 { judge(&co.trap_handler(), l, b, 1) }
    ck(co.resume(stage) == CoroutineResult::Yield(stage), 42);
    if stage == 1 {
        judge(&co.trap_handler(), l, b, 10);
        // moving the coroutine changes nothing
        let co2 = Box::new(co);
        judge(&co2.trap_handler(), l, b, 20);
        co = *co2;
    }
    ck(co.resume(stage) == CoroutineResult::Return(stage), 43);
    if stage == 2 {
        judge(&co.trap_handler(), l, b, 30);
        // an earlier copy keeps its answers
        let h = unsafe { TH.unwrap() };
        judge(&h, l, b, 60);
    }
    drop(co);
}
/// a stack of any extent: [l, b)
struct Any2(usize, usize);
unsafe impl Stack for Any2 {
    fn base(&self) -> StackPointer { StackPointer::new(self.0).unwrap() }
    fn limit(&self) -> StackPointer { StackPointer::new(self.1).unwrap() }
}

scenarios! {
    fn owned() { stages(VStack::new(16384), choice(4)); }
    fn borrowed() {
        let mut s = VStack::new(16384);
        stages(&mut s, choice(4));
    }
    fn twice_borrowed() {
        let mut s = VStack::new(16384);
        let mut r = &mut s;
        stages(&mut r, choice(4));
    }
    /// the stack claims a larger extent than the part that is usable (guard pages below)
    fn guard_pages() {
        let s = VStack::new(16384);
        let g = any();
        assume(g < s.limit && g > 0);
        // this stack is not part of it
        let sp = unsafe { v_sp() };
        assume(sp < g || sp - 0x20000 > s.base);
        stages(Any2(s.base, g), choice(4));
    }
    /// two coroutines: each handler answers for its own stack
    fn two() {
        let (mut s, mut t) = (VStack::new(16384), VStack::new(16384));
        let (sb, sl, tb, tl) = (s.base, s.limit, t.base, t.limit);
        let a = Coroutine::<usize, usize, usize, &mut VStack>::with_stack(unsafe { &mut *(&mut s as *mut VStack) }, |_, x| x);
        let b = Coroutine::<usize, usize, (), &mut VStack>::with_stack(unsafe { &mut *(&mut t as *mut VStack) }, |_, _| ());
        let (h, g) = (a.trap_handler(), b.trap_handler());
        drop(a);
        judge(&h, sl, sb, 1);
        judge(&g, tl, tb, 10);
        drop(b);
        ck(!h.stack_ptr_in_bounds(tl), 20);
        ck(!g.stack_ptr_in_bounds(sb - 1), 21);
    }
    /// used for what it is meant: a trap anywhere is attributed to the right coroutine
    fn default_stack() {
        use corosensei::stack::DefaultStack;
        // a real default stack can not be symbolic: its own answers are compared
        fn f(s: DefaultStack) {
            let (b, l) = (s.base().get(), s.limit().get());
            let co = Coroutine::<usize, usize, usize, DefaultStack>::with_stack(s, |_, x| x);
            judge(&co.trap_handler(), l, b, 1);
            core::mem::forget(co);
        }
        unsafe {
            // an image of a DefaultStack is obtained from the system model
            os::OS.real = true;
            match os::with_os(|| DefaultStack::new(16384)) { Ok(s) => f(s), Err(_) => ck(false, 20) }
        }
    }
}
#[path = "../os.rs"]
mod os;
