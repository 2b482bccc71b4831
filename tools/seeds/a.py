A64 = 'src/arch/x86_64.rs'
A32 = 'src/arch/x86.rs'
CO = 'src/coroutine.rs'

# ---- C03
B['c03-yield-clobber'] = dict(property='C03', what='x86_64: switch_yield no longer tells the compiler that a switch overwrites r13',
  needs='an optimised body with enough live values that one is kept in r13 across a suspend, and a resumer that puts something else there',
  edits=[(A64, '''        in("rdx") parent_link as u64,

        // See switch_and_link() for an explanation of the clobbers.
        lateout("r12") _, lateout("r13") _, lateout("r14") _, lateout("r15") _,''',
  '''        in("rdx") parent_link as u64,

        // See switch_and_link() for an explanation of the clobbers.
        lateout("r12") _, lateout("r14") _, lateout("r15") _,''')],
  profiles=['release'],
  main='''use corosensei::{Coroutine, CoroutineResult};
use std::hint::black_box;
#[inline(never)]
fn scramble(co: &mut Coroutine<u64, u64, u64>, x: u64) -> CoroutineResult<u64, u64> {
    unsafe { core::arch::asm!("mov r12, -1", "mov r13, -2", "mov r14, -3", "mov r15, -4", out("r12") _, out("r13") _, out("r14") _, out("r15") _) }
    co.resume(x)
}
fn main() {
    let mut co = Coroutine::<u64, u64, u64>::new(|s, x| {
        let (a, b, c, d, e, f, g, h) = (black_box(1u64), black_box(2u64), black_box(3u64), black_box(4u64), black_box(5u64), black_box(6u64), black_box(7u64), black_box(8u64));
        let mut y = x;
        for i in 0..black_box(5u64) {
            y = s.suspend(y ^ i);
        }
        let r = [a, b, c, d, e, f, g, h];
        for (i, v) in r.iter().enumerate() {
            assert_eq!(*v, i as u64 + 1);
        }
        y
    });
    let mut n = 0;
    while let CoroutineResult::Yield(_) = scramble(&mut co, n) {
        n += 1;
        assert!(n < 100);
    }
    assert_eq!(n, 5);
}
''')

# ---- C09
WALK = '''
#[link(name = "gcc_s")]
extern "C" {
    fn _Unwind_Backtrace(f: extern "C" fn(*mut u8, *mut u8) -> i32, arg: *mut u8) -> i32;
    fn _Unwind_GetIP(ctx: *mut u8) -> usize;
    fn _Unwind_GetGR(ctx: *mut u8, r: i32) -> usize;
    fn _Unwind_FindEnclosingFunction(pc: usize) -> usize;
}
'''
B['c09-rbx'] = dict(property='C09', what='x86_64: the unwind information of the entry trampoline no longer says where the resumer\'s rbx is',
  needs='a backtrace from a coroutine that was resumed by a second caller with another rbx, looking at the recovered registers and not only the addresses',
  edits=[(A64, '''    ".cfi_offset rbx, -8",
    ".cfi_offset rip, -16",''', '''    ".cfi_offset rip, -16",''')],
  profiles=['dev'],
  main=WALK + '''use corosensei::{Coroutine, CoroutineResult, Yielder};
// fn with_rbx(f: fn(*mut u8), arg: *mut u8, rbx: usize)
core::arch::global_asm!(".globl with_rbx", "with_rbx:", ".cfi_startproc", "push rbx", ".cfi_def_cfa_offset 16", ".cfi_offset rbx, -16",
    "mov rax, rdi", "mov rdi, rsi", "mov rbx, rdx", "call rax", "pop rbx", ".cfi_def_cfa_offset 8", "ret", ".cfi_endproc");
extern "C" { fn with_rbx(f: extern "C" fn(*mut u8), arg: *mut u8, rbx: usize); }
static mut SEEN: usize = 0;
extern "C" fn visit(ctx: *mut u8, _: *mut u8) -> i32 {
    unsafe {
        if _Unwind_FindEnclosingFunction(_Unwind_GetIP(ctx)) == with_rbx as *const () as usize { SEEN = _Unwind_GetGR(ctx, 3); }
    }
    0
}
#[inline(never)]
fn walk() -> usize { unsafe { SEEN = 0; _Unwind_Backtrace(visit, core::ptr::null_mut()); SEEN } }
type Co = Coroutine<usize, (), ()>;
extern "C" fn go(p: *mut u8) {
    let co = unsafe { &mut *(p as *mut Co) };
    assert!(matches!(co.resume(0), CoroutineResult::Yield(())));
}
fn main() {
    let mut want = [0x1111usize, 0x2222, 0x3333].into_iter();
    let mut co: Co = Coroutine::new(move |s: &Yielder<usize, ()>, _| {
        while let Some(w) = want.next() {
            assert_eq!(walk(), w);
            s.suspend(());
        }
    });
    for r in [0x1111, 0x2222, 0x3333] {
        unsafe { with_rbx(go, &mut co as *mut Co as *mut u8, r) }
    }
}
''')

B['c09-trap-rbp'] = dict(property='C09', what='x86_64: trap recovery starts with the frame pointer at the captured closure instead of the parent link, so the stack of the recovery closure cannot be walked',
  needs='a backtrace taken inside a trap-recovery closure',
  edits=[(A64, '''        rsi: parent_link as u64,
        rbp: parent_link as u64,''', '''        rsi: parent_link as u64,
        rbp: sp as u64,''')],
  main='''use corosensei::{stack::DefaultStack, trap::*, Coroutine, CoroutineResult};
#[repr(C)] struct Sig { _p: [usize; 40] }
static mut TH: Option<CoroutineTrapHandler<bool>> = None;
static mut FOUND: bool = false;
extern "C" {
    fn sigaction(n: i32, a: *const usize, o: *mut usize) -> i32;
    fn sigaltstack(a: *const usize, o: *mut usize) -> i32;
    fn _Unwind_Backtrace(f: extern "C" fn(*mut u8, *mut u8) -> i32, arg: *mut u8) -> i32;
    fn _Unwind_GetIP(ctx: *mut u8) -> usize;
    fn _Unwind_FindEnclosingFunction(pc: usize) -> usize;
}
extern "C" fn visit(ctx: *mut u8, _: *mut u8) -> i32 {
    unsafe { if _Unwind_FindEnclosingFunction(_Unwind_GetIP(ctx)) == resumer as *const () as usize { FOUND = true } }
    0
}
#[inline(never)]
extern "C" fn resumer(co: &mut Coroutine<(), (), bool, DefaultStack>) -> CoroutineResult<(), bool> {
    let r = co.resume(());
    std::hint::black_box(());
    r
}
#[allow(static_mut_refs)]
extern "C" fn on_trap(_: i32, _: usize, uc: *mut u8) {
    unsafe {
        let r = TH.as_ref().unwrap().setup_trap_handler(|| { _Unwind_Backtrace(visit, core::ptr::null_mut()); FOUND });
        let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = r;
        let g = uc.add(40) as *mut u64;
        *g.add(16) = rip; *g.add(15) = rsp; *g.add(10) = rbp; *g.add(8) = rdi; *g.add(9) = rsi;
    }
}
fn main() {
    let _ = Sig { _p: [0; 40] };
    unsafe {
        let alt = Box::leak(vec![0usize; 65536].into_boxed_slice());
        let ss = [alt.as_ptr() as usize, 0, 65536 * 8];
        assert_eq!(sigaltstack(ss.as_ptr(), core::ptr::null_mut()), 0);
        // sa_sigaction, sa_mask (128 bytes), sa_flags: SA_SIGINFO | SA_ONSTACK | SA_NODEFER
        let mut a = [0usize; 19];
        a[0] = on_trap as *const () as usize;
        a[17] = 4 | 0x08000000 | 0x40000000;
        assert_eq!(sigaction(11, a.as_ptr(), core::ptr::null_mut()), 0);
    }
    let mut co = Coroutine::<(), (), bool, DefaultStack>::new(|_, ()| unsafe { core::ptr::write_volatile(8 as *mut u8, 1); false });
    unsafe { TH = Some(co.trap_handler()) }
    assert_eq!(resumer(&mut co), CoroutineResult::Return(true));
}
''')

# ---- C07
B['c07-foreign'] = dict(property='C07', what='force_unwind takes any forced unwind that arrives for its own',
  needs='a coroutine that survives its own unwind and then lets the caught unwind payload of another coroutine escape',
  edits=[(CO, '''                    if let Some(forced_unwind) = e.downcast_ref::<unwind::ForcedUnwind>() {
                        if forced_unwind.0 == stack_ptr {
                            return;
                        }
                    }
''', '''                    if e.is::<unwind::ForcedUnwind>() {
                        return;
                    }
''')],
  main='''use corosensei::Coroutine;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::{any::Any, cell::RefCell, rc::Rc};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let slot: Rc<RefCell<Option<Box<dyn Any + Send>>>> = Rc::default();
    let s1 = slot.clone();
    let mut b = Coroutine::<(), (), ()>::new(move |y, ()| {
        let e = catch_unwind(AssertUnwindSafe(|| y.suspend(()))).unwrap_err();
        *s1.borrow_mut() = Some(e);
    });
    b.resume(());
    assert!(catch_unwind(AssertUnwindSafe(|| b.force_unwind())).is_err());
    let s2 = slot.clone();
    let mut a = Coroutine::<(), (), ()>::new(move |y, ()| {
        let _ = catch_unwind(AssertUnwindSafe(|| y.suspend(())));
        let e = s2.borrow_mut().take().unwrap();
        resume_unwind(e);
    });
    a.resume(());
    assert!(catch_unwind(AssertUnwindSafe(|| a.force_unwind())).is_err(), "an unwind of another coroutine was taken for its own");
}
''')

B['c07-swallow'] = dict(property='C07', what='force_unwind no longer reports that the body swallowed the unwind and returned',
  needs='a body that catches the forced unwind and then returns normally',
  edits=[(CO, '''                Ok(_) => panic!("the ForcedUnwind panic was caught and not rethrown"),''',
  '''                // A body that ran to its end has nothing left to unwind.
                Ok(_) if self.stack_ptr.is_none() => {}
                Ok(_) => panic!("the ForcedUnwind panic was caught and not rethrown"),''')],
  main='''use corosensei::Coroutine;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut b = Coroutine::<(), (), ()>::new(move |y, ()| {
        assert!(catch_unwind(AssertUnwindSafe(|| y.suspend(()))).is_err());
    });
    b.resume(());
    assert!(catch_unwind(AssertUnwindSafe(|| b.force_unwind())).is_err());
    assert!(b.done());
}
''')

# ---- C01
B['c01-yield-twice'] = dict(property='C01', what='a yielded value is destroyed a second time when its coroutine is unwound later',
  needs='an owned yield value and a forced unwind while the coroutine is suspended on it',
  edits=[(CO, '''            let mut val = ManuallyDrop::new(val);
            let result = arch::switch_yield(util::encode_val(&mut val), self.stack_ptr.as_ptr());
            unwind::maybe_force_unwind(util::decode_val(result))''',
  '''            let mut val = mem::MaybeUninit::new(val);
            let slot = &mut *(val.as_mut_ptr() as *mut ManuallyDrop<Yield>);
            let result = arch::switch_yield(util::encode_val(slot), self.stack_ptr.as_ptr());
            let val = scopeguard::guard(val, |val| drop(val.assume_init()));
            let input = unwind::maybe_force_unwind(util::decode_val(result));
            // The value now belongs to whoever resumed us.
            mem::forget(val);
            input''')],
  main='''use corosensei::{Coroutine, CoroutineResult};
use std::cell::Cell;
use std::rc::Rc;
struct T(Rc<Cell<usize>>);
impl Drop for T { fn drop(&mut self) { self.0.set(self.0.get() + 1) } }
fn main() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let mut co = Coroutine::<(), T, ()>::new(move |y, ()| y.suspend(T(m)));
    let got = match co.resume(()) { CoroutineResult::Yield(t) => t, _ => unreachable!() };
    drop(co);
    assert_eq!(n.get(), 0, "the value was destroyed while its owner still has it");
    std::mem::forget(got);
}
''')

# ---- C08
# ---- C11
B['c11-leak'] = dict(property='C11', what='x86_64: on_stack never releases the stack object it was given',
  needs='a stack type whose release can be observed, or many calls',
  edits=[(A64, '''pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
''', '''pub unsafe fn on_stack(arg: *mut u8, stack: impl Stack, f: StackCallFunc) {
    // The stack must stay valid until the call is over, whichever way it ends.
    let stack = core::mem::ManuallyDrop::new(stack);
''')],
  main='''use corosensei::{on_stack, stack::*};
use std::cell::Cell;
thread_local!(static N: Cell<usize> = const { Cell::new(0) });
struct S(DefaultStack);
unsafe impl Stack for S { fn base(&self) -> StackPointer { self.0.base() } fn limit(&self) -> StackPointer { self.0.limit() } }
impl Drop for S { fn drop(&mut self) { N.with(|n| n.set(n.get() + 1)) } }
fn main() {
    assert_eq!(on_stack(S(DefaultStack::default()), || 5), 5);
    assert_eq!(N.with(|n| n.get()), 1);
}
''')

# ---- C12
# ---- C13
B['c13-round'] = dict(property='C13', what='DefaultStack rounds the requested size down to whole pages instead of up',
  needs='a requested size that is not a multiple of the page size',
  edits=[('src/stack/unix.rs', '''            .checked_add(page_size + page_size - 1)''', '''            .checked_add(page_size)''')],
  main='''use corosensei::stack::{DefaultStack, Stack};
fn main() {
    for size in [4097usize, 5000, 8191, 70001] {
        let s = match DefaultStack::new(size) { Ok(s) => s, Err(e) => panic!("{e}") };
        let usable = s.base().get() - s.limit().get() - 4096;
        assert!(usable >= size, "{usable} of {size}");
        unsafe { core::ptr::write_volatile((s.base().get() - size) as *mut u8, 1) }
    }
}
''')

# ---- C14
B['c14-leak'] = dict(property='C14', what='DefaultStack::new leaves its mapping behind when it cannot make it writable',
  needs='mprotect failing after mmap succeeded',
  edits=[('src/stack/unix.rs', '''            // Create the result here. If the mprotect call fails then this will
            // be dropped and the memory will be unmapped.
            let out = Self {
                base: StackPointer::new(mmap as usize + mmap_len).unwrap(),
                mmap_len,
                valgrind: ManuallyDrop::new(ValgrindStackRegistration::new(
                    mmap as *mut u8,
                    mmap_len,
                )),
            };

''', ''), ('src/stack/unix.rs', '''                return Err(Error::last_os_error());
            }

            Ok(out)''', '''                return Err(Error::last_os_error());
            }

            Ok(Self {
                base: StackPointer::new(mmap as usize + mmap_len).unwrap(),
                mmap_len,
                valgrind: ManuallyDrop::new(ValgrindStackRegistration::new(
                    mmap as *mut u8,
                    mmap_len,
                )),
            })''')],
  main='''use corosensei::stack::DefaultStack;
use std::sync::atomic::{AtomicUsize, Ordering::*};
static MAPPED: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicUsize = AtomicUsize::new(0);
extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
unsafe fn ret(r: i64) -> i64 { r }
#[no_mangle] unsafe extern "C" fn mmap(a: usize, l: usize, p: i32, f: i32, d: i32, o: i64) -> usize {
    if ON.load(SeqCst) == 1 { MAPPED.fetch_add(1, SeqCst); }
    ret(syscall(9, a, l, p as i64, f as i64, d as i64, o)) as usize
}
#[no_mangle] unsafe extern "C" fn mmap64(a: usize, l: usize, p: i32, f: i32, d: i32, o: i64) -> usize { mmap(a, l, p, f, d, o) }
#[no_mangle] unsafe extern "C" fn munmap(a: usize, l: usize) -> i32 {
    if ON.load(SeqCst) == 1 { MAPPED.fetch_sub(1, SeqCst); }
    ret(syscall(11, a, l)) as i32
}
#[no_mangle] unsafe extern "C" fn mprotect(a: usize, l: usize, p: i32) -> i32 {
    if ON.load(SeqCst) == 1 { *__errno_location() = 12; return -1 }
    ret(syscall(10, a, l, p as i64)) as i32
}
fn main() {
    drop(DefaultStack::new(65536).unwrap());
    ON.store(1, SeqCst);
    let r = DefaultStack::new(65536).is_err();
    ON.store(0, SeqCst);
    assert!(r);
    assert_eq!(MAPPED.load(SeqCst), 0);
}
''')

# ---- C15
B['c15-early'] = dict(property='C15', what='into_stack is allowed on a coroutine that was never resumed, whose closure is then never destroyed',
  needs='into_stack on a coroutine that has not been started',
  edits=[(CO, '''            self.done(),
            "cannot extract''', '''            self.done() || !self.started(),
            "cannot extract''')],
  main='''use corosensei::Coroutine;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = Rc::new(());
    let r2 = r.clone();
    let co = Coroutine::<(), (), ()>::new(move |_, ()| drop(r2));
    assert!(catch_unwind(AssertUnwindSafe(move || co.into_stack())).is_err());
    assert_eq!(Rc::strong_count(&r), 1);
}
''')

# ---- C16
B['c16-base'] = dict(property='C16', what='stack_ptr_in_bounds counts the base address as part of the stack',
  needs='asking for exactly the base address, for instance the limit of the stack that lies above',
  edits=[('src/trap.rs', 'stack_ptr < self.stack_base.get()', 'stack_ptr <= self.stack_base.get()')],
  main='''use corosensei::{stack::*, Coroutine};
fn main() {
    let s = DefaultStack::default();
    let (b, l) = (s.base().get(), s.limit().get());
    let co = Coroutine::<(), (), (), _>::with_stack(s, |_, ()| ());
    let t = co.trap_handler();
    assert!(t.stack_ptr_in_bounds(l) && t.stack_ptr_in_bounds(b - 1));
    assert!(!t.stack_ptr_in_bounds(l - 1) && !t.stack_ptr_in_bounds(b));
}
''')

# ---- C17
TRAP = '''use corosensei::{stack::DefaultStack, trap::*, Coroutine, CoroutineResult};
type R = u64;
type H = fn(&CoroutineTrapHandler<R>) -> TrapHandlerRegs;
static mut TH: Option<(CoroutineTrapHandler<R>, H)> = None;
extern "C" {
    fn sigaction(n: i32, a: *const usize, o: *mut usize) -> i32;
    fn sigaltstack(a: *const usize, o: *mut usize) -> i32;
}
#[allow(static_mut_refs)]
extern "C" fn on_trap(_: i32, _: usize, uc: *mut u8) {
    unsafe {
        let (t, h) = TH.as_ref().unwrap();
        let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = h(t);
        let g = uc.add(40) as *mut u64;
        *g.add(16) = rip; *g.add(15) = rsp; *g.add(10) = rbp; *g.add(8) = rdi; *g.add(9) = rsi;
    }
}
fn install() {
    unsafe {
        let alt = Box::leak(vec![0usize; 65536].into_boxed_slice());
        let ss = [alt.as_ptr() as usize, 0, 65536 * 8];
        assert_eq!(sigaltstack(ss.as_ptr(), core::ptr::null_mut()), 0);
        let mut a = [0usize; 19];
        a[0] = on_trap as *const () as usize;
        a[17] = 4 | 0x08000000 | 0x40000000;
        assert_eq!(sigaction(11, a.as_ptr(), core::ptr::null_mut()), 0);
    }
}
'''
# ---- C18
B['c18-guard'] = dict(property='C18', what='dropping a suspended coroutine in a build without unwinding panics instead of aborting, after which its stack is freed with live objects on it',
  needs='a build without the unwind feature in a program that catches panics, and a coroutine dropped while suspended',
  edits=[(CO, '''        self.force_unwind();
        mem::forget(guard);
''', '''        // Only a panic on top of another one needs to be turned into an abort here.
        if cfg!(not(feature = "unwind")) {
            mem::forget(guard);
            self.force_unwind();
        } else {
            self.force_unwind();
            mem::forget(guard);
        }
''')],
  features=['default-stack'], status=134,
  main='''use corosensei::Coroutine;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let mut co = Coroutine::<(), (), ()>::new(|y, ()| y.suspend(()));
    co.resume(());
    let r = catch_unwind(AssertUnwindSafe(move || drop(co)));
    println!("survived: {}", r.is_err());
}
''')

# ---- C19
# ---- C20
VG = '''timeout 120 valgrind -d -d $d >out.log 2>&1
    [ $? = 0 ] || { tail -5 out.log; exit 1; }
    bash -c '
      want=$(grep -a "^STACK " out.log | cut -d" " -f2 | sort)
      got=$(grep -a " register \\[" out.log | sed "s/.*\\[\\(0x[0-9A-F]*\\)-\\(0x[0-9A-F]*\\)\\].*/\\1-\\2/" | sort)
      for x in $want; do echo "$got" | grep -q "^$x$" || { echo "stack $x was not announced: $got"; exit 1; }; done
      ids=$(grep -a " register \\[" out.log | sed "s/.*as stack \\([0-9]*\\).*/\\1/" | sort -n | tail -2)
      for n in $ids; do [ $(grep -ac "deregister stack $n$" out.log) = 1 ] || { echo "stack $n was not withdrawn once"; exit 1; }; done
    ' || exit 1'''
B['c20-range'] = dict(property='C20', what='the guard page is missing from the range announced to Valgrind',
  needs='running under Valgrind and looking at the announced range',
  edits=[('src/stack/unix.rs', '''                    mmap as *mut u8,
                    mmap_len,
                )),''', '''                    (mmap as *mut u8).add(page_size),
                    mmap_len - page_size,
                )),''')],
  run=VG, profiles=['release'],
  main='''use corosensei::stack::{DefaultStack, Stack};
fn main() {
    for n in [4096usize, 100000] {
        let s = DefaultStack::new(n).unwrap();
        println!("STACK 0x{:X}-0x{:X}", s.limit().get(), s.base().get());
    }
}
''')
