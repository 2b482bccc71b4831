A64 = 'src/arch/x86_64.rs'
A32 = 'src/arch/x86.rs'
CO = 'src/coroutine.rs'
ASM = dict(features=['default-stack', 'unwind', 'asm-unwind'], env=['RUSTC_BOOTSTRAP=1'])

B['c02-started-done'] = dict(property='C02', what='started() is false again once the coroutine has finished',
  needs='asking started() after the coroutine has returned',
  edits=[(CO, 'self.stack_ptr != Some(self.initial_stack_ptr)', 'self.stack_ptr.map_or(false, |p| p != self.initial_stack_ptr)')],
  main='''use corosensei::*;
fn main() {
    let mut co = Coroutine::<(), (), ()>::new(|s, ()| s.suspend(()));
    assert!(!co.started());
    let _ = co.resume(());
    assert!(co.started() && !co.done());
    let _ = co.resume(());
    assert!(co.started() && co.done());
}
''')

B['c02-asm-none'] = dict(property='C02', what='asm-unwind: a coroutine that panicked still counts as suspended where it was last resumed',
  needs='the asm-unwind feature and a coroutine that panics; done() afterwards or dropping it',
  edits=[(CO, '''        // Pre-emptively set the stack pointer to None in case
        // switch_and_link unwinds.
        self.stack_ptr = None;

''', '')], **ASM,
  main='''use corosensei::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let mut co = Coroutine::<(), (), ()>::new(|s, ()| { s.suspend(()); panic!() });
    let _ = co.resume(());
    assert!(catch_unwind(AssertUnwindSafe(|| co.resume(()))).is_err());
    assert!(co.done());
}
''')

B['c05-zst'] = dict(property='C05', what='a closure without size but with a large alignment is placed at an address that is only aligned to the stack alignment',
  needs='a closure that captures only a zero-sized value with an alignment above the stack alignment',
  edits=[('src/arch/mod.rs', 'if mem::align_of::<T>() > STACK_ALIGNMENT {\n        *sp -=', 'if mem::align_of::<T>() > STACK_ALIGNMENT && mem::size_of::<T>() != 0 {\n        *sp -=')],
  profiles=['dev'],
  main='''use corosensei::*;
#[repr(align(256))]
struct A;
fn main() {
    for _ in 0..4 {
        let a = A;
        let mut co = Coroutine::<(), (), usize>::new(move |_, ()| { let a = &a; a as *const A as usize });
        assert!(matches!(co.resume(()), CoroutineResult::Return(p) if p % 256 == 0));
    }
}
''')

B['c15-into-unstarted'] = dict(property='C15', what='into_stack hands out the stack of a coroutine that was never resumed, losing its closure',
  needs='into_stack on a coroutine that has not been started, whose closure owns something',
  edits=[(CO, '''            self.done(),
            "cannot extract''', '''            self.done() || !self.started(),
            "cannot extract''')],
  main='''use corosensei::*;
use std::{panic::{catch_unwind, AssertUnwindSafe}, rc::Rc};
fn main() {
    let x = Rc::new(1);
    let y = x.clone();
    let co = Coroutine::<(), (), i32>::new(move |_, ()| *y);
    let _ = catch_unwind(AssertUnwindSafe(|| drop(co.into_stack())));
    assert_eq!(Rc::strong_count(&x), 1);
}
''')

B['c07-panicking'] = dict(property='C07', what='a suspended coroutine that is dropped while a panic is being propagated is not unwound',
  needs='a suspended coroutine owned by a frame that unwinds because of a panic',
  edits=[(CO, '''        self.force_unwind();
        mem::forget(guard);''', '''        #[cfg(feature = "unwind")]
        {
            extern crate std;
            // Throwing another exception while one is in flight is asking for
            // trouble, the stack is going away in any case.
            if std::thread::panicking() {
                self.stack_ptr = None;
            }
        }
        self.force_unwind();
        mem::forget(guard);''')],
  main='''use corosensei::*;
use std::{panic::{catch_unwind, AssertUnwindSafe}, rc::Rc};
fn main() {
    let x = Rc::new(1);
    let y = x.clone();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut co = Coroutine::<(), (), ()>::new(move |s, ()| { let y = y.clone(); s.suspend(()); drop(y) });
        let _ = co.resume(());
        panic!();
    }));
    assert!(r.is_err());
    assert_eq!(Rc::strong_count(&x), 1);
}
''')

B['c08-drop-payload'] = dict(property='C08', what='a panic raised by a destructor during the unwinding of a coroutine arrives with another payload',
  needs='force_unwind of a coroutine in which a destructor panics (or the unwind is caught and replaced), looking at the payload',
  edits=[(CO, 'std::panic::resume_unwind(e);', 'drop(e);\n                    panic!("a panic occurred while unwinding the coroutine");')],
  main='''use corosensei::*;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
fn main() {
    let mut co = Coroutine::<(), (), ()>::new(|s, ()| {
        if catch_unwind(AssertUnwindSafe(|| s.suspend(()))).is_err() {
            resume_unwind(Box::new(42u32));
        }
    });
    let _ = co.resume(());
    let e = catch_unwind(AssertUnwindSafe(|| co.force_unwind())).unwrap_err();
    assert_eq!(e.downcast_ref::<u32>(), Some(&42));
}
''')

B['c03-throw-clobber'] = dict(property='C03', what='asm-unwind on x86_64: forcing a coroutine to unwind overwrites the callee-saved r13 of the caller',
  needs='the asm-unwind feature, force_unwind from a frame that keeps a value in r13, and a coroutine that has another value in it',
  edits=[(A64, '''        in("rsi") stack_base.get() as u64,
        in("rdx") sp.get() as u64,

        // See switch_and_link() for an explanation of the clobbers.
        lateout("r12") _, lateout("r13") _, lateout("r14") _, lateout("r15") _,''', '''        in("rsi") stack_base.get() as u64,
        in("rdx") sp.get() as u64,

        // See switch_and_link() for an explanation of the clobbers.
        lateout("r12") _, lateout("r14") _, lateout("r15") _,''')], **ASM, profiles=['release'],
  main='''use corosensei::*;
core::arch::global_asm!(".globl with_r13", "with_r13:", ".cfi_startproc", "push r13", ".cfi_def_cfa_offset 16", ".cfi_offset r13, -16",
    "mov r13, rdx", "mov rax, rdi", "mov rdi, rsi", "call rax", "mov rax, r13", "pop r13", ".cfi_def_cfa_offset 8", "ret", ".cfi_endproc");
extern "C" { fn with_r13(f: extern "C" fn(*mut u8), arg: *mut u8, v: usize) -> usize; }
type Co = Coroutine<(), (), ()>;
struct D;
impl Drop for D {
    fn drop(&mut self) { unsafe { core::arch::asm!("mov r13, -2", out("r13") _) } }
}
extern "C" fn unwind(p: *mut u8) { unsafe { (*(p as *mut Co)).force_unwind() } }
fn main() {
    let mut co = Co::new(|s, ()| { let _d = D; s.suspend(()) });
    let _ = co.resume(());
    assert_eq!(unsafe { with_r13(unwind, &mut co as *mut Co as *mut u8, 0x1234) }, 0x1234);
}
''')

B['c19-throw-link'] = dict(property='C19', what='asm-unwind on x86_64: a forced unwind leaves the parent link as it was, so the coroutine unwinds into the context that resumed it before',
  needs='the asm-unwind feature and force_unwind from another frame depth than the last resume',
  edits=[(A64, '''        // Update the parent link near the base of the coroutine stack.
        "mov [rsi - 16], rsp",
''', '')], **ASM,
  main='''use corosensei::*;
type Co = Coroutine<u32, u32, ()>;
#[inline(never)]
fn first(co: &mut Co, n: u32) -> u32 {
    let a = std::hint::black_box([n; 64]);
    let r = match co.resume(n) { CoroutineResult::Yield(x) => x, _ => 0 };
    r + std::hint::black_box(a)[63]
}
#[inline(never)]
fn second(co: &mut Co, n: u32) -> u32 {
    let a = std::hint::black_box([n; 512]);
    co.force_unwind();
    std::hint::black_box(a).iter().sum()
}
fn main() {
    let mut co = Co::new(|s, x| { s.suspend(x); });
    assert_eq!(first(&mut co, 5), 10);
    assert_eq!(second(&mut co, 2), 1024);
    assert!(co.done());
}
''')

B['c20-preamble'] = dict(property='C20', what='x86_64: the instruction sequence in front of the valgrind request is not the one valgrind looks for, so no stack is ever registered',
  needs='running under valgrind',
  edits=[('src/stack/valgrind.rs', '''                "rol rdi, 61",
                "rol rdi, 51",''', '''                "rol rdi, 51",
                "rol rdi, 61",''')],
  profiles=['dev'],
  run='''timeout 60 $d >out.log 2>&1 || { echo "fails by itself"; exit 3; }
    timeout 120 valgrind --log-file=vg.log --trace-syscalls=no -d $d >out.log 2>&1 || { echo "no valgrind"; exit 3; }
    timeout 120 valgrind --log-file=vg.log $d >out.log 2>&1
    grep -q "switching stacks" vg.log && { echo "the stack is not known to valgrind"; exit 1; }
    true''',
  main='''use corosensei::{stack::DefaultStack, *};
fn main() {
    let mut co = Coroutine::<u32, u32, u32>::with_stack(DefaultStack::new(65536).unwrap(), |s, x| { let a = std::hint::black_box([x; 100]); s.suspend(a[3]) });
    let _ = co.resume(1);
    let _ = co.resume(2);
}
''')
