A64 = 'src/arch/x86_64.rs'
A32 = 'src/arch/x86.rs'
CO = 'src/coroutine.rs'

B['c02-reset'] = dict(property='C02', what='force_reset does nothing on a coroutine that has not been resumed yet, which therefore is not done',
  needs='force_reset on a fresh coroutine',
  edits=[(CO, '''
        self.stack_ptr = None;
    }

    /// Unwinds the coroutine stack''', '''
        // There is nothing to skip if the body has not been entered.
        if self.started() {
            self.stack_ptr = None;
        }
    }

    /// Unwinds the coroutine stack''')],
  main='''use corosensei::Coroutine;
fn main() {
    let mut co = Coroutine::<(), (), ()>::new(|_, ()| ());
    unsafe { co.force_reset() }
    assert!(co.done());
}
''')

STK = '''use corosensei::{stack::*, Coroutine};
/// 4 KiB in the middle of a larger buffer
struct Mid(Vec<u128>);
impl Mid { fn new() -> Mid { Mid(vec![0x5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a; 3 * 256]) } fn lo(&self) -> usize { self.0.as_ptr() as usize + 4096 } }
unsafe impl Stack for Mid {
    fn base(&self) -> StackPointer { StackPointer::new(self.lo() + 4096).unwrap() }
    fn limit(&self) -> StackPointer { StackPointer::new(self.lo()).unwrap() }
}
'''
B['c04-size'] = dict(property='C04', what='captured objects of up to four pages are accepted although the smallest stack has one page',
  needs='a closure with more than 4 KiB of captures on a small stack',
  edits=[('src/arch/mod.rs', 'assert!(mem::size_of::<T>() <= 1024, ', 'assert!(mem::size_of::<T>() <= 16384, ')],
  profiles=['release'],
  main=STK + '''use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // one page of stack with the rest of the buffer below it
    let m = Mid::new();
    let p = m.0.as_ptr();
    let big = [7u8; 5000];
    let r = catch_unwind(AssertUnwindSafe(move || {
        let mut co = Coroutine::<(), (), u8, Mid>::with_stack(m, move |_, ()| big[9]);
        let below = unsafe { core::slice::from_raw_parts(p, 256) };
        assert!(below.iter().all(|&b| b == 0x5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a));
        std::hint::black_box(&mut co);
        std::mem::forget(co);
    }));
    assert!(r.is_err(), "the capture was accepted");
}
''')
# whatever happens the capture must have been refused: the assertion above only notices a write below the stack
B['c04-size']['main'] = STK + '''use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::*};
static BAD: AtomicBool = AtomicBool::new(false);
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let m = Mid::new();
    let p = m.0.as_ptr() as usize;
    let big = [7u8; 5000];
    let _ = catch_unwind(AssertUnwindSafe(move || {
        let co = Coroutine::<(), (), u8, Mid>::with_stack(m, move |_, ()| big[9]);
        let below = unsafe { core::slice::from_raw_parts(p as *const u8, 4096) };
        if below.iter().any(|&b| b != 0x5a) { BAD.store(true, SeqCst) }
        std::mem::forget(co);
    }));
    assert!(!BAD.load(SeqCst), "written below the limit of the stack");
}
'''

TRAP = '''use corosensei::{stack::DefaultStack, trap::*, Coroutine, CoroutineResult};
type R = u64;
type H = fn(&CoroutineTrapHandler<R>) -> TrapHandlerRegs;
static mut TH: Option<(CoroutineTrapHandler<R>, H)> = None;
extern "C" {
    fn sigaction(n: i32, a: *const usize, o: *mut usize) -> i32;
    fn sigaltstack(a: *const usize, o: *mut usize) -> i32;
}
#[allow(static_mut_refs)]
extern "C" fn on_trap(_: i32, _: usize, uc: *mut u8) {
    unsafe {
        let (t, h) = TH.as_ref().unwrap();
        let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = h(t);
        let g = uc.add(40) as *mut u64;
        *g.add(16) = rip; *g.add(15) = rsp; *g.add(10) = rbp; *g.add(8) = rdi; *g.add(9) = rsi;
    }
}
fn install() {
    unsafe {
        let alt = Box::leak(vec![0usize; 65536].into_boxed_slice());
        let ss = [alt.as_ptr() as usize, 0, 65536 * 8];
        assert_eq!(sigaltstack(ss.as_ptr(), core::ptr::null_mut()), 0);
        let mut a = [0usize; 19];
        a[0] = on_trap as *const () as usize;
        a[17] = 4 | 0x08000000 | 0x40000000;
        assert_eq!(sigaction(11, a.as_ptr(), core::ptr::null_mut()), 0);
    }
}
'''
B['c05-trap'] = dict(property='C05', what='x86_64: the return address for a trap-recovery closure is not pushed, so that the closure starts with its stack off by 8',
  needs='a recovery closure with locals that need 16-byte alignment',
  edits=[(A64, '''    // Set up a return address which returns to stack_init_trampoline. This has
    // the necessary unwinding metadata to switch back to the primary stack when
    // unwinding.
    push(
        &mut sp,
        Some(stack_init_trampoline_return.as_ptr() as StackWord),
    );

    // Set up registers''', '''    // Set up a return address which returns to stack_init_trampoline. This has
    // the necessary unwinding metadata to switch back to the primary stack when
    // unwinding. The handler never returns, so it does not need a slot of its
    // own if there is room between the object and its alignment.
    *((sp - mem::size_of::<StackWord>()) as *mut StackWord) =
        stack_init_trampoline_return.as_ptr() as StackWord;

    // Set up registers'''), (A64, 'use core::arch::{asm, global_asm};', 'use core::arch::{asm, global_asm};\nuse core::mem;')],
  main=TRAP + '''
#[repr(align(16))] struct A(u64, u64);
fn main() {
    install();
    let mut co = Coroutine::<(), (), R, DefaultStack>::new(|_, ()| unsafe { core::ptr::write_volatile(8 as *mut u8, 1); 0 });
    unsafe {
        TH = Some((co.trap_handler(), |t| unsafe { t.setup_trap_handler(move || {
            let a = A(1, 2);
            let p = &a as *const A as u64;
            (std::hint::black_box(p) & 15) + std::hint::black_box(&a).0
        }) }))
    }
    assert_eq!(co.resume(()), CoroutineResult::Return(1));
}
''')

B['c06-overalign'] = dict(property='C06', what='the captures of a closure that need more alignment than the stack are placed relative to the wrong address',
  needs='captures with an alignment above 16 that are destroyed before the coroutine is started',
  edits=[('src/arch/mod.rs', '''        *sp -= mem::size_of::<T>();
        *sp &= !(mem::align_of::<T>() - 1);''', '''        let total_size = sp_offset + mem::size_of::<T>();
        let padding = total_size.next_multiple_of(mem::align_of::<T>()) - sp_offset;
        *sp = ((*sp - padding) & !(mem::align_of::<T>() - 1)) - sp_offset;''')],
  profiles=['release'],
  main='''use corosensei::Coroutine;
use std::sync::atomic::{AtomicUsize, Ordering::*};
static AT: AtomicUsize = AtomicUsize::new(1);
#[repr(align(64))] struct A([u8; 64]);
impl Drop for A { fn drop(&mut self) { let p = std::hint::black_box(self as *const A as usize); AT.store(p, SeqCst) } }
fn main() {
    let a = A([1; 64]);
    let co = Coroutine::<(), (), u8>::new(move |_, ()| { let a = a; a.0[5] });
    drop(co);
    assert_eq!(AT.load(SeqCst) % 64, 0);
}
''')

B['c10-on-stack'] = dict(property='C10', what='x86: on_stack marks the end of the frame-pointer chain instead of continuing it into its caller',
  needs='a 32-bit build with frame pointers whose chain is followed from inside on_stack',
  edits=[(A32, '''    "push ebp",
    "mov ebp, esp",
    ".cfi_def_cfa ebp, 8",
    ".cfi_offset ebp, -8",
    // Switch to the new stack.
    "mov esp, edx",''', '''    "push ebp",
    "push esi",
    "mov esi, esp",
    ".cfi_def_cfa esi, 12",
    ".cfi_offset ebp, -8",
    ".cfi_offset esi, -12",
    "xor ebp, ebp",
    // Switch to the new stack.
    "mov esp, edx",'''), (A32, '''    "mov esp, ebp",
    "pop ebp",
    "ret",''', '''    "mov esp, esi",
    "pop esi",
    "pop ebp",
    "ret",''')],
  targets=[X86], profiles=['release'],
  main='''use corosensei::{on_stack, stack::DefaultStack};
// fn framed(f, arg): a caller with a frame record
core::arch::global_asm!(".globl framed", "framed:", "push ebp", "mov ebp, esp", "push dword ptr [ebp + 12]", "call dword ptr [ebp + 8]", "add esp, 4", "pop ebp", "ret");
extern "C" { fn framed(f: extern "C" fn(usize), arg: usize); fn chain() -> usize; }
// ebp as it is in the caller
core::arch::global_asm!(".globl chain", "chain:", "mov eax, ebp", "ret");
extern "C" fn go(want: usize) {
    let found = on_stack(DefaultStack::default(), move || unsafe {
        let mut p = chain();
        let mut n = 0;
        while p != 0 && n < 50 {
            if *((p + 4) as *const usize) == want { return true }
            p = *(p as *const usize);
            n += 1;
        }
        false
    });
    assert!(found);
}
extern "C" fn probe(_: usize) { unsafe { RET = *((chain() + 4) as *const usize) } }
static mut RET: usize = 0;
fn main() {
    // the return address that "framed" leaves behind its call
    unsafe {
        framed(probe, 0);
        let want = RET;
        framed(go, want);
    }
}
''')
# the demo itself needs frame pointers
B['c10-on-stack']['run'] = '''RUSTFLAGS="-C force-frame-pointers=yes" cargo build -q --offline --target $t $r >build.log 2>&1 || exit 4
    timeout 60 $d >out.log 2>&1
    s=$?
    [ $s = 0 ] || { tail -5 out.log; echo "$t $p: exit status $s"; exit 1; }'''

B['c12-misalign'] = dict(property='C12', what='on_parent_stack only aligns the resumer\'s stack to the size of a word',
  needs='a closure with a local that needs 16-byte alignment',
  edits=[(CO, '''        let stack_base = StackPointer::new_unchecked(stack_ptr.get() & !(STACK_ALIGNMENT - 1));''',
  '''        let stack_base = StackPointer::new_unchecked(
            stack_ptr.get() & !(mem::align_of::<arch::StackWord>() - 1),
        );''')],
  main='''use corosensei::{Coroutine, CoroutineResult};
#[repr(align(16))] struct A(u64, u64);
fn main() {
    let mut co = Coroutine::<(), (), usize>::new(|y, ()| y.on_parent_stack(|| {
        let a = A(1, 2);
        let p = &a as *const A as usize;
        std::hint::black_box(&a);
        std::hint::black_box(p) & 15
    }));
    assert_eq!(co.resume(()), CoroutineResult::Return(0));
}
''')
B['c12-misalign']['property'] = 'C05'

B['c17-captures'] = dict(property='C17', what='x86_64: trap recovery looks for its closure at an address that ignores the padding in front of it',
  needs='a recovery closure whose captures are not a multiple of 16 bytes',
  edits=[(A64, '''    let val_ptr = sp;

    // Set up a return address''', '''    let val_ptr = parent_link - core::mem::size_of::<T>();

    // Set up a return address''')],
  main=TRAP + '''
fn main() {
    install();
    let mut co = Coroutine::<(), (), R, DefaultStack>::new(|_, ()| unsafe { core::ptr::write_volatile(8 as *mut u8, 1); 0 });
    unsafe {
        TH = Some((co.trap_handler(), |t| { let v = std::hint::black_box([1u64, 2, 3]); unsafe { t.setup_trap_handler(move || v.iter().sum()) } }))
    }
    assert_eq!(co.resume(()), CoroutineResult::Return(6));
}
''')

B['c18-root'] = dict(property='C18', what='in a build without unwinding a panic leaves the coroutine and unwinds into the resumer',
  needs='a build without the unwind feature in a program that catches panics',
  edits=[('src/unwind.rs', '''            let result = f();
            core::mem::forget(guard);
            Ok(result)''', '''            // The guard is only needed for panics that reach the root frame.
            core::mem::forget(guard);
            Ok(f())''')],
  features=['default-stack'], status=134,
  main='''use corosensei::Coroutine;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let mut co = Coroutine::<(), (), ()>::new(|_, ()| panic!("out"));
    let r = catch_unwind(AssertUnwindSafe(|| co.resume(())));
    println!("survived: {}", r.is_err());
}
''')

B['c20-withdraw'] = dict(property='C20', what='a default stack is never withdrawn from Valgrind',
  needs='running under Valgrind',
  edits=[('src/stack/unix.rs', '''            // De-register the stack first.
            ManuallyDrop::drop(&mut self.valgrind);

''', '''            // Unmapping the memory also makes Valgrind forget about it.
            debug_assert!(core::mem::size_of_val(&self.valgrind) > 0);

''')],
  run='''timeout 120 valgrind -d -d $d >out.log 2>&1
    [ $? = 0 ] || { tail -5 out.log; exit 1; }
    [ $(grep -ac "deregister stack" out.log) -ge 2 ] || { echo "not withdrawn"; exit 1; }''', profiles=['release'],
  main='''use corosensei::stack::DefaultStack;
fn main() {
    for n in [4096usize, 100000] { drop(DefaultStack::new(n).unwrap()) }
}
''')

B['c03-link-clobber'] = dict(property='C03', what='x86_64: switch_and_link no longer tells the compiler that a switch overwrites r12',
  needs='an optimised resumer with enough live values that one is kept in r12 across a resume, and a coroutine that puts something else there',
  edits=[(A64, '''        // function.
        lateout("r12") _, lateout("r13") _, lateout("r14") _, lateout("r15") _,''', '''        // function.
        lateout("r13") _, lateout("r14") _, lateout("r15") _,''')],
  profiles=['release'],
  main='''use corosensei::Coroutine;
use std::hint::black_box;
#[inline(never)]
fn scramble() { unsafe { core::arch::asm!("mov r13, -2", "mov r14, -3", "mov r15, -4", out("r13") _, out("r14") _, out("r15") _) } }
fn main() {
    let mut co = Coroutine::<u64, u64, u64>::new(|s, mut x| {
        loop {
            unsafe { core::arch::asm!("mov r12, -1", out("r12") _) }
            scramble();
            x = s.suspend(x + 1);
            if x == 1000 { break x }
        }
    });
    let (a, b, c, d, e, f, g, h) = (black_box(1u64), black_box(2u64), black_box(3u64), black_box(4u64), black_box(5u64), black_box(6u64), black_box(7u64), black_box(8u64));
    for i in 0..black_box(5u64) {
        black_box(co.resume(i));
    }
    let r = [a, b, c, d, e, f, g, h];
    for (i, v) in r.iter().enumerate() {
        assert_eq!(*v, i as u64 + 1);
    }
    co.resume(1000);
}
''')


# noticed by the existing tests; kept for experiments: the payload is wrapped
B['x-c08-payload'] = dict(property='C08', what='panic_any', needs='', main='fn main(){}', skip=1,
  edits=[('src/unwind.rs', '''                Ok(val) => val,
                Err(e) => panic::resume_unwind(e),
            }
        }
    } else {
        pub type CaughtPanic''', '''                Ok(val) => val,
                Err(e) => panic::panic_any(e),
            }
        }
    } else {
        pub type CaughtPanic''')])
