B['c24-scratch'] = dict(property='C24', what='values of two to eight words travel through one static buffer shared by all threads',
  needs='two threads that are in the middle of a switch at the same time',
  edits=[('src/util.rs', '''    } else {
        val as *const ManuallyDrop<T> as EncodedValue
    }''', '''    } else if mem::size_of::<T>() <= mem::size_of::<Scratch>() && mem::align_of::<T>() <= mem::align_of::<Scratch>() {
        // Keep small values off the stack which may be unmapped before they are read.
        let out = ptr::addr_of_mut!(SCRATCH) as *mut T;
        ptr::write(out, ManuallyDrop::take(val));
        out as EncodedValue
    } else {
        val as *const ManuallyDrop<T> as EncodedValue
    }'''), ('src/util.rs', '''/// Internal type for a value that has been encoded in a `usize`.
''', '''#[repr(align(16))]
struct Scratch(#[allow(dead_code)] [usize; 8]);
static mut SCRATCH: Scratch = Scratch([0; 8]);

/// Internal type for a value that has been encoded in a `usize`.
''')], profiles=['release'],
  main='''use corosensei::*;
fn worker(k: usize) -> bool {
    let mut co = Coroutine::<[usize; 4], [usize; 4], ()>::new(move |s, mut x| loop { x = s.suspend([x[0] ^ k, x[1] ^ k, x[2] ^ k, x[3] ^ k]) });
    let mut ok = true;
    for i in 0..3_000_000usize {
        match co.resume([i; 4]) { CoroutineResult::Yield(v) => if v != [i ^ k; 4] { ok = false; break }, _ => { ok = false; break } }
    }
    unsafe { co.force_reset() };
    ok
}
fn main() {
    let t: Vec<_> = (1..5usize).map(|k| std::thread::spawn(move || worker(k << 40))).collect();
    let ok = t.into_iter().all(|t| t.join().unwrap());
    assert!(ok, "a value of another thread arrived");
}
''')

B['c24-unwinding'] = dict(property='C24', what='force_unwind recognises its own payload through one static shared by all threads',
  needs='two threads that force-unwind coroutines at the same time',
  edits=[('src/coroutine.rs', '''            let forced_unwind = unwind::ForcedUnwind(stack_ptr);
            let result''', '''            // Remember whom we are unwinding, for the check below.
            let outer = UNWINDING.swap(stack_ptr.get(), Ordering::Relaxed);
            let forced_unwind = unwind::ForcedUnwind(stack_ptr);
            let result'''), ('src/coroutine.rs', '''            match result {
                Ok(_) => panic!("the ForcedUnwind panic was caught and not rethrown"),
                Err(e) => {
                    if let Some(forced_unwind) = e.downcast_ref::<unwind::ForcedUnwind>() {
                        if forced_unwind.0 == stack_ptr {''', '''            let target = UNWINDING.swap(outer, Ordering::Relaxed);
            match result {
                Ok(_) => panic!("the ForcedUnwind panic was caught and not rethrown"),
                Err(e) => {
                    if let Some(forced_unwind) = e.downcast_ref::<unwind::ForcedUnwind>() {
                        if forced_unwind.0.get() == target {'''), ('src/coroutine.rs', '''impl<Input, Yield, Return> Coroutine<Input, Yield, Return, DefaultStack> {
''', '''/// The coroutine whose stack is currently being unwound.
#[cfg(feature = "unwind")]
static UNWINDING: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
#[cfg(feature = "unwind")]
use core::sync::atomic::Ordering;

#[cfg(feature = "default-stack")]
impl<Input, Yield, Return> Coroutine<Input, Yield, Return, DefaultStack> {
''')], profiles=['release'],
  main='''use corosensei::*;
use corosensei::stack::DefaultStack;
struct D;
impl Drop for D { fn drop(&mut self) { for _ in 0..50 { std::hint::spin_loop() } } }
fn worker() {
    let mut st = DefaultStack::new(65536).unwrap();
    for _ in 0..40_000 {
        let mut co = Coroutine::<(), (), ()>::with_stack(st, |s, ()| { let _d = D; s.suspend(()) });
        let _ = co.resume(());
        co.force_unwind();
        st = co.into_stack();
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let t: Vec<_> = (0..4).map(|_| std::thread::spawn(worker)).collect();
    assert!(t.into_iter().all(|t| t.join().is_ok()), "a forced unwind was not recognised");
}
''')

B['c24-stack-cache'] = dict(property='C24', what='the last released default stack is kept for the next user of that size, but looking at the slot and emptying it are two steps',
  needs='two threads that create a default stack of the same size at the same time while one is cached',
  edits=[('src/stack/unix.rs', '''        unsafe {
            // Reserve some address space for the stack.
''', '''        // Use the stack that was released last if it fits.
        let cached = CACHED.load(Ordering::Acquire);
        if cached != 0 && CACHED_LEN.load(Ordering::Acquire) == mmap_len {
            CACHED.store(0, Ordering::Release);
            return Ok(Self {
                base: StackPointer::new(cached + mmap_len).unwrap(),
                mmap_len,
                valgrind: ManuallyDrop::new(ValgrindStackRegistration::new(
                    cached as *mut u8,
                    mmap_len,
                )),
            });
        }

        unsafe {
            // Reserve some address space for the stack.
'''), ('src/stack/unix.rs', '''            let mmap = self.base.get() - self.mmap_len;
            let ret''', '''            let mmap = self.base.get() - self.mmap_len;
            if self.mmap_len == CACHE_LEN && CACHED.compare_exchange(0, mmap, Ordering::AcqRel, Ordering::Relaxed).is_ok() {
                CACHED_LEN.store(self.mmap_len, Ordering::Release);
                return;
            }
            let ret'''), ('src/stack/unix.rs', '''/// Default stack implementation which uses `mmap`.
''', '''use core::sync::atomic::{AtomicUsize, Ordering};

// Stacks of 64 KiB are what most users ask for.
const CACHE_LEN: usize = (1 << 16) + 4096;
static CACHED: AtomicUsize = AtomicUsize::new(0);
static CACHED_LEN: AtomicUsize = AtomicUsize::new(0);

/// Default stack implementation which uses `mmap`.
''')], profiles=['release'],
  main='''use corosensei::stack::{DefaultStack, Stack};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static LIVE: [AtomicUsize; 4] = [const { AtomicUsize::new(0) }; 4];
static BAD: AtomicUsize = AtomicUsize::new(0);
fn worker(k: usize) {
    for _ in 0..400_000 {
        if BAD.load(SeqCst) != 0 { return }
        let s = DefaultStack::new(65536).unwrap();
        LIVE[k].store(s.base().get(), SeqCst);
        for j in 0..4 { if j != k && LIVE[j].load(SeqCst) == s.base().get() { BAD.store(1, SeqCst) } }
        LIVE[k].store(0, SeqCst);
        if BAD.load(SeqCst) != 0 { std::mem::forget(s); return }
    }
}
fn main() {
    let t: Vec<_> = (0..4).map(|k| std::thread::spawn(move || worker(k))).collect();
    for t in t { t.join().unwrap() }
    assert_eq!(BAD.load(SeqCst), 0, "two threads were given the same stack");
}
''')

B['c24-home-thread'] = dict(property='C24', what='a coroutine that is dropped by another thread than the one that resumed it last is not unwound',
  needs='a suspended coroutine that is sent to another thread and dropped there',
  edits=[('src/coroutine.rs', '''        // If the coroutine has already terminated then there is nothing to do.
        if let Some(stack_ptr) = self.stack_ptr {
''', '''        // If the coroutine has already terminated then there is nothing to do.
        if let Some(stack_ptr) = self.stack_ptr {
            // Its objects belong to the thread it has been running on.
            #[cfg(feature = "unwind")]
            if self.started() && !RUNS_HERE.with(|r| r.get()) {
                self.stack_ptr = None;
                return;
            }
'''), ('src/coroutine.rs', '''        let mut input = ManuallyDrop::new(input);
        let (result, stack_ptr) =
            arch::switch_and_link''', '''        #[cfg(feature = "unwind")]
        RUNS_HERE.with(|r| r.set(true));
        let mut input = ManuallyDrop::new(input);
        let (result, stack_ptr) =
            arch::switch_and_link'''), ('src/coroutine.rs', '''impl<Input, Yield, Return> Coroutine<Input, Yield, Return, DefaultStack> {
''', '''#[cfg(feature = "unwind")]
extern crate std;
#[cfg(feature = "unwind")]
std::thread_local! {
    /// Whether this thread has run coroutines.
    static RUNS_HERE: core::cell::Cell<bool> = const { core::cell::Cell::new(false) };
}

#[cfg(feature = "default-stack")]
impl<Input, Yield, Return> Coroutine<Input, Yield, Return, DefaultStack> {
''')], profiles=['release'],
  main='''use corosensei::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct D;
impl Drop for D { fn drop(&mut self) { N.fetch_add(1, SeqCst); } }
struct S(Coroutine<(), (), ()>);
unsafe impl Send for S {}
fn main() {
    let mut co = S(Coroutine::new(|s, ()| { let _d = D; s.suspend(()) }));
    let _ = co.0.resume(());
    std::thread::spawn(move || { let co = co; drop(co) }).join().unwrap();
    assert_eq!(N.load(SeqCst), 1, "the object on the coroutine's stack was never destroyed");
}
''')
