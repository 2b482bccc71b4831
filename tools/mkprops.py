#!/usr/bin/env python3
# Writes properties.jsonl (kept as a generator so that long texts stay readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

CO="src/coroutine.rs"; X64="src/arch/x86_64.rs"; X86="src/arch/x86.rs"; AM="src/arch/mod.rs"
UW="src/unwind.rs"; TR="src/trap.rs"; UT="src/util.rs"; SU="src/stack/unix.rs"; SM="src/stack/mod.rs"; VG="src/stack/valgrind.rs"

p("C01","Values cross a switch bit-exact, exactly once and in order",
  "Every value passed to resume arrives unchanged as the coroutine's first argument or as the result of the suspend call it wakes, and every value given to suspend or returned from the body arrives unchanged at the resume call that is waiting, in order, for every type size and alignment and every bit pattern. Each transferred value has exactly one owner: it is neither dropped on the way nor delivered twice.",
  ["inputs","programs","histories"],
  "All bit patterns of all transferred values; types of size 0 up to and beyond a machine word (both sides of the by-value/by-pointer boundary), aligned and unaligned; every sequence of resumes and suspends.",
  "Tests pass a handful of values of four types (unit, i32, f64, String); a size-dependent or bit-pattern-dependent loss is invisible to them.",
  [UT,CO,X64,X86],[("encode/decode by value or by pointer","src/util.rs encode_val/decode_val"),("argument register passed through the switch","src/arch/x86_64.rs switch_and_link/switch_yield"),("resume/suspend/return paths","src/coroutine.rs resume_inner, Yielder::suspend, coroutine_func")],
  observe=["Coroutine::resume result","Yielder::suspend result","drop counts of the transferred values"])
p("C02","started, done and resume outcomes always match what the coroutine did",
  "A fresh coroutine is neither started nor done; once resumed it is started; it is done exactly when its body has returned or panicked, or it was force-unwound or force-reset. resume reports Yield exactly when the body suspended and Return exactly when the body returned, and resuming a finished coroutine panics without running any of its code or changing its state.",
  ["histories","programs"],
  "Every history of create, resume, force_unwind, force_reset, trap exit and resume-after-completion, with every choice of the body (suspend, return, panic) at each step.",
  "Tests walk three fixed histories; the status must be right after every history, including those that pass through panics and forced unwinds.",
  [CO,X64,X86],[("stack pointer option doubles as state","src/coroutine.rs stack_ptr / initial_stack_ptr"),("pre-emptive None before switching","src/coroutine.rs resume_inner"),("zero stack pointer on final return","switch_and_reset")],
  state=[("stack_ptr","None once completed","src/coroutine.rs"),("initial_stack_ptr","value before the first resume","src/coroutine.rs")],
  observe=["started()","done()","CoroutineResult variant","panic of resume"])
p("C03","A switch preserves the registers and stack frames of both sides",
  "When resume returns, the caller finds every callee-saved register, its frame pointer, its stack pointer and its own stack frame exactly as before the call, whatever the coroutine did with the registers meanwhile; and when suspend returns, the code inside the coroutine finds the same for its side, whatever the resumer did. This also holds across the final return, panics and on-stack calls.",
  ["inputs","programs","histories"],
  "All values of all callee-saved registers and of the live stack words on both sides at the moment of the switch, and all values the other side leaves behind in every register.",
  "Whether a test notices a lost register depends on which registers the compiler happened to keep live across the call; the contract must hold for every register value and every caller.",
  [X64,X86],[("explicit push/pop of reserved registers","switch_and_link, switch_yield"),("clobber lists for the remaining callee-saved registers","inline asm operands"),("trampolines","stack_init_trampoline, stack_call_trampoline")],
  observe=["callee-saved registers and stack words after resume / suspend / on_stack / on_parent_stack"])
p("C04","Coroutine operations only touch the coroutine's own stack",
  "Creating, resuming, suspending, unwinding, trapping and dropping a coroutine write nothing at or above the base or below the limit of its stack and nothing in its resumer's live frames, other coroutines' stacks or unrelated memory. This holds for any legal stack address, for any previous content of the stack memory, and for the smallest stack the documentation allows.",
  ["inputs","configurations","histories"],
  "All legal stack base addresses and alignments, all stack sizes from the documented minimum, all initial stack contents, all operations.",
  "Tests only use 1 MiB page-aligned zero-filled stacks, where an off-by-one-word write lands in unused memory or in a fresh page and is not noticed.",
  [AM,X64,X86,CO,TR],[("fixed offsets from the stack base","init_stack, switch_and_link, setup_trap_trampoline"),("object allocation","src/arch/mod.rs allocate_obj_on_stack"),("size sanity check","src/arch/mod.rs allocate_obj_on_stack")],
  observe=["memory just above the base and below the limit","stacks of other coroutines","locals of the resumer"])
p("C05","User code always starts on a correctly aligned stack with aligned captures",
  "Whenever control enters a user closure - coroutine body, code resumed after suspend, on_stack, on_parent_stack and trap-recovery closures - the stack pointer satisfies the platform's alignment rule, and the closure's captured state is placed at an address that is a multiple of its alignment. This holds for closures of every supported size and alignment and for every stack whose base is aligned as documented.",
  ["programs","inputs","configurations"],
  "All closure sizes up to the supported maximum and all alignments, all stack bases aligned to STACK_ALIGNMENT, all parent stack depths.",
  "Misalignment only faults when the compiler emits an aligned vector access; tests use two closure layouts and page-aligned bases.",
  [AM,X64,X86,CO],[("padding computation","src/arch/mod.rs allocate_obj_on_stack"),("trampoline frame set-up","stack_init_trampoline"),("mask of the parent's stack pointer","src/coroutine.rs ParentStack::new")],
  observe=["stack pointer seen inside closures","address of captured values"])
p("C06","A closure's captured state arrives intact and is destroyed exactly once",
  "The state captured by the closure given to a new coroutine reaches the body bit-exact on the first resume, and is destroyed exactly once: by the body if it ran, or by force_unwind or drop if the coroutine was never resumed, in which case the body never executes. A closure that is too large or too strongly aligned to be placed on the stack safely is refused with a panic that still releases the stack and the closure, never by writing outside the stack.",
  ["programs","inputs","histories"],
  "All captured sizes and alignments and all captured bit patterns; every choice of dropping, force-unwinding or resuming an unstarted coroutine.",
  "Tests check one over-aligned one-byte capture and one dropped flag; wrong drop addresses only show for particular sizes and alignments.",
  [AM,CO,X64,X86],[("initial object placement","init_stack / allocate_obj_on_stack"),("drop of the initial object","drop_initial_obj"),("object address passed to the entry function","stack_init_trampoline")],
  observe=["captured values in the body","drop counts and drop address"])
p("C07","Unwinding a suspended coroutine destroys everything on it exactly once",
  "Dropping or force-unwinding a suspended coroutine runs the destructor of every live object on its stack exactly once, innermost first, runs no other code of the body, returns normally to the caller, leaves the coroutine done and leaves the thread not panicking and the unwinding payload freed. If the body swallows the unwind, force_unwind reports it by panicking, and an unrelated panic or another coroutine's unwind passing through is never mistaken for its own.",
  ["histories","programs"],
  "Every suspension point (first, later, nested calls, inside on_stack, with nested suspended coroutines owned by locals), every combination of bodies that let the unwind pass, swallow it or replace it.",
  "Tests unwind from one suspension point with two objects; nesting, swallowing and replacement are untested.",
  [CO,UW,X64,X86],[("ForcedUnwind payload identity","src/coroutine.rs force_unwind_slow"),("error result delivered to suspend","src/unwind.rs maybe_force_unwind"),("drop guard","src/coroutine.rs Drop")],
  observe=["destructor log","done()","panic outcome of force_unwind","std::thread::panicking()"])
p("C08","A panic inside a coroutine reaches its latest resumer once, payload intact",
  "A panic that escapes the body of a coroutine, a trap-recovery closure, or a closure run by on_stack or on_parent_stack destroys the objects it passes, and then surfaces exactly once, with the identical payload, from the call that last entered that code. A coroutine that panicked is done afterwards and can be dropped safely.",
  ["histories","programs","inputs"],
  "Every point of panic (first run, after any suspension, below nested calls, nested coroutines, on_stack, on_parent_stack, trap recovery), every payload value.",
  "Tests cover three fixed panic points with a constant string payload and a single resumer.",
  [CO,UW,X64,X86,TR],[("catch at root and resume unwinding","src/unwind.rs catch_unwind_at_root/maybe_resume_unwind"),("final switch","switch_and_reset")],
  observe=["payload seen by catch_unwind around resume/on_stack/on_parent_stack","done()","destructor log"])
p("C09","Backtraces continue from a coroutine into its latest resumer with exact state",
  "From any point of user code running on a coroutine, on_stack or on_parent_stack stack, walking the platform's standard unwind information leads to the frame of the call that last entered it, and the return address, stack pointer and callee-saved registers recovered there are exactly those of that frame. This also holds inside trap-recovery closures.",
  ["inputs","histories","programs"],
  "All register values of the resumer, all stack addresses, first and later resumes, nesting of coroutines and on_stack calls.",
  "Tests only look for a function name in a symbolised trace; a wrong recovered register or a wrong frame address goes unnoticed until something unwinds for real.",
  [X64,X86],[("CFA expression through the parent link","stack_init_trampoline cfi directives"),("frame set-up","stack_call_trampoline cfi directives"),("call/return addresses inside the asm blocks","switch_and_link, on_stack")],
  observe=["frames and registers reported by the system unwinder"])
p("C10","The frame-pointer chain leads from a coroutine into its latest resumer",
  "In code built with frame pointers, following the chain of saved frame pointers from user code inside a coroutine, on_stack or on_parent_stack reaches the frame of the call that last entered it, on first and on later resumes.",
  ["inputs","histories"],
  "All frame addresses of the resumer and all stack addresses; first and later resumes, different resumers.",
  "No test walks frame pointers.",
  [X64,X86],[("parent link doubles as a frame record","stack_init_trampoline, switch_yield"),("saved frame pointer on the parent stack","switch_and_link callee side")],
  observe=["chain of saved frame pointers"])
p("C11","on_stack runs the closure once on the given stack and hands back its outcome",
  "on_stack calls the closure exactly once with the stack pointer inside the given stack, starting at its base, and returns the closure's result (or re-raises its panic) unchanged for every result type and closure; the closure, its captures, the result and the given stack object are each released exactly once, and the stack only after the closure has finished. A coroutine may suspend from within it.",
  ["programs","inputs","histories"],
  "All closure and result sizes and values, all stacks, nested on_stack calls, panics, and suspension from inside.",
  "Tests use one String result on a default stack.",
  [CO,X64,X86],[("function-or-result union","src/coroutine.rs on_stack"),("call trampoline","stack_call_trampoline")],
  observe=["result","drop counts of closure, result and stack","stack pointer inside the closure"])
p("C12","on_parent_stack runs on the resumer's stack without disturbing it",
  "on_parent_stack calls the closure exactly once on the stack of whoever last resumed the coroutine, strictly below everything that is live there, and afterwards the coroutine continues and the resumer finds its frame untouched. This holds for every resumer, however deep its stack is and wherever its stack pointer lies relative to the alignment boundary.",
  ["histories","inputs","programs"],
  "All depths and alignments of the resumer's stack pointer, changing resumers (including other coroutines), nesting.",
  "Tests call it twice from one resumer and do not check the resumer's frame.",
  [CO,X64,X86],[("parent link read","src/coroutine.rs on_parent_stack"),("alignment down of the parent stack pointer","src/coroutine.rs ParentStack::new"),("parent link update on every resume","stack_init_trampoline / switch_yield")],
  observe=["stack pointer inside the closure","resumer's locals and registers afterwards"])
p("C13","DefaultStack gives the requested usable space above an inaccessible guard page",
  "For every requested size and every page size, DefaultStack::new either fails cleanly (an error, or a panic for sizes that cannot be represented) or returns a stack whose base and limit are aligned as documented, whose limit is the lowest address of the mapping and lies in an inaccessible page, and which has at least max(size, MIN_STACK_SIZE) readable and writable bytes directly below the base, with everything between guard page and base accessible.",
  ["inputs","configurations"],
  "All requested sizes 0..=usize::MAX, all power-of-two page sizes the platform may report, all addresses the OS may return.",
  "Tests only create 1 MiB stacks on 4 KiB pages.",
  [SU,SM],[("rounding and overflow check","src/stack/unix.rs DefaultStack::new"),("protection change above the guard page","src/stack/unix.rs DefaultStack::new")],
  observe=["mmap/mprotect requests","base() and limit()"])
p("C14","DefaultStack releases exactly what it mapped, also when creation fails half-way",
  "Whatever the operating system answers, every mapping made for a stack is unmapped exactly once with its exact address and length: when the stack is dropped, or immediately if creation fails after mapping. No mapping is touched when the reservation itself fails, and the error returned is the operating system's.",
  ["fault_sequences","inputs"],
  "All success/failure patterns of mmap, mprotect and munmap, all sizes, all addresses returned.",
  "Tests never see a failing system call and do not check what is unmapped.",
  [SU],[("guard value created before mprotect","src/stack/unix.rs DefaultStack::new"),("Drop","src/stack/unix.rs Drop for DefaultStack")],
  observe=["mmap/munmap call log","returned error"])
p("C15","A coroutine owns its stack: released once, after its contents, or handed back",
  "The stack object given to a coroutine is dropped exactly once, after every object living on the stack has been destroyed, or is handed back unchanged and undropped by into_stack. into_stack is refused with a panic unless the coroutine is done, and a stack handed back can host any further coroutine regardless of what the previous one left in its memory.",
  ["histories","inputs"],
  "Every history ending in drop or into_stack (unstarted, suspended, returned, panicked, force-unwound), all leftover stack contents, repeated reuse.",
  "One test reuses a stack once; drop order and refusal are untested.",
  [CO],[("field order and Drop","src/coroutine.rs Drop for Coroutine"),("ptr::read + forget","src/coroutine.rs into_stack"),("done assertion","src/coroutine.rs into_stack")],
  observe=["drop log of the stack relative to objects on it","behaviour of coroutines on reused stacks"])
p("C16","stack_ptr_in_bounds answers exactly whether an address is on the stack",
  "A trap handler's stack_ptr_in_bounds returns true exactly for the addresses from the stack's limit (guard pages included) up to but excluding its base, for every stack, every address and at every stage of the coroutine, also for coroutines created on a borrowed stack.",
  ["inputs"],
  "All 2^64 (2^32) addresses, all stack bases and limits.",
  "Tests only ask about a handful of addresses that are inside.",
  [TR,CO,SM],[("comparison","src/trap.rs stack_ptr_in_bounds"),("bounds taken from the stack","src/coroutine.rs trap_handler")],
  observe=["return value"])
p("C17","Trap recovery forces a clean return from any machine state",
  "If a coroutine is interrupted by a trap with arbitrary register contents and a stack pointer anywhere on its stack, installing exactly the registers returned by setup_trap_handler makes the given closure run once on the coroutine's own, fully available stack and makes the pending resume return its result as Return, with the resumer's registers and frame intact and the coroutine done. A panic in the closure propagates to the resumer instead.",
  ["inputs","histories","programs"],
  "All register values and stack pointers at the trap, all closure sizes and alignments, all results, first run and later runs, nested resumers.",
  "Tests trap at two points with whatever register values the compiler left there.",
  [TR,X64,X86],[("stack reset below the parent link","setup_trap_trampoline"),("return through the parent link","src/trap.rs trap_handler, switch_and_reset")],
  observe=["result of resume","resumer's registers","stack pointer in the closure"])
p("C18","Without unwinding support failures abort rather than continue",
  "In builds without the unwind feature a panic that would leave a coroutine, on_stack or trap-recovery closure aborts the process before any frame of the other stack is touched, and dropping a suspended coroutine aborts instead of freeing a stack with live objects; force_unwind on it panics. Unstarted and finished coroutines are still dropped normally.",
  ["histories","configurations"],
  "Every history ending in a panic or in dropping/unwinding a coroutine, in the no-unwind configuration.",
  "The no-unwind test configurations contain no panicking test at all.",
  [UW,CO],[("panic-in-drop guard","src/unwind.rs catch_unwind_at_root"),("drop guard","src/coroutine.rs Drop")],
  observe=["process abort","absence of continued execution"])
p("C19","Nested and interleaved coroutines return to their latest resumer independently",
  "However coroutines are nested and interleaved, each suspend or return goes back to the context that most recently resumed that coroutine - the main stack, another coroutine or an on_stack call, possibly a different one each time - and no coroutine's progress, values, registers or status is affected by operations on another.",
  ["histories","schedules"],
  "All interleavings of resumes of several coroutines from several resumers up to the stated bound, all values.",
  "No test has two live coroutines at once or changes the resumer.",
  [CO,X64,X86],[("parent link rewritten on every resume","stack_init_trampoline / switch_yield"),("per-coroutine state only","src/coroutine.rs Coroutine")],
  observe=["results of interleaved resumes","locals of every coroutine"])
p("C20","Valgrind stack registration is balanced and otherwise invisible",
  "Every default stack is announced to Valgrind with exactly its own address range when created and withdrawn exactly once, with the identifier Valgrind returned, before its memory is unmapped, on success and on failure paths. Without Valgrind these requests change no register or memory the program relies on.",
  ["inputs","fault_sequences"],
  "All stack addresses and sizes, all identifiers Valgrind may return, all register contents, all system call failures.",
  "No test runs under Valgrind; without it the request is a no-op whose side effects are unchecked.",
  [VG,SU],[("client request sequence","src/stack/valgrind.rs valgrind_request"),("registration object","src/stack/valgrind.rs ValgrindStackRegistration")],
  observe=["client requests issued","registers after the sequence"])
p("C21","The other supported architectures honour the same switch contract",
  "On AArch64, ARM, RISC-V and LoongArch64 as well, values cross switches unchanged, callee-saved registers and stack frames of both sides survive every switch, user code starts with an aligned stack and aligned captures, nothing outside the coroutine's stack is written, and trap recovery and on_stack behave as documented.",
  ["inputs","configurations"],
  "All register values, values passed, stack addresses and contents, for each architecture.",
  "None of this code is even compiled by the tests here.",
  ["src/arch/aarch64.rs","src/arch/arm.rs","src/arch/riscv.rs","src/arch/loongarch64.rs",AM],[("per-architecture trampolines and switch asm","src/arch/*.rs")],
  observe=["machine state after resume/suspend on each architecture"])
p("C22","Windows: stack bounds known to the OS always match the running stack",
  "On Windows, whenever code runs on a coroutine, on_stack or parent stack, the thread's stack bounds recorded by the OS are those of that stack, changes the OS made to them while it ran are kept with that stack, and DefaultStack reserves its guard, guarantee and usable pages without overlap for every size and page size.",
  ["inputs","histories","configurations"],
  "All stack addresses, TEB field values, sizes, page sizes and stack guarantees.",
  "The Windows code is not compiled by the tests here.",
  ["src/arch/x86_64_windows.rs","src/arch/x86_windows.rs","src/stack/windows.rs"],[("TEB save/restore in the switch code","src/arch/x86_64_windows.rs, src/arch/x86_windows.rs"),("page layout","src/stack/windows.rs DefaultStack::new")],
  observe=["TEB fields during and after switches","VirtualAlloc requests"])
p("C23","Safe code cannot move a coroutine or its yielder where it would be unsound",
  "Safe code cannot send a coroutine to another thread, use a yielder outside the coroutine it belongs to, smuggle it into the parent context, capture borrowed data in a coroutine, or reuse a stack while a leaked coroutine still lives on it; such programs are rejected at compile time.",
  ["programs"],
  "All safe programs.",
  "One compile_fail doc-test samples the simplest such program.",
  [CO],[("PhantomData markers, 'static and Send bounds","src/coroutine.rs")],
  observe=["compiler acceptance of programs"])

p("C24","Threads using their own coroutines and stacks never influence each other",
  "When several threads create, resume, unwind and drop their own coroutines and stacks at the same time, each sees exactly what it would see alone: values, outcomes, panics, destructors and stacks of one thread are never those of another, for every interleaving. A suspended coroutine or a stack that is moved to another thread continues there: it switches to and returns to the thread that resumed it last, and is unwound, dropped or reused there like at home.",
  ["schedules","histories"],
  "Every interleaving of two threads that use coroutines in any combination of ways; every assignment of the successive operations on one coroutine to threads.",
  "Tests run on whatever interleaving the machine happens to produce, and never move a coroutine between threads.",
  [CO,UW,UT,SU,X64,X86],[("no shared mutable state: everything lives in the coroutine, its stack or the caller's frame","src/coroutine.rs resume_inner, force_unwind_slow; src/util.rs encode_val; src/stack/unix.rs DefaultStack"),("parent link rewritten at every resume","src/arch/x86_64.rs switch_and_link")],
  observe=["values, outcomes, panics and destructors in each thread","addresses of the stacks in use","stack an on_parent_stack closure runs on"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
