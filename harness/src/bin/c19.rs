//! C19: nested and interleaved coroutines return to their latest resumer independently.
#![allow(static_mut_refs)]
use hx::*;

type Co = Coroutine<usize, usize, usize, VStack>;
type Y = Yielder<usize, usize>;
const MAX: usize = 3;

/// the reference: what each coroutine was told and said, who is running, who waits
struct Ref {
    n: usize,
    budget: usize,
    co: [Option<Co>; MAX],
    running: [bool; MAX],
    done: [bool; MAX],
    started: [bool; MAX],
    sent: [usize; MAX],
    gave: [usize; MAX],
    kind: [usize; MAX],
    /// contexts that wait for a coroutine, innermost last
    waiting: [usize; 16],
    nwait: usize,
    nested: usize,
    panics: bool,
    ending: bool,
    unwound: usize,
    serial: usize,
}
const NO: Option<Co> = None;
static mut R: Ref = Ref {
    n: 0, budget: 0, co: [NO; MAX], running: [false; MAX], done: [false; MAX], started: [false; MAX], sent: [0; MAX], gave: [0; MAX],
    kind: [9; MAX], waiting: [0; 16], nwait: 0, nested: 0, panics: false, ending: false, unwound: 0, serial: 1,
};
fn r() -> &'static mut Ref { unsafe { &mut R } }

/// one step of resuming coroutine j from whatever is running
#[inline(never)]
fn resume(j: usize) {
    let me = r().serial;
    r().serial += 1;
    let v = any();
    let lo = [v ^ me; 5];
    core::hint::black_box(&lo);
    r().sent[j] = v;
    r().running[j] = true;
    r().kind[j] = 9;
    r().waiting[r().nwait] = me;
    r().nwait += 1;
    // the coroutine object itself moves to this frame meanwhile
    let mut c = match r().co[j].take() { Some(c) => c, None => { ck(false, 1); loop {} } };
    ck(!c.done(), 2);
    ck(c.started() == r().started[j], 3);
    r().started[j] = true;
    #[cfg(feature = "unwind")]
    let res = if r().panics { catch(|| c.resume(v)) } else { Ok(c.resume(v)) };
    #[cfg(not(feature = "unwind"))]
    let res: Result<_, ()> = Ok(c.resume(v));
    // back in the context that resumed it last
    r().nwait -= 1;
    ckeq(r().waiting[r().nwait], me, 4);
    r().running[j] = false;
    let k = r().kind[j];
    match res {
        Ok(CoroutineResult::Yield(y)) => { ckeq(k, 0, 5); ckeq(y, r().gave[j], 6); ck(!c.done(), 7) }
        Ok(CoroutineResult::Return(y)) => { ckeq(k, 1, 8); ckeq(y, r().gave[j], 9); ck(c.done(), 10); r().done[j] = true }
        #[cfg(feature = "unwind")]
        Err(e) => { ckeq(k, 2, 11); ckeq(e.downcast_ref::<usize>().copied().unwrap_or(!r().gave[j]), r().gave[j], 12); ck(c.done(), 13); r().done[j] = true }
        #[cfg(not(feature = "unwind"))]
        Err(_) => {}
    }
    ckeq(vol(&lo)[3], v ^ me, 14);
    r().co[j] = Some(c);
    others(j);
}
/// coroutine j, which is suspended, is unwound from whatever is running: it ends here and nowhere else
#[cfg(feature = "unwind")]
#[inline(never)]
fn unwind(j: usize) {
    let me = r().serial;
    r().serial += 1;
    let v = any();
    let lo = [v ^ me; 5];
    core::hint::black_box(&lo);
    r().running[j] = true;
    r().waiting[r().nwait] = me;
    r().nwait += 1;
    let n = r().unwound;
    let mut c = match r().co[j].take() { Some(c) => c, None => { ck(false, 50); loop {} } };
    r().ending = true;
    c.force_unwind();
    r().nwait -= 1;
    ckeq(r().waiting[r().nwait], me, 51);
    ck(!r().ending, 52);
    ck(c.done() && c.started(), 53);
    ckeq(r().unwound, n + 1, 54);
    ckeq(vol(&lo)[3], v ^ me, 55);
    r().running[j] = false;
    r().done[j] = true;
    r().co[j] = Some(c);
    others(j);
}
/// on the stack of every coroutine: sees its end, and may itself resume others
struct Last;
impl Drop for Last {
    fn drop(&mut self) {
        #[cfg(feature = "unwind")]
        if r().ending {
            r().ending = false;
            r().unwound += 1;
            // a destructor uses another coroutine that is suspended
            let mut j = 0;
            while j < r().n {
                if r().budget > 0 && !r().running[j] && !r().done[j] && choice(2) == 1 {
                    r().budget -= 1;
                    resume(j)
                }
                j += 1;
            }
        }
    }
}
/// nobody else's status changed
#[inline(never)]
fn others(_j: usize) {
    let mut i = 0;
    while i < r().n {
        if let Some(c) = &r().co[i] {
            ck(c.done() == r().done[i], 15);
            ck(c.started() == r().started[i], 16);
        }
        i += 1;
    }
}
/// a context (main, a coroutine, an on_stack closure) performs arbitrary steps
#[inline(never)]
fn context(s: Option<&Y>, me: usize, depth: usize) -> usize {
    let mark = any();
    let l = [mark; 7];
    core::hint::black_box(&l);
    while r().budget > 0 {
        r().budget -= 1;
        // what is possible here
        let mut ops = [0usize; 12];
        let mut n = 0;
        let mut j = 0;
        while j < r().n {
            if !r().running[j] && !r().done[j] { ops[n] = j; n += 1 }
            j += 1;
        }
        if s.is_some() && depth == 0 { ops[n] = 10; n += 1; }
        if s.is_some() { ops[n] = 11; n += 1; }
        if depth < r().nested { ops[n] = 12; n += 1 }
        if r().panics && s.is_some() && depth == 0 { ops[n] = 13; n += 1 }
        if r().panics {
            j = 0;
            while j < r().n {
                if !r().running[j] && !r().done[j] && r().started[j] { ops[n] = 14 + j; n += 1 }
                j += 1;
            }
        }
        if n == 0 { break }
        let op = ops[choice(n)];
        match op {
            10 => break,
            11 => {
                let v = any();
                r().gave[me] = v;
                r().kind[me] = 0;
                if let Some(s) = s {
                    let x = s.suspend(v);
                    ckeq(x, r().sent[me], 20);
                    ck(r().running[me], 21);
                }
            }
            12 => { on_stack(VStack::new(32768), || context(s, me, depth + 1)); }
            #[cfg(feature = "unwind")]
            13 => {
                let v = any();
                r().gave[me] = v;
                r().kind[me] = 2;
                throw(v)
            }
            #[cfg(feature = "unwind")]
            14..=16 => unwind(op - 14),
            j => resume(j),
        }
        ckeq(vol(&l)[6], mark, 22);
    }
    ckeq(vol(&l)[1], mark, 23);
    mark
}
fn run(n: usize, budget: usize, nested: usize, panics: bool) {
    let m = r();
    m.n = n;
    m.budget = budget;
    m.nested = nested;
    m.panics = panics;
    let mut i = 0;
    while i < n {
        m.co[i] = Some(Co::with_stack(VStack::new(65536), move |s, x| {
            ckeq(x, r().sent[i], 30);
            let _last = Last;
            context(Some(s), i, 0);
            let v = any();
            r().gave[i] = v;
            r().kind[i] = 1;
            v
        }));
        i += 1;
    }
    context(None, 99, 0);
    ckeq(r().nwait, 0, 31);
    // whatever is left can still be finished, in order
    r().budget = 0;
    i = 0;
    while i < n {
        if !r().done[i] { resume(i); ck(r().done[i], 32) }
        i += 1;
    }
    i = 0;
    while i < n {
        drop(r().co[i].take());
        i += 1;
    }
    cover(1);
}

/// a chain: each resumes the next; suspending and returning through it with changing entry points
fn chain(depth: usize, rounds: usize) {
    static mut CH: [Option<Co>; 6] = [NO, NO, NO, NO, NO, NO];
    fn link(k: usize, depth: usize) -> Co {
        Co::with_stack(VStack::new(32768), move |s, mut x| loop {
            let l = [x; 4];
            core::hint::black_box(&l);
            let y = if k + 1 < depth {
                match unsafe { CH[k + 1].as_mut().unwrap_unchecked() }.resume(x ^ k) {
                    CoroutineResult::Yield(y) => y,
                    CoroutineResult::Return(_) => { ck(false, 40); 0 }
                }
            } else {
                x
            };
            ckeq(vol(&l)[2], x, 41);
            x = s.suspend(y ^ k);
        })
    }
    let mut k = 0;
    while k < depth {
        unsafe { CH[k] = Some(link(k, depth)) }
        k += 1;
    }
    let mut i = 0;
    while i < rounds {
        // enter the chain at any point
        let e = choice(depth);
        let x = any();
        let r = unsafe { CH[e].as_mut().unwrap_unchecked() }.resume(x);
        // every link changes the value on the way in (but the last) and on the way out
        let want = x ^ (depth - 1);
        ck(r == CoroutineResult::Yield(want), 42);
        i += 1;
    }
    k = 0;
    while k < depth {
        unsafe { CH[k].as_mut().unwrap_unchecked().force_reset(); }
        k += 1;
    }
    cover(1);
}

scenarios! {
    fn two4() { run(2, 4, 0, false); }
    fn two_nested3() { run(2, 3, 1, false); }
    fn three4() { run(3, 4, 0, false); }
    fn two6() { run(2, 6, 0, false); }
    fn three5() { run(3, 5, 0, false); }
    fn two_nested5() { run(2, 5, 1, false); }
    fn two8() { run(2, 8, 0, false); }
    fn three7() { run(3, 7, 0, false); }
    fn three_nested6() { run(3, 6, 2, false); }
    #[cfg(feature = "unwind")]
    fn panics4() { run(2, 4, 0, true); }
    #[cfg(feature = "unwind")]
    fn panics6() { run(2, 6, 1, true); }
    fn chain3() { chain(3, 3); }
    fn chain6() { chain(6, 2); }
}
