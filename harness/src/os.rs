//! A model of the operating system's memory calls. While it is on, every request is answered by the engine within what the
//! system may do; otherwise the real functions are called.
use hx::*;

extern "C" {
    fn dlsym(h: isize, n: *const u8) -> usize;
    fn __errno_location() -> *mut i32;
}
const FAILED: usize = usize::MAX;
const NONE: usize = 0;
const RW: usize = 3;
/// user space
pub const TOP: usize = if WB == 8 { 0x7fff_ffff_0000u64 as usize } else { 0xf000_0000 };

pub struct Os {
    pub on: bool,
    pub page: usize,
    /// which calls may fail: 1 mmap, 2 mprotect, 4 munmap
    pub faults: usize,
    /// mappings are places the engine supplied (so that they can really be used)
    pub real: bool,
    pub errno: usize,
    pub nmap: usize,
    pub nprot: usize,
    pub nunmap: usize,
    pub failed: usize,
    pub map: [(usize, usize, bool, usize); 4],
    prot: [(usize, usize, usize); 8],
    initial: usize,
    /// requests made so far when a mapping was released
    pub at_unmap: fn(usize),
}
pub static mut OS: Os = Os {
    on: false, page: 4096, faults: 0, real: false, errno: 0, nmap: 0, nprot: 0, nunmap: 0, failed: 0,
    map: [(0, 0, false, 0); 4], prot: [(0, 0, 0); 8], initial: 0, at_unmap: |_| {},
};

unsafe fn real(n: &[u8]) -> usize {
    dlsym(-1, n.as_ptr())
}
/// a failing call: any error code
unsafe fn fail() -> usize {
    let e = any();
    assume(e >= 1 && e <= 133);
    OS.errno = e;
    OS.failed += 1;
    *__errno_location() = e as i32;
    FAILED
}
fn up(n: usize) -> usize {
    unsafe { n.wrapping_add(OS.page - 1) & !(OS.page - 1) }
}
impl Os {
    pub fn may_fail(&self, w: usize) -> bool {
        self.faults & w != 0 && choice(2) == 1
    }
    /// protection of the byte at a
    pub fn prot_of(&self, a: usize) -> usize {
        let mut p = self.initial;
        let mut k = 0;
        while k < self.nprot {
            let (lo, hi, q) = self.prot[k];
            if a >= lo && a < hi {
                p = q
            }
            k += 1;
        }
        p
    }
    pub fn live(&self) -> usize {
        self.map.iter().filter(|m| m.2).count()
    }
}
/// a power of two the system may use as page size
pub fn any_page() -> usize {
    let p = any();
    assume(p & p.wrapping_sub(1) == 0);
    assume(p >= 1024);
    assume(p as u64 <= if WB == 8 { 1u64 << 34 } else { 1 << 26 });
    p
}

unsafe fn map(a: usize, len: usize, prot: i32, flags: i32, fd: i32, off: isize) -> usize {
    if !OS.on {
        let f: unsafe extern "C" fn(usize, usize, i32, i32, i32, isize) -> usize = core::mem::transmute(real(b"mmap\0"));
        return f(a, len, prot, flags, fd, off);
    }
    OS.on = false;
    // private anonymous memory, anywhere
    ck(flags & 0x22 == 0x22, 700);
    ck(flags & 0x10_0011 == 0, 701);
    ck(len != 0, 702);
    ck(fd == -1 || flags & 0x20 != 0, 703);
    let r = if OS.may_fail(1) {
        fail()
    } else {
        let (a, id) = if OS.real {
            let s = VStack::new(len);
            let r = (s.limit, s.id);
            core::mem::forget(s);
            r
        } else {
            let a = any();
            assume(a & (OS.page - 1) == 0);
            assume(a >= 4096);
            assume(len <= TOP - 4096);
            assume(a <= TOP - len);
            // the system maps whole pages
            assume(up(len) <= TOP - a);
            // the system never hands out memory twice
            let mut j = 0;
            while j < OS.nmap {
                let (b, n, live, _) = OS.map[j];
                if live {
                    assume((b + n <= a) | (a + len <= b))
                }
                j += 1;
            }
            (a, NO_STACK)
        };
        ck(OS.nmap < 4, 704);
        OS.map[OS.nmap] = (a, len, true, id);
        OS.nmap += 1;
        OS.initial = prot as usize;
        a
    };
    OS.on = true;
    r
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: usize, len: usize, prot: i32, flags: i32, fd: i32, off: isize) -> usize {
    map(a, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> usize {
    let r = map(a, len, prot, flags, fd, off as isize);
    core::hint::black_box(r)
}
#[no_mangle]
pub unsafe extern "C" fn mprotect(a: usize, len: usize, prot: i32) -> i32 {
    if !OS.on {
        let f: unsafe extern "C" fn(usize, usize, i32) -> i32 = core::mem::transmute(real(b"mprotect\0"));
        return f(a, len, prot);
    }
    OS.on = false;
    ck(OS.nmap > 0 && OS.map[OS.nmap - 1].2, 710);
    let (m, ml, _, _) = OS.map[OS.nmap - 1];
    if !OS.real {
        ckeq(a & (OS.page - 1), 0, 711);
    }
    // whole pages change, and only pages of the mapping
    ck(a >= m && a - m <= ml, 712);
    ck(len <= ml && up(len) >= len, 713);
    ck(up(len) <= up(ml) - (a - m), 714);
    let r = if OS.may_fail(2) {
        fail() as i32
    } else {
        ck(OS.nprot < 8, 715);
        OS.prot[OS.nprot] = (a, a + up(len), prot as usize);
        OS.nprot += 1;
        0
    };
    OS.on = true;
    r
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: usize, len: usize) -> i32 {
    if !OS.on {
        let f: unsafe extern "C" fn(usize, usize) -> i32 = core::mem::transmute(real(b"munmap\0"));
        return f(a, len);
    }
    OS.on = false;
    // exactly one of the mappings
    let mut k = 0;
    let mut hit = NO_STACK;
    while k < OS.nmap {
        if OS.map[k].2 && OS.map[k].0 == a {
            hit = k
        }
        k += 1;
    }
    ck(hit != NO_STACK, 720);
    ckeq(len, OS.map[hit].1, 721);
    OS.nunmap += 1;
    (OS.at_unmap)(hit);
    let r = if OS.may_fail(4) {
        fail() as i32
    } else {
        OS.map[hit].2 = false;
        if OS.real {
            v_stack_free(OS.map[hit].3)
        }
        // a successful call may leave anything in errno
        *__errno_location() = any() as i32;
        0
    };
    OS.on = true;
    r
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: i32) -> isize {
    if !OS.on {
        let f: unsafe extern "C" fn(i32) -> isize = core::mem::transmute(real(b"sysconf\0"));
        return f(n);
    }
    // _SC_PAGESIZE
    ckeq(n as usize, 30, 730);
    OS.page as isize
}
#[no_mangle]
pub unsafe extern "C" fn getpagesize() -> i32 {
    sysconf(30) as i32
}
/// runs f with the model on
pub fn with_os<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        OS.on = true;
        let r = f();
        OS.on = false;
        r
    }
}
#[allow(dead_code)]
pub const P_NONE: usize = NONE;
#[allow(dead_code)]
pub const P_RW: usize = RW;
