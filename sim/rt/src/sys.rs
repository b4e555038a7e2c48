//! Raw system interface (no libc crate): fork, shared memory, futex, the system-call gate.
use std::arch::asm;
use std::sync::atomic::AtomicU32;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
    fn __errno_location() -> *mut i32;
    fn sigaction(sig: i32, act: *const u8, old: *mut u8) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn alarm(n: u32) -> u32;
    fn personality(p: u64) -> i32;
    fn sched_setaffinity(pid: i32, n: usize, m: *const u8) -> i32;
    fn sched_getaffinity(pid: i32, n: usize, m: *mut u8) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

#[inline(always)]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn ret_errno(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
pub fn exit_group(code: i32) -> ! {
    unsafe {
        raw(231, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        raw(202, a as *const _ as i64, 128, v as i64, 0, 0, 0);
    }
}
pub fn futex_wake(a: &AtomicU32) {
    unsafe {
        raw(202, a as *const _ as i64, 129, 1, 0, 0, 0);
    }
}
pub fn shared(n: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), n, 3, 0x21 | 0x4000, -1, 0);
        assert!(p as isize != -1, "mmap");
        p
    }
}
pub enum Exit {
    Code(i32),
    Signal(i32),
}
/// Runs `f` in a forked copy of this (single-threaded) process.
pub fn in_child(cpu_s: u64, wall_s: u32, f: &mut dyn FnMut()) -> Exit {
    unsafe {
        let p = fork();
        assert!(p >= 0, "fork");
        if p == 0 {
            setrlimit(0, &[cpu_s, cpu_s + 1]);
            setrlimit(4, &[0, 0]);
            alarm(wall_s);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
            exit_group(if r.is_ok() { 0 } else { 99 });
        }
        let mut st = 0;
        while waitpid(p, &mut st, 0) < 0 {}
        if st & 0x7f == 0 {
            Exit::Code(st >> 8 & 0xff)
        } else {
            Exit::Signal(st & 0x7f)
        }
    }
}
pub fn spawn_process(f: &mut dyn FnMut()) -> i32 {
    unsafe {
        let p = fork();
        assert!(p >= 0, "fork");
        if p == 0 {
            prctl(1, 9, 0, 0, 0); // die with the parent
            f();
            exit_group(0);
        }
        p
    }
}
pub fn wait(p: i32) -> Exit {
    unsafe {
        let mut st = 0;
        while waitpid(p, &mut st, 0) < 0 {}
        if st & 0x7f == 0 {
            Exit::Code(st >> 8 & 0xff)
        } else {
            Exit::Signal(st & 0x7f)
        }
    }
}
pub fn kill9(p: i32) {
    unsafe {
        kill(p, 9);
    }
}
/// The CPUs this process may use, and pinning to one of them (hand-overs between parked threads are cheaper).
pub fn cpus() -> Vec<usize> {
    let mut m = [0u8; 128];
    unsafe {
        sched_getaffinity(0, 128, m.as_mut_ptr());
    }
    (0..1024).filter(|i| m[i / 8] >> (i % 8) & 1 == 1).collect()
}
pub fn pin(cpu: usize) {
    let mut m = [0u8; 128];
    m[cpu / 8] |= 1 << (cpu % 8);
    unsafe {
        sched_setaffinity(0, 128, m.as_ptr());
    }
}
/// Switches address-space randomisation off for this process image (one re-exec), so that addresses are no hidden input.
pub fn no_aslr() {
    unsafe {
        let cur = personality(0xffffffff);
        if cur >= 0 && cur & 0x0040000 == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            if personality(cur as u64 | 0x0040000) >= 0 {
                use std::os::unix::process::CommandExt;
                let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_REEXEC", "1").exec();
            }
        }
    }
}

unsafe extern "C" fn on_sigsys(_: i32, info: *const u8, ctx: *mut u8) {
    let nr = *(info.add(24) as *const i32);
    if super::gate_hit(nr) {
        let rip = ctx.add(40 + 16 * 8) as *mut u64;
        *rip -= 2;
    }
}
pub fn install_gate() {
    unsafe {
        // glibc's struct sigaction: handler, mask[128], flags, restorer
        let mut b = [0u8; 152];
        b[0..8].copy_from_slice(&(on_sigsys as *const () as usize).to_ne_bytes());
        b[136..140].copy_from_slice(&(0x4i32 | 0x40000000).to_ne_bytes()); // SIGINFO | NODEFER
        assert!(sigaction(31, b.as_ptr(), std::ptr::null_mut()) == 0);
    }
}
/// Refuses system calls of this thread whenever *sel is 1.
pub fn gate_thread(sel: *const u8) {
    unsafe {
        let r = prctl(59, 1, 0, 0, sel as u64);
        if r != 0 {
            GATE_UNAVAILABLE = true;
        }
    }
}
pub static mut GATE_UNAVAILABLE: bool = false;
pub fn gate_works() -> bool {
    // probed in a child so that this process keeps its own settings
    let sel = Box::into_raw(Box::new(0u8));
    match in_child(5, 10, &mut || unsafe {
        exit_group(if prctl(59, 1, 0, 0, sel as u64) == 0 { 0 } else { 1 })
    }) {
        Exit::Code(0) => true,
        _ => false,
    }
}
