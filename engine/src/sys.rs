extern "C" {
    pub fn fork() -> i32;
    pub fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    pub fn write(fd: i32, b: *const u8, n: usize) -> isize;
    pub fn pipe(fds: *mut i32) -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn getpgrp() -> i32;
    pub fn setpgid(pid: i32, pg: i32) -> i32;
    pub fn getrlimit(r: i32, l: *mut u64) -> i32;
    pub fn setrlimit(r: i32, l: *const u64) -> i32;
    pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn poll(p: *mut PollFd, n: u64, t: i32) -> i32;
}
/// A byte is (most likely) available.
pub fn readable(fd: i32) -> bool {
    let mut p = PollFd { fd, events: 1, revents: 0 };
    unsafe { poll(&mut p, 1, 0) == 1 && p.revents & 1 != 0 }
}

/// A number that every process forked from this one shares.
pub fn shared_u64() -> &'static std::sync::atomic::AtomicU64 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const std::sync::atomic::AtomicU64)
    }
}
