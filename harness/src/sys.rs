//! The few system calls the driver needs.
use std::os::raw::{c_int, c_short, c_ulong, c_void};

#[repr(C)]
pub struct PollFd {
    pub fd: c_int,
    pub events: c_short,
    pub revents: c_short,
}
#[repr(C)]
pub struct RLimit {
    pub cur: u64,
    pub max: u64,
}
pub const POLLIN: c_short = 1;
pub const RLIMIT_CORE: c_int = 4;
pub const RLIMIT_AS: c_int = 9;
pub const SIGKILL: c_int = 9;

unsafe extern "C" {
    fn fork() -> c_int;
    fn pipe2(fds: *mut c_int, flags: c_int) -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
    fn kill(pid: c_int, sig: c_int) -> c_int;
    fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
    fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    fn close(fd: c_int) -> c_int;
    fn poll(fds: *mut PollFd, n: c_ulong, timeout: c_int) -> c_int;
    fn setrlimit(resource: c_int, limit: *const RLimit) -> c_int;
    fn prctl(option: c_int, a: c_ulong, b: c_ulong, c: c_ulong, d: c_ulong) -> c_int;
}

pub fn do_fork() -> i32 {
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { prctl(1, 9, 0, 0, 0) }; // die with the parent
    }
    pid
}
pub fn do_pipe() -> (i32, i32) {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { pipe2(fds.as_mut_ptr(), 0o2000000) }, 0);
    (fds[0], fds[1])
}
/// Waits for a child; Ok(exit code) or Err(signal).
pub fn do_wait(pid: i32) -> Result<i32, i32> {
    let mut status = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut status, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
            return Ok(0);
        }
    }
    if status & 0x7f == 0 { Ok((status >> 8) & 0xff) } else { Err(status & 0x7f) }
}
pub fn do_exit(code: i32) -> ! {
    unsafe { _exit(code) }
}
pub fn do_kill(pid: i32) {
    unsafe { kill(pid, SIGKILL) };
}
pub fn do_read(fd: i32, buf: &mut [u8]) -> isize {
    loop {
        let r = unsafe { read(fd, buf.as_mut_ptr() as *mut c_void, buf.len()) };
        if r < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
            continue;
        }
        return r;
    }
}
pub fn do_write(fd: i32, mut data: &[u8]) {
    while !data.is_empty() {
        let r = unsafe { write(fd, data.as_ptr() as *const c_void, data.len()) };
        if r < 0 {
            if std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            return;
        }
        data = &data[r as usize..];
    }
}
pub fn do_close(fd: i32) {
    unsafe { close(fd) };
}
pub fn do_poll(fds: &mut [PollFd], timeout_ms: i32) -> i32 {
    unsafe { poll(fds.as_mut_ptr(), fds.len() as c_ulong, timeout_ms) }
}
pub fn limit(resource: i32, value: u64) {
    unsafe { setrlimit(resource, &RLimit { cur: value, max: value }) };
}
/// Processor seconds this process may still use.
pub fn limit_seconds(n: u64) {
    limit(0, n);
}
