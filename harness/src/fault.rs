//! Failures of `accept`: a process may run out of descriptors or memory, and connections may
//! be gone before they are accepted.
//!
//! `accept4` of this binary takes precedence over libc's. The next accepts of a given port of
//! the scenario's thread fail with the given errors, each only when a connection is waiting.
use std::cell::RefCell;

thread_local! {
    static NEXT: RefCell<(u16, Vec<i32>)> = const { RefCell::new((0, Vec::new())) };
}

pub fn accepts(port: u16, mut errors: Vec<i32>) {
    errors.reverse();
    NEXT.with(|n| *n.borrow_mut() = (port, errors));
}
/// How many failures are still to come.
pub fn left() -> usize {
    NEXT.with(|n| n.borrow().1.len())
}

fn port_of(fd: libc::c_int) -> u16 {
    let mut a: libc::sockaddr_in6 = unsafe { std::mem::zeroed() };
    let mut n = std::mem::size_of::<libc::sockaddr_in6>() as libc::socklen_t;
    let r = unsafe { libc::getsockname(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut n) };
    if r == 0 {
        u16::from_be(a.sin6_port) // it lies where sin_port does
    } else {
        0
    }
}

fn failure(fd: libc::c_int) -> Option<i32> {
    NEXT.with(|n| {
        let mut n = n.borrow_mut();
        if n.1.is_empty() || port_of(fd) != n.0 {
            return None;
        }
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut p, 1, 0) } != 1 {
            return None;
        }
        n.1.pop()
    })
}

#[no_mangle]
pub unsafe extern "C" fn accept4(
    fd: libc::c_int,
    addr: *mut libc::sockaddr,
    len: *mut libc::socklen_t,
    flags: libc::c_int,
) -> libc::c_int {
    if let Some(e) = failure(fd) {
        *libc::__errno_location() = e;
        return -1;
    }
    libc::syscall(libc::SYS_accept4, fd, addr, len, flags) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn accept(
    fd: libc::c_int,
    addr: *mut libc::sockaddr,
    len: *mut libc::socklen_t,
) -> libc::c_int {
    accept4(fd, addr, len, 0)
}
