//! Processes: every piece of simulation runs in a child of its own, so that it may die, hang or
//! leave state behind.

use std::os::fd::RawFd;
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Done(Vec<u8>),
    Signal(i32),
    Exit(i32),
    Timeout,
}

pub struct Child {
    pid: i32,
    fd: RawFd,
    buf: Vec<u8>,
    deadline: Instant,
    timed_out: bool,
}

fn write_all(fd: RawFd, mut data: &[u8]) {
    while !data.is_empty() {
        let n = unsafe { libc::write(fd, data.as_ptr().cast(), data.len()) };
        if n <= 0 {
            unsafe { libc::_exit(96) };
        }
        data = &data[n as usize..];
    }
}

/// Seconds of processor time a child may use.
const CPU_SECS: i64 = 150;

pub fn spawn(wall_secs: u64, f: impl FnOnce() -> Vec<u8>) -> Child {
    let mut fds = [0i32; 2];
    let r = unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) };
    assert!(r == 0, "pipe: {}", std::io::Error::last_os_error());
    let parent = unsafe { libc::getpid() };
    let mut pid = -1;
    for _ in 0..50 {
        pid = unsafe { libc::fork() };
        if pid >= 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    assert!(pid >= 0, "fork: {}", std::io::Error::last_os_error());
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::getppid() != parent {
                libc::_exit(95);
            }
            let t = libc::itimerval {
                it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                it_value: libc::timeval { tv_sec: CPU_SECS, tv_usec: 0 },
            };
            libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
        }
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        match out {
            Ok(out) => {
                write_all(fds[1], &out);
                unsafe { libc::_exit(0) }
            }
            Err(_) => {
                write_all(fds[1], crate::sut::last_panic().as_bytes());
                unsafe { libc::_exit(EXIT_HARNESS) }
            }
        }
    }
    unsafe { libc::close(fds[1]) };
    Child {
        pid,
        fd: fds[0],
        buf: vec![],
        deadline: Instant::now() + Duration::from_secs(wall_secs),
        timed_out: false,
    }
}

/// The harness itself panicked.
pub const EXIT_HARNESS: i32 = 94;

impl Child {
    /// Reads what there is; true when there will be no more.
    fn read(&mut self) -> bool {
        let mut b = [0u8; 65536];
        let n = unsafe { libc::read(self.fd, b.as_mut_ptr().cast(), b.len()) };
        if n > 0 {
            self.buf.extend_from_slice(&b[..n as usize]);
            return false;
        }
        n == 0 || std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted
    }

    fn finish(self) -> End {
        let mut status = 0;
        unsafe {
            libc::close(self.fd);
            while libc::waitpid(self.pid, &mut status, 0) < 0
                && *libc::__errno_location() == libc::EINTR
            {}
        }
        if self.timed_out {
            End::Timeout
        } else if libc::WIFSIGNALED(status) {
            let s = libc::WTERMSIG(status);
            if s == libc::SIGPROF {
                End::Timeout
            } else {
                End::Signal(s)
            }
        } else if libc::WEXITSTATUS(status) != 0 {
            if libc::WEXITSTATUS(status) == EXIT_HARNESS {
                eprintln!("harness error: {}", String::from_utf8_lossy(&self.buf));
            }
            End::Exit(libc::WEXITSTATUS(status))
        } else {
            End::Done(self.buf)
        }
    }

    pub fn kill(self) {
        unsafe { libc::kill(self.pid, libc::SIGKILL) };
        self.finish();
    }
}

/// Waits until one of the children has ended; its index and how.
pub fn wait_any(children: &mut Vec<(usize, Child)>) -> (usize, End) {
    loop {
        let mut fds: Vec<libc::pollfd> = children
            .iter()
            .map(|(_, c)| libc::pollfd {
                fd: c.fd,
                events: libc::POLLIN,
                revents: 0,
            })
            .collect();
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as libc::nfds_t, 500) };
        for i in 0..children.len() {
            if fds[i].revents != 0 && children[i].1.read() {
                let (id, c) = children.swap_remove(i);
                return (id, c.finish());
            }
        }
        let now = Instant::now();
        for (_, c) in children.iter_mut() {
            if now > c.deadline && !c.timed_out {
                c.timed_out = true;
                unsafe { libc::kill(c.pid, libc::SIGKILL) };
            }
        }
    }
}

pub fn in_child(wall_secs: u64, f: impl FnOnce() -> Vec<u8>) -> End {
    let mut v = vec![(0, spawn(wall_secs, f))];
    wait_any(&mut v).1
}
