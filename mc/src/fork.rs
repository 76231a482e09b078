//! Runs a closure in a forked child, so that each history starts from the pristine process-wide state.
use crate::ctx::guard;

/// None: fine; Some(message): what the closure reported, or how the child ended.
pub fn in_child(f: impl FnOnce() -> Option<String>) -> Option<String> {
    let mut fds = [0i32; 2];
    // SAFETY: plain system calls; the child only runs the closure, writes to the pipe and exits.
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            let m = match guard(f) {
                Ok(None) => "0".to_string(),
                Ok(Some(m)) => format!("1{}", m),
                Err(m) => format!("1panic: {}", m),
            };
            let mut b = m.as_bytes();
            while !b.is_empty() {
                let n = libc::write(fds[1], b.as_ptr() as *const libc::c_void, b.len());
                if n <= 0 {
                    break;
                }
                b = &b[n as usize..];
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut got = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            if n <= 0 {
                break;
            }
            got.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0i32;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        match got.first() {
            Some(b'0') => None,
            Some(b'1') => Some(String::from_utf8_lossy(&got[1..]).into_owned()),
            _ => Some(format!("the process ended without an answer (wait status {:#x})", st)),
        }
    }
}
