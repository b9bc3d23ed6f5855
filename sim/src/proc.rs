//! Forked incarnations. The calling process must be single-threaded and must never have run library code.
use crate::fs::Image;
use crate::rt::{self, Body, End, Env, Point, Report};
use std::collections::BTreeMap;

/// seconds of processor time after which one incarnation counts as hung
const CPU_LIMIT: u64 = 45;
const WALL_LIMIT: u64 = 200;

fn read_all(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut b = vec![0u8; 1 << 16];
    loop {
        let n = unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, b.len()) };
        if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
            continue;
        }
        if n <= 0 {
            break;
        }
        v.extend_from_slice(&b[..n as usize]);
    }
    unsafe { libc::close(fd) };
    v
}
pub fn fork_raw(f: impl FnOnce(i32)) -> (i32, i32) {
    let mut p = [0; 2];
    unsafe {
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            f(p[1]);
            libc::_exit(0);
        }
        libc::close(p[1]);
        (pid, p[0])
    }
}
pub fn wait(pid: i32) -> i32 {
    let mut s = 0;
    loop {
        if unsafe { libc::waitpid(pid, &mut s, 0) } >= 0 {
            return s;
        }
    }
}

/// Run one incarnation in a child process and return its report.
pub fn run(env: &Env, plan: &[Point], img: &Image, bodies: impl FnOnce() -> Vec<Body>) -> Report {
    let (pid, fd) = fork_raw(|out| {
        unsafe {
            let l = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            for k in 0..3 {
                libc::dup2(n, k);
            }
        }
        rt::incarnation(out, env.clone(), plan, img, bodies())
    });
    let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    let from = std::time::Instant::now();
    while unsafe { libc::poll(&mut p, 1, 1000) } <= 0 {
        // it used little processor time in all that time: it waits for something the simulator does not control
        if from.elapsed().as_secs() > WALL_LIMIT {
            eprintln!("harness error: a simulated process does not end and is not running");
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
    }
    let b = read_all(fd);
    let s = wait(pid);
    match rt::decode(&b) {
        Some(r) => {
            for l in &r.text {
                eprintln!("{l}");
            }
            r
        }
        None => Report {
            end: if libc::WIFSIGNALED(s) {
                match libc::WTERMSIG(s) {
                    libc::SIGXCPU => End::CpuLimit,
                    k => End::Signal(k),
                }
            } else {
                End::Died(libc::WEXITSTATUS(s))
            },
            obs: vec![],
            counts: vec![],
            ios: vec![],
            trace: 0,
            fired: BTreeMap::new(),
            switches: 0,
            sim_ns: 0,
            console: 0,
            console_text: String::new(),
            peak: 0,
            unsup: vec![],
            image: img.clone(),
            text: vec![],
        },
    }
}
pub fn read_fd(fd: i32) -> Vec<u8> {
    read_all(fd)
}
