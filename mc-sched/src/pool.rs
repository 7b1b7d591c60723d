//! Worker processes, each single-threaded, that explore in freshly forked children.

use serde_json::Value;
use std::io::Read;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// memory shared with children
pub struct Shared<T> {
    p: *mut T,
    len: usize,
}

impl<T> Shared<T> {
    pub fn new(len: usize) -> Self {
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), len * std::mem::size_of::<T>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0)
        };
        assert!(p != libc::MAP_FAILED);
        Shared { p: p as *mut T, len }
    }
    pub fn ptr(&self) -> *mut T {
        self.p
    }
    #[allow(clippy::mut_from_ref)]
    pub fn all(&self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.len) }
    }
}

pub const ALARM: u32 = 120;
/// exploration ends when this many tasks have failed
const ENOUGH: u64 = 4;

/// is the time allowed by MC_DEADLINE, in seconds, over? (the first call starts it)
pub fn out_of_time() -> bool {
    static START: std::sync::OnceLock<(std::time::Instant, u64)> = std::sync::OnceLock::new();
    let (t, d) = START.get_or_init(|| (std::time::Instant::now(), std::env::var("MC_DEADLINE").ok().and_then(|d| d.parse().ok()).unwrap_or(u64::MAX)));
    t.elapsed().as_secs() >= *d
}

/// how many of the tasks were not carried to their end
pub fn left_out(rs: &[Value]) -> usize {
    rs.iter().filter(|r| r["skipped"] == true || r["capped"] == true).count()
}

/// run f in a child, return its wait status; it is killed if it takes too long
pub fn in_child(f: impl FnOnce()) -> i32 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::alarm(ALARM);
            // (not to outlive the check)
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            f();
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        st
    }
}

pub fn describe(st: i32) -> String {
    if libc::WIFSIGNALED(st) {
        match libc::WTERMSIG(st) {
            libc::SIGALRM => format!("does not return within {ALARM} s"),
            s => format!("the process is killed by signal {s}"),
        }
    } else {
        match libc::WEXITSTATUS(st) {
            crate::sched::EXIT_DEADLOCK => "deadlock: no thread can go on".into(),
            crate::sched::EXIT_LIVELOCK => "no progress: the threads run for ever".into(),
            s => format!("the process exits with status {s}"),
        }
    }
}

/// tasks 0..n done by as many processes as there are processors; each gives a value
pub fn parallel(n: usize, f: impl Fn(usize) -> Value) -> Vec<Value> {
    let k = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(n.max(1));
    // the next task, and how many have failed
    let next = Shared::<AtomicU64>::new(2);
    let mut readers = vec![];
    let cpus: Vec<usize> = unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &set)).collect()
    };
    for w in 0..k {
        unsafe {
            let mut fd = [0; 2];
            assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // its threads take turns anyway, which is quickest on one processor
                if !cpus.is_empty() {
                    let mut set: libc::cpu_set_t = std::mem::zeroed();
                    libc::CPU_SET(cpus[w % cpus.len()], &mut set);
                    libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                }
                loop {
                    let i = next.all()[0].fetch_add(1, SeqCst) as usize;
                    if i >= n || next.all()[1].load(SeqCst) >= ENOUGH || out_of_time() {
                        break;
                    }
                    // each task starts in a process in which nothing has happened yet
                    let task = libc::fork();
                    assert!(task >= 0, "fork failed");
                    if task == 0 {
                        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                        let v = f(i);
                        if !v["fail"].is_null() {
                            next.all()[1].fetch_add(1, SeqCst);
                        }
                        let s = format!("{i} {v}\n");
                        let mut b = s.as_bytes();
                        while !b.is_empty() {
                            let w = libc::write(fd[1], b.as_ptr() as *const _, b.len());
                            if w <= 0 {
                                libc::_exit(9);
                            }
                            b = &b[w as usize..];
                        }
                        libc::_exit(0);
                    }
                    let mut st = 0;
                    while libc::waitpid(task, &mut st, 0) != task {}
                    if st != 0 {
                        libc::_exit(8);
                    }
                }
                libc::_exit(0);
            }
            libc::close(fd[1]);
            use std::os::fd::FromRawFd;
            readers.push((pid, std::fs::File::from_raw_fd(fd[0])));
        }
    }
    // read from all of them at once, or a full pipe would hold a worker up
    let handles: Vec<_> = readers
        .into_iter()
        .map(|(pid, mut f)| {
            std::thread::spawn(move || {
                let mut s = String::new();
                f.read_to_string(&mut s).unwrap();
                let mut st = 0;
                unsafe { while libc::waitpid(pid, &mut st, 0) != pid {} }
                assert_eq!(st, 0, "a worker failed");
                s
            })
        })
        .collect();
    let mut out = vec![Value::Null; n];
    for h in handles {
        for l in h.join().expect("a worker failed").lines() {
            let (i, v) = l.split_once(' ').unwrap();
            out[i.parse::<usize>().unwrap()] = serde_json::from_str(v).unwrap();
        }
    }
    for v in &mut out {
        if v.is_null() {
            *v = serde_json::json!({"skipped": true, "fail": null});
        }
    }
    out
}
