//! Answers one line of JSON for each line of JSON, for the check of P38.
use std::io::{BufRead, Write};
use std::os::fd::FromRawFd;

pub fn serve(answer: fn(&[String]) -> serde_json::Value) {
    // The code under test prints to stdout and stderr; the answers go elsewhere.
    let mut out = unsafe {
        let out = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
        let l = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        std::fs::File::from_raw_fd(out)
    };
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        for line in std::io::stdin().lock().lines() {
            let Ok(line) = line else { break };
            let texts: Vec<String> = serde_json::from_str(&line).unwrap();
            // what takes this much processor time is not going to end
            let limit = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: 100, tv_usec: 0 } };
            unsafe { libc::setitimer(libc::ITIMER_PROF, &limit, std::ptr::null_mut()); }
            let a = serde_json::to_string(&answer(&texts)).unwrap();
            if writeln!(out, "{a}").is_err() { break }
        }
    }).unwrap().join().unwrap();
}
