//! Helpers for the checks that need a pristine process per execution: a single-threaded shard
//! process (`pv shard ID i n tier`) forks one child per explored history or schedule.
use crate::eng::*;
use std::io::{BufRead, Read};
use std::process::{Command, Stdio};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
/// Memory shared between a shard and its forked descendants.
pub fn shared<T>(n: usize) -> &'static mut [T] {
    let bytes = (n * std::mem::size_of::<T>()).max(4096);
    unsafe {
        let p = mmap(std::ptr::null_mut(), bytes, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        std::slice::from_raw_parts_mut(p as *mut T, n)
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Exit(i32),
    Signal(i32),
}
impl End {
    pub fn text(self) -> Option<String> {
        match self {
            End::Exit(0) => None,
            End::Exit(c) => Some(format!("the process exited with status {c}")),
            End::Signal(14) => Some("no answer within the time limit".into()),
            End::Signal(s) => Some(format!("the process died with signal {s}")),
        }
    }
}
/// Run `f` in a forked child with a time limit; its return value is the exit status.
pub fn in_fork(secs: u32, f: impl FnOnce() -> i32) -> End {
    unsafe {
        let p = fork();
        assert!(p >= 0, "fork failed");
        if p == 0 {
            alarm(secs);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(99);
            _exit(r)
        }
        let mut st = 0;
        while waitpid(p, &mut st, 0) != p {}
        if st & 0x7f == 0 {
            End::Exit((st >> 8) & 0xff)
        } else {
            End::Signal(st & 0x7f)
        }
    }
}
/// Run the shards of a check in fresh processes and collect what they print.
pub fn run_shards(c: &Ctx, l: &mut L, n: usize) {
    let me = std::env::current_exe().unwrap();
    c.par(l, n, |l, i| {
        let tier = if c.thorough { "thorough" } else { "quick" };
        let mut ch = Command::new(&me)
            .args(["shard", c.id, &i.to_string(), &n.to_string(), tier])
            .stdout(Stdio::piped())
            .stderr(Stdio::inherit())
            .spawn()
            .expect("shard");
        let mut out = String::new();
        std::io::BufReader::new(ch.stdout.take().unwrap()).read_to_string(&mut out).expect("shard output");
        let st = ch.wait().expect("shard");
        for line in out.as_bytes().lines().map(|x| x.unwrap()) {
            let (tag, rest) = line.split_once(' ').unwrap_or((&line, ""));
            match tag {
                "FAIL" => {
                    let mut p = rest.splitn(3, ' ');
                    let (kind, args, what) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap_or(""));
                    let kind = c.kinds.iter().find(|k| **k == kind).expect("kind");
                    l.fails.push((l.job, Fail { kind, args: unhex(args), what: what.into() }));
                }
                "STATES" => l.states += rest.parse::<u64>().unwrap(),
                "TRANS" => l.trans += rest.parse::<u64>().unwrap(),
                "TRACES" => l.traces += rest.parse::<u64>().unwrap(),
                "CALLS" => l.evals += rest.parse::<u64>().unwrap(),
                "SAMPLE" => l.sample(|| rest.to_string()),
                "COUNT" => {
                    let (k, v) = rest.split_once(' ').unwrap();
                    l.count(k, v.parse().unwrap());
                }
                "DONE" => l.count("shards_completed", 1),
                _ => {}
            }
        }
        if st.code() != Some(0) || !out.contains("\nDONE") {
            eprintln!("shard {i} of {} failed: {st}", c.id);
            std::process::exit(2);
        }
    });
}
/// What a shard reports to the worker that started it.
#[derive(Default)]
pub struct Out {
    pub states: u64,
    pub trans: u64,
    pub traces: u64,
    pub calls: u64,
    pub fails: Vec<(&'static str, Vec<f64>, String)>,
    pub samples: Vec<String>,
    pub counts: std::collections::BTreeMap<String, u64>,
}
impl Out {
    pub fn print(&self) {
        for f in &self.fails {
            println!("FAIL {} {} {}", f.0, hex(&f.1), f.2.replace('\n', " "));
        }
        for s in &self.samples {
            println!("SAMPLE {s}");
        }
        for (k, v) in &self.counts {
            println!("COUNT {k} {v}");
        }
        println!("STATES {}\nTRANS {}\nTRACES {}\nCALLS {}\nDONE", self.states, self.trans, self.traces, self.calls);
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_default() += n;
    }
}
