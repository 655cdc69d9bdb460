//! The frame of a falsifier: workers, hang detection, replay files.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};

pub type Finds = Vec<(&'static str, String)>;

#[derive(Clone)]
pub struct Rng(pub u64);
#[allow(dead_code)]
impl Rng {
    pub fn new(s: u64) -> Rng { let mut r = Rng(s ^ 0x9e3779b97f4a7c15); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn chance(&mut self, pc: usize) -> bool { self.below(100) < pc }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

pub struct Run { pub pid: String, pub thorough: bool, pub seed: u64, pub nt: usize, pub secs: u64, dir: String, found: AtomicBool, cases: AtomicU64, cur: Vec<Mutex<(u64, String)>>, out: Mutex<Vec<String>>, t0: std::time::Instant, one: fn(&str, &str) -> Finds }
impl Run {
    pub fn over(&self) -> bool { self.t0.elapsed().as_secs() >= self.secs || self.found.load(Relaxed) }
    /// runs one case; true when the worker is to stop
    pub fn case(&self, t: usize, kind: &str, input: &str) -> bool {
        if self.found.load(Relaxed) { return true }
        { let mut c = self.cur[t].lock().unwrap(); c.0 += 1; c.1 = format!("{kind} {input}"); }
        let n = self.cases.fetch_add(1, Relaxed);
        let one = self.one;
        let fs = match std::panic::catch_unwind(|| one(kind, input)) { Ok(f) => f, Err(e) => vec![("PANIC", format!("a panic in the code under test: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))] };
        let mut fs: Finds = fs.into_iter().filter(|(p, _)| *p == self.pid || *p == "PANIC").collect();
        // what these cases do depends on timing: a case that cannot be made to fail again shows nothing
        if !fs.is_empty() {
            let t0 = std::time::Instant::now();
            let mut again = false;
            for k in 0..40 {
                if k > 4 && t0.elapsed().as_secs() > 30 { break }
                { let mut c = self.cur[t].lock().unwrap(); c.0 += 1; }
                match std::panic::catch_unwind(|| one(kind, input)) {
                    Ok(f) => if f.iter().any(|(p, _)| fs.iter().any(|(q, _)| p == q)) { again = true; break },
                    Err(_) => if fs.iter().any(|(q, _)| *q == "PANIC") { again = true; break },
                }
            }
            if !again {
                self.out.lock().unwrap().push(format!("NOTE unconfirmed {kind} {input} {}", fs[0].1.replace('\n', " ").chars().take(600).collect::<String>()));
                fs.clear();
            }
        }
        if n < 3 { self.out.lock().unwrap().push(format!("SAMPLE {kind} {}", input.chars().take(120).collect::<String>())) }
        self.hit(kind, input, fs)
    }
    pub fn hit(&self, kind: &str, input: &str, fs: Finds) -> bool {
        for (p, m) in fs {
            if p != self.pid && p != "PANIC" { continue }
            // the sandbox, not the code under test
            if p == "PANIC" && ["AddrInUse", "AddrNotAvailable", "Too many open files"].iter().any(|w| m.contains(w)) { continue }
            if self.found.swap(true, SeqCst) { return true }
            let path = format!("{}/{}.replay", self.dir, self.pid);
            let _ = std::fs::create_dir_all(&self.dir);
            let _ = std::fs::write(&path, format!("property {}\nkind {kind}\ninput {input}\nwhat {m}\n", self.pid));
            self.out.lock().unwrap().push(format!("FOUND {} {path} {}", self.pid, m.replace('\n', " ").chars().take(900).collect::<String>()));
            return true;
        }
        false
    }
}
/// `one` decides a case; `worker` enumerates the cases of a property for worker t
pub fn main(one: fn(&str, &str) -> Finds, worker: fn(&Run, usize), quick: u64, long: u64, nt: usize, hang: u64) {
    let verbose = std::env::var("VX_TRACE").is_ok();
    if !verbose { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).unwrap_or("").to_string();
        let fs = one(&g("kind"), &g("input"));
        for f in &fs { println!("{} {}", f.0, f.1) }
        std::process::exit(if fs.is_empty() { 0 } else { 1 });
    }
    if a[1] == "one" { for f in one(&a[2], &a[3]) { println!("{} {}", f.0, f.1) } return }
    let (pid, tier, seed, dir) = (a[1].clone(), a[2].clone(), a[3].parse::<u64>().unwrap_or(1), a[4].clone());
    let thorough = tier == "thorough";
    let run = Arc::new(Run { pid, thorough, seed, nt, secs: if thorough { long } else { quick }, dir, found: AtomicBool::new(false), cases: AtomicU64::new(0), cur: (0..nt).map(|_| Mutex::new((0, String::new()))).collect(), out: Mutex::new(vec![]), t0: std::time::Instant::now(), one });
    let hs: Vec<_> = (0..nt).map(|t| { let run = run.clone(); std::thread::spawn(move || worker(&run, t)) }).collect();
    let mut last: Vec<(u64, std::time::Instant)> = vec![(0, run.t0); nt];
    loop {
        std::thread::sleep(std::time::Duration::from_millis(50));
        if run.found.load(SeqCst) || hs.iter().all(|h| h.is_finished()) { break }
        for t in 0..nt {
            let c = run.cur[t].lock().unwrap().clone();
            if c.0 != last[t].0 || hs[t].is_finished() { last[t] = (c.0, std::time::Instant::now()) }
            else if last[t].1.elapsed().as_secs() > hang && !c.1.is_empty() {
                let (k, i) = c.1.split_once(' ').unwrap();
                run.hit(k, i, vec![("PANIC", format!("{k} {i} does not come to an end"))]);
            }
        }
    }
    std::thread::sleep(std::time::Duration::from_millis(100));
    for l in run.out.lock().unwrap().iter() { println!("{l}") }
    println!("CASES {}", run.cases.load(Relaxed));
    std::process::exit(if run.found.load(SeqCst) { 1 } else { 0 });
}
