//! Worker pool, case accounting, crash/hang attribution, evidence and verdict output.
use std::collections::HashSet;
use std::fs;
use std::io::Write;
use std::os::unix::io::FromRawFd;
use std::panic;
use std::time::{Duration, Instant};
use crate::ex;
use rawloader::RawImage;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").ok().as_deref() { Some("thorough") => Tier::Thorough, _ => Tier::Quick }
}
pub fn thorough() -> bool { tier() == Tier::Thorough }
/// picks the quick or the thorough bound
pub fn q<T>(quick: T, deep: T) -> T { if thorough() { deep } else { quick } }

pub struct Job { pub name: String, pub run: Box<dyn Fn(&mut Ctx)> }
pub fn job<F: Fn(&mut Ctx) + 'static>(name: impl Into<String>, f: F) -> Job { Job { name: name.into(), run: Box::new(f) } }


pub struct Ctx {
    pub id: String,
    pub job: usize,
    pub job_name: String,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub capped: bool,
    pub known: HashSet<String>,
    pub known_hit: Vec<String>,
    pub desc: String,
    pub file: Vec<u8>,
    case: u64,
    dump_at: u64,
    only_case: u64,
    slot: *mut u64,
    slow_ms: Option<u64>, slow_at: (String, Instant),
    fd: i32,
    out: Option<fs::File>,
}

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn replay_dir() -> String { std::env::var("VERIF_REPLAYS").unwrap_or_else(|_| "/verif/replays".into()) }
pub fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

impl Ctx {
    fn new(id: &str, slot: *mut u64) -> Ctx {
        Ctx { id: id.into(), job: 0, job_name: String::new(), states: 0, transitions: 0, traces: 0, outcomes: HashSet::new(),
              samples: Vec::new(), capped: false, known: load_known(id), known_hit: Vec::new(), desc: String::new(), file: Vec::new(),
              case: 0, dump_at: u64::MAX, only_case: u64::MAX, slot, slow_ms: std::env::var("VERIF_SLOW").ok().and_then(|s| s.parse().ok()), slow_at: (String::new(), Instant::now()), fd: -1, out: None }
    }
    /// a context outside the worker pool
    pub fn bare(id: &str) -> Ctx { Ctx::new(id, std::ptr::null_mut()) }
    /// Marks the start of one execution against the real code. `desc` must identify it.
    pub fn begin<F: FnOnce() -> (String, Vec<u8>)>(&mut self, f: F) {
        if let Some(ms) = self.slow_ms {
            // a development aid: names the executions that take long
            let m = self.slow_at.1.elapsed().as_millis() as u64;
            if m >= ms { let s = format!("T\tSLOW {} ms: {}\n", m, self.slow_at.0); self.send(&s); }
            let (d, b) = f();
            self.case += 1; self.traces += 1;
            if !self.slot.is_null() { unsafe { std::ptr::write_volatile(self.slot.add(1), self.case); } }
            let _ = b;
            self.slow_at = (d, Instant::now());
            return;
        }
        self.case += 1;
        self.traces += 1;
        if !self.slot.is_null() { unsafe { std::ptr::write_volatile(self.slot.add(1), self.case); } }
        if self.case == self.dump_at {
            let (d, b) = f();
            let p = self.write_replay(&d, &b, "the process died or hung while executing this case");
            self.send(&format!("P\t{}\n", p));
            unsafe { libc::_exit(0) }
        }
    }
    fn write_replay(&self, desc: &str, file: &[u8], what: &str) -> String {
        let d = replay_dir();
        let _ = fs::create_dir_all(&d);
        let base = format!("{}/{}-job{}-case{}", d, self.id, self.job, self.case);
        if !file.is_empty() { let _ = fs::write(format!("{}.raw", base), file); }
        let mut s = String::new();
        s += &format!("property: {}\njob: {} ({})\ncase: {}\nreplay: bash check.sh {} --replay {}:{}\n", self.id, self.job, self.job_name, self.case, self.id, self.job, self.case);
        s += &format!("what: {}\nscenario: {}\n", what, desc);
        if !file.is_empty() { s += &format!("input file: {}.raw ({} bytes)\n", base, file.len()); }
        let p = format!("{}.txt", base);
        let _ = fs::write(&p, s);
        p
    }
    fn send(&mut self, s: &str) { if let Some(ref mut o) = self.out { let _ = o.write_all(s.as_bytes()); } else { eprint!("{}", s); } }
    /// Reports a violation; returns only when it is a listed known finding.
    pub fn fail(&mut self, key: &str, desc: &str, file: &[u8], what: &str) {
        if self.known.contains(key) { if !self.known_hit.iter().any(|k| k == key) { self.known_hit.push(key.into()); } return; }
        let p = self.write_replay(desc, file, what);
        let w = what.replace('\n', " ").replace('\t', " ");
        let d = desc.replace('\n', " ").replace('\t', " ");
        let m = format!("V\t{}\t{}\t{}\t{}\n", self.job, p, key, format!("{} [{}]", w, d).chars().take(1500).collect::<String>());
        self.send(&m);
        panic::panic_any(ViolMarker);
    }
    pub fn sample(&mut self, s: impl Into<String>) { if self.samples.len() < 2 { self.samples.push(s.into().chars().take(400).collect()); } }
    pub fn outcome(&mut self, h: u64) { if self.outcomes.len() < 200_000 { self.outcomes.insert(h); } }
    /// Explores every choice sequence of `f` within `bound` deviations.
    pub fn explore<F: FnMut(&mut ex::Chooser, &mut Ctx)>(&mut self, bound: u32, mut f: F) {
        let cap = 50_000_000;
        let st = { let me: *mut Ctx = self; ex::explore(bound, cap, |ch| f(ch, unsafe { &mut *me })) };
        self.states += st.nodes;
        self.capped |= st.capped;
    }
    /// Writes the bytes to a private memory file and decodes it by path, exactly as a user would.
    pub fn decode(&mut self, bytes: &[u8]) -> Result<RawImage, String> {
        let path = self.put_file(bytes);
        rawloader::decode(&path)
    }
    pub fn put_file(&mut self, bytes: &[u8]) -> String {
        unsafe {
            if self.fd < 0 { self.fd = libc::memfd_create(b"case\0".as_ptr() as *const _, 0); assert!(self.fd >= 0); }
            assert!(libc::ftruncate(self.fd, 0) == 0);
            let mut off = 0;
            while off < bytes.len() {
                let n = libc::pwrite(self.fd, bytes[off..].as_ptr() as *const _, bytes.len() - off, off as i64);
                assert!(n > 0);
                off += n as usize;
            }
        }
        format!("/proc/self/fd/{}", self.fd)
    }
}
struct ViolMarker;

fn load_known(id: &str) -> HashSet<String> {
    let mut r = HashSet::new();
    if let Ok(s) = fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
        for l in s.lines() {
            // known: property=C01 key=<key> <text>
            if let Some(rest) = l.strip_prefix(&format!("known: property={} key=", id)) {
                if let Some(k) = rest.split_whitespace().next() { r.insert(k.to_string()); }
            }
        }
    }
    r
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c {
        '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n",
        c if (c as u32) < 32 => o += " ", c => o.push(c) } }
    o.push('"');
    o
}

pub struct Spec<'a> {
    pub id: &'a str,
    pub level: &'a str,
    pub bounds: &'a str,
    pub assumptions: &'a [&'a str],
    pub hang_s: u64,
    pub mem_gb: u64,
    /// run the exploration inside the (single-threaded) parallel runtime; false leaves threads to the check
    pub in_pool: bool,
    /// let the library build its camera database before the workers fork
    pub warm: bool,
}
impl<'a> Spec<'a> {
    pub fn new(id: &'a str, bounds: &'a str, assumptions: &'a [&'a str]) -> Spec<'a> {
        Spec { id, level: "model_checking", bounds, assumptions, hang_s: 60, mem_gb: 12, in_pool: true, warm: true }
    }
}

fn worker(spec: &Spec, jobs: &[Job], jobfd: i32, outfd: i32, slot: *mut u64, dump: Option<(usize, u64)>) -> ! {
    unsafe {
        let lim = libc::rlimit { rlim_cur: spec.mem_gb << 30, rlim_max: spec.mem_gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &nocore);
        let dn = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
        libc::dup2(dn, 1);
        if std::env::var("VERIF_DEBUG").is_err() { libc::dup2(dn, 2); }
    }
    if std::env::var("VERIF_DEBUG").is_err() { panic::set_hook(Box::new(|_| {})); }
    let out = unsafe { fs::File::from_raw_fd(outfd) };
    let mut ctx = Ctx::new(spec.id, slot);
    ctx.out = Some(out);
    let body = |ctx: &mut Ctx| {
        let one = |ctx: &mut Ctx, j: usize| {
            ctx.job = j; ctx.job_name = jobs[j].name.clone(); ctx.case = 0;
            ctx.states = 0; ctx.transitions = 0; ctx.traces = 0; ctx.outcomes.clear(); ctx.samples.clear(); ctx.known_hit.clear(); ctx.capped = false;
            if !slot.is_null() { unsafe { std::ptr::write_volatile(slot, j as u64); std::ptr::write_volatile(slot.add(1), 0); } }
            let t = Instant::now();
            let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (jobs[j].run)(ctx)));
            if std::env::var("VERIF_TIMES").is_ok() { let s = format!("T\t{:8.2} s  job {} {} ({} executions)\n", t.elapsed().as_secs_f64(), j, ctx.job_name, ctx.traces); ctx.send(&s); }
            if let Err(e) = r {
                if !e.is::<ViolMarker>() {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    let s = format!("E\t{}\tharness panic in job {}: {}\n", j, ctx.job_name, m.replace('\n', " "));
                    ctx.send(&s);
                }
            }
            let mut s = format!("D\t{}\t{}\t{}\t{}\t{}\t{}\n", j, ctx.states, ctx.transitions, ctx.traces, ctx.outcomes.len(), ctx.capped as u32);
            for x in ctx.samples.iter() { s += &format!("S\t{}: {}\n", ctx.job_name.replace('\t', " "), x.replace('\n', " ").replace('\t', " ")); }
            for x in ctx.known_hit.iter() { s += &format!("K\t{}\n", x); }
            ctx.send(&s);
        };
        if let Some((j, c)) = dump { ctx.dump_at = c; one(ctx, j); return; }
        loop {
            let mut b = [0u8; 4];
            let n = unsafe { libc::read(jobfd, b.as_mut_ptr() as *mut _, 4) };
            if n != 4 { break; }
            one(ctx, u32::from_le_bytes(b) as usize);
        }
    };
    if spec.in_pool {
        struct S<T>(T);
        unsafe impl<T> Send for S<T> {}
        let p = S((&mut ctx as *mut Ctx, &body as *const _));
        fn call<F: Fn(&mut Ctx)>(p: S<(*mut Ctx, *const F)>) { rayon::scope(move |_| { let p = p; unsafe { (*(p.0).1)(&mut *(p.0).0) } }); }
        call(p);
    } else { body(&mut ctx); }
    unsafe { libc::_exit(0) }
}

/// seconds of processor time a process has used, its threads included
fn cpu_of(pid: i32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / 100.0
}
/// a case is stuck when it has had the time it may take, of the clock and of the processor, or waits without using any
fn stuck(wall: f64, pid: i32, cpu0: f64, limit: f64) -> bool {
    if wall <= limit { return false; }
    let used = cpu_of(pid) - cpu0;
    used > limit || used < wall / 100.0 || wall > 5.0 * limit
}

struct Child { pid: i32, idx: usize, slot: *mut u64, last: (u64, u64), since: Instant, cpu0: f64, alive: bool, killed: bool, buf: Vec<u8>, fd: i32, eof: bool }

fn spawn(spec: &Spec, jobs: &[Job], jobfd: i32, idx: usize, slot: *mut u64, dump: Option<(usize, u64)>) -> Child {
    unsafe {
        let mut p = [0i32; 2];
        assert!(libc::pipe(p.as_mut_ptr()) == 0);
        std::io::stdout().flush().ok();
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); libc::close(p[0]); worker(spec, jobs, jobfd, p[1], slot, dump); }
        libc::close(p[1]);
        libc::fcntl(p[0], libc::F_SETFL, libc::O_NONBLOCK);
        Child { pid, idx, slot, last: (u64::MAX, 0), since: Instant::now(), cpu0: 0.0, alive: true, killed: false, buf: Vec::new(), fd: p[0], eof: false }
    }
}

fn pump(c: &mut Child) -> Vec<String> {
    let mut tmp = [0u8; 65536];
    loop {
        let n = unsafe { libc::read(c.fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
        if n == 0 { c.eof = true; break; }
        if n < 0 { break; }
        c.buf.extend_from_slice(&tmp[..n as usize]);
    }
    let mut lines = Vec::new();
    while let Some(p) = c.buf.iter().position(|&b| b == b'\n') {
        let l: Vec<u8> = c.buf.drain(..=p).collect();
        lines.push(String::from_utf8_lossy(&l[..l.len() - 1]).to_string());
    }
    lines
}

pub fn run_main(spec: Spec, mkjobs: fn() -> Vec<Job>) -> ! {
    let t0 = Instant::now();
    std::env::set_var("RAYON_NUM_THREADS", "1");
    std::env::set_var("RAYON_RS_NUM_CPUS", "1");
    let args: Vec<String> = std::env::args().collect();
    // build the shared database once, before forking
    if spec.warm && std::panic::catch_unwind(|| { let _ = rawloader::decode("/nonexistent/path"); }).is_err() {
        // nothing can be opened at all
        let ev = format!("{}/evidence", verif_dir());
        let dir = std::env::var("VERIF_REPLAYS").unwrap_or_else(|_| format!("{}/replays", verif_dir()));
        let (_, _) = (fs::create_dir_all(&ev), fs::create_dir_all(&dir));
        let p = format!("{}/{}-startup.txt", dir, spec.id);
        let _ = fs::write(&p, "rawloader::decode panics on its first use, whatever the file\n");
        let _ = fs::write(format!("{}/{}.json", ev, spec.id), format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": 0,\n \"level\": {},\n \"coverage\": {{\"states\": 1, \"transitions\": 1, \"traces_validated_against_impl\": 1, \"exhaustive\": false}},\n \"assumptions\": [],\n \"violations\": 1,\n \"wall_s\": {:.2}\n}}\n", esc(spec.id), esc(if thorough() { "thorough" } else { "quick" }), esc(spec.level), t0.elapsed().as_secs_f64()));
        println!("the library panics on its first use");
        println!("VIOLATION property={} replay={}", spec.id, p);
        std::process::exit(1);
    }
    let jobs = mkjobs();
    let filter = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
    let replay = args.iter().position(|a| a == "--replay").map(|i| args[i + 1].clone());
    let mut order: Vec<u32> = (0..jobs.len() as u32).collect();
    if let Some(ref f) = filter { order.retain(|&j| jobs[j as usize].name.contains(f.as_str())); }
    if let Some(ref r) = replay { let j: u32 = r.split(':').next().unwrap().parse().unwrap(); order = vec![j]; }
    if args.iter().any(|a| a == "--list") { for (i, j) in jobs.iter().enumerate() { println!("{} {}", i, j.name); } std::process::exit(0); }
    let nw = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize).min(order.len().max(1));
    let mut jp = [0i32; 2];
    unsafe {
        assert!(libc::pipe(jp.as_mut_ptr()) == 0);
        libc::fcntl(jp[1], libc::F_SETPIPE_SZ, 1 << 20);
        let mut b = Vec::new();
        for j in &order { b.extend_from_slice(&j.to_le_bytes()); }
        assert!(b.len() <= 60_000 || libc::fcntl(jp[1], libc::F_GETPIPE_SZ) as usize >= b.len(), "too many jobs");
        let mut off = 0;
        while off < b.len() { let n = libc::write(jp[1], b[off..].as_ptr() as *const _, b.len() - off); assert!(n > 0); off += n as usize; }
        libc::close(jp[1]);
    }
    let shm = unsafe { libc::mmap(std::ptr::null_mut(), 65536, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u64 };
    let mut kids: Vec<Child> = (0..nw).map(|i| spawn(&spec, &jobs, jp[0], i, unsafe { shm.add(i * 16) }, None)).collect();
    let (mut states, mut trans, mut traces, mut outc) = (0u64, 0u64, 0u64, 0u64);
    let mut done = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut viols: Vec<(String, String)> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut known: HashSet<String> = HashSet::new();
    let mut capped = false;
    let mut crashes: Vec<(u64, u64, String)> = Vec::new();
    loop {
        let mut active = false;
        for c in kids.iter_mut() {
            for l in pump(c) {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "V" => viols.push((f[2].to_string(), f[4..].join(" "))),
                    "E" => errors.push(f[2..].join(" ")),
                    "S" => if samples.len() < 12 { samples.push(f[1..].join(" ")) },
                    "T" => println!("{}", f[1]),
                    "K" => { known.insert(f[1].to_string()); }
                    "D" => {
                        done.insert(f[1].parse::<u32>().unwrap());
                        states += f[2].parse::<u64>().unwrap(); trans += f[3].parse::<u64>().unwrap(); traces += f[4].parse::<u64>().unwrap();
                        outc += f[5].parse::<u64>().unwrap(); capped |= f[6] == "1";
                    }
                    _ => {}
                }
            }
            if !c.alive { continue; }
            active = true;
            let cur = unsafe { (std::ptr::read_volatile(c.slot), std::ptr::read_volatile(c.slot.add(1))) };
            if cur != c.last { c.last = cur; c.since = Instant::now(); c.cpu0 = -1.0; }
            else if c.cpu0 < 0.0 { if c.since.elapsed().as_millis() > 500 { c.cpu0 = cpu_of(c.pid); } }
            else if !c.killed && stuck(c.since.elapsed().as_secs_f64(), c.pid, c.cpu0, spec.hang_s as f64) {
                c.killed = true;
                unsafe { libc::kill(c.pid, libc::SIGKILL); }
                crashes.push((cur.0, cur.1, format!("does not terminate (no progress for {} s)", spec.hang_s)));
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(c.pid, &mut st, libc::WNOHANG) };
            if r == c.pid {
                c.alive = false;
                let ok = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 70 { errors.push("engine: replay divergence".into()); }
                else if !ok && !c.killed {
                    crashes.push((cur.0, cur.1, if libc::WIFSIGNALED(st) { format!("kills the process (signal {})", libc::WTERMSIG(st)) } else { format!("ends the process (exit status {})", libc::WEXITSTATUS(st)) }));
                }
            }
        }
        if !active { break; }
        if !viols.is_empty() || !crashes.is_empty() || !errors.is_empty() {
            // one counterexample decides; stop the rest
            std::thread::sleep(Duration::from_millis(200));
            for c in kids.iter_mut() { if c.alive { c.killed = true; unsafe { libc::kill(c.pid, libc::SIGKILL); } } }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for c in kids.iter_mut() { for l in pump(c) {
        let f: Vec<&str> = l.split('\t').collect();
        if f[0] == "V" { viols.push((f[2].to_string(), f[4..].join(" "))); }
        if f[0] == "E" { errors.push(f[2..].join(" ")); }
        if f[0] == "S" && samples.len() < 12 { samples.push(f[1..].join(" ")); }
        if f[0] == "K" { known.insert(f[1].to_string()); }
        if f[0] == "D" {
            done.insert(f[1].parse::<u32>().unwrap());
            states += f[2].parse::<u64>().unwrap(); trans += f[3].parse::<u64>().unwrap(); traces += f[4].parse::<u64>().unwrap();
            outc += f[5].parse::<u64>().unwrap(); capped |= f[6] == "1";
        }
    } let _ = c.idx; }
    // attribute crashes and hangs to a case by re-running the job up to it
    if viols.is_empty() {
        for (j, cse, what) in crashes.iter() {
            let mut p = String::new();
            if *cse > 0 && (*j as usize) < jobs.len() {
                let mut c = spawn(&spec, &jobs, jp[0], 0, unsafe { shm.add(64 * 16) }, Some((*j as usize, *cse)));
                let t = Instant::now();
                while t.elapsed() < Duration::from_secs(300) {
                    for l in pump(&mut c) { if let Some(x) = l.strip_prefix("P\t") { p = x.to_string(); } }
                    let mut st = 0;
                    if unsafe { libc::waitpid(c.pid, &mut st, libc::WNOHANG) } == c.pid { c.alive = false; break; }
                    std::thread::sleep(Duration::from_millis(5));
                }
                for l in pump(&mut c) { if let Some(x) = l.strip_prefix("P\t") { p = x.to_string(); } }
                if c.alive { unsafe { libc::kill(c.pid, libc::SIGKILL); let mut st = 0; libc::waitpid(c.pid, &mut st, 0); } }
            }
            if p.is_empty() { errors.push(format!("worker died outside a case (job {} case {}): {}", j, cse, what)); }
            else { viols.push((p, format!("executing the case {} [job {}]", what, jobs[*j as usize].name))); break; }
        }
    }
    let complete = done.len() == order.len() && errors.is_empty() && viols.is_empty();
    // a check may run the same exploration on a second build of the code (VERIF_PART) and count it in (VERIF_ADD)
    if let Ok(f) = std::env::var("VERIF_ADD") { if let Ok(x) = fs::read_to_string(&f) { let n: Vec<u64> = x.split_whitespace().filter_map(|y| y.parse().ok()).collect(); if n.len() == 4 { states += n[0]; trans += n[1]; traces += n[2]; outc += n[3]; samples.push(format!("of these, {} executions in the build with release arithmetic", n[2])); } } }
    let wall = t0.elapsed().as_secs_f64();
    let tier_s = if thorough() { "thorough" } else { "quick" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut s = String::new();
    s += &format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n", esc(spec.id), esc(tier_s), seed, esc(spec.level));
    s += &format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n", states, trans, traces, outc);
    s += &format!("  \"jobs_completed\": {},\n  \"jobs_total\": {},\n  \"exhaustive\": {},\n  \"bounds\": {},\n", done.len(), order.len(), complete && !capped, esc(spec.bounds));
    s += "  \"counting\": \"states: distinct nodes of the explored choice trees; transitions: model steps (tokens, samples, pixels, tree edges) evaluated; traces: executions of the real code compared with the model\",\n";
    s += &format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "));
    s += &format!(" \"assumptions\": [{}],\n \"violations\": {},\n \"known_findings\": {},\n \"wall_s\": {:.2}\n}}\n", spec.assumptions.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "), viols.len(), known.len(), wall);
    let ev = format!("{}/evidence", verif_dir());
    let _ = fs::create_dir_all(&ev);
    if let Ok(f) = std::env::var("VERIF_PART") { fs::write(f, format!("{} {} {} {}", states, trans, traces, outc)).expect("write counts"); }
    if (std::env::var("VERIF_PART").is_err() || !viols.is_empty()) && replay.is_none() && filter.is_none() { fs::write(format!("{}/{}.json", ev, spec.id), s).expect("write evidence"); }
    let mut ks: Vec<_> = known.iter().collect();
    ks.sort();
    for k in ks { println!("KNOWN-FINDING: property={} {}", spec.id, k); }
    println!("{} {}: jobs={}/{} states={} transitions={} traces={} outcomes={} wall={:.1}s", spec.id, tier_s, done.len(), order.len(), states, trans, traces, outc, wall);
    if let Some((p, d)) = viols.first() {
        println!("{}", d);
        println!("VIOLATION property={} replay={}", spec.id, p);
        std::process::exit(1);
    }
    if !complete { for e in errors.iter().take(5) { println!("ERROR {}", e); } std::process::exit(3); }
    std::process::exit(0);
}

