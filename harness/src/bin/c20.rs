//! C20: the command-line converter. The real binary is run on every combination of input kind, argument form and state of
//! the output, and with a write failure at every position of the output; exit status, output bytes and what must stay
//! untouched are checked after each run.
use harness::{dev::*, run::*, samples::*};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

struct Scratch(PathBuf);
impl Scratch { fn new(ctx: &Ctx) -> Scratch { let d = std::env::temp_dir().join(format!("c20-{}-{}", std::process::id(), ctx.job)); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap(); std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o777)).unwrap(); Scratch(d) } fn p(&self, n: &str) -> String { self.0.join(n).to_str().unwrap().to_string() } }
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn binary() -> String { std::env::var("VERIF_BINARY").expect("VERIF_BINARY names the converter") }

struct Run { code: Option<i32>, stdout: Vec<u8> }
fn run(args: &[&str], cwd: &str, limit: Option<u64>, threads: &str, nobody: bool) -> Run { run_env(args, cwd, limit, threads, nobody, &[]) }
fn run_env(args: &[&str], cwd: &str, limit: Option<u64>, threads: &str, nobody: bool, env: &[(&str, &str)]) -> Run {
    let mut c = Command::new(binary());
    for (k, v) in env { c.env(k, v); }
    c.args(args).current_dir(cwd).stdin(Stdio::null()).stderr(Stdio::null()).stdout(Stdio::piped()).env("RAYON_NUM_THREADS", threads).env("RAYON_RS_NUM_CPUS", threads);
    if nobody { c.uid(65534).gid(65534); }
    unsafe { c.pre_exec(move || {
        libc::alarm(40);
        if let Some(l) = limit { libc::signal(libc::SIGXFSZ, libc::SIG_IGN); let r = libc::rlimit { rlim_cur: l, rlim_max: l }; if libc::setrlimit(libc::RLIMIT_FSIZE, &r) != 0 { return Err(std::io::Error::last_os_error()); } }
        Ok(())
    }); }
    let o = c.output().expect("the converter can be started");
    Run { code: o.status.code(), stdout: o.stdout }
}
/// what the converter must write for this file
fn expected(path: &str) -> Result<Vec<u8>, String> {
    let img = rawloader::decode(path)?;
    let (w, h, d) = rgb(&img, 0, 0)?;
    let mut o = format!("P6 {} {} 255\n", w, h).into_bytes();
    for v in d { let x = if v > 0.0 { v as f64 * 255.0 } else { 0.0 }; o.push(if x >= 255.0 { 255 } else { x as u8 }); }
    Ok(o)
}
/// the same up to one level where the 8-bit step is decided by rounding of the product
fn close(got: &[u8], want: &[u8], path: &str) -> Result<(), String> {
    let img = rawloader::decode(path)?; let (_, _, d) = rgb(&img, 0, 0)?;
    let head = want.len() - d.len();
    if got.len() != want.len() { return Err(format!("the output has {} bytes, expected {}", got.len(), want.len())); }
    if got[..head] != want[..head] { return Err(format!("the header is {:?}, expected {:?}", String::from_utf8_lossy(&got[..head]), String::from_utf8_lossy(&want[..head]))); }
    for i in 0..d.len() { let (g, w) = (got[head + i], want[head + i]); if g != w {
        let x = d[i] as f64 * 255.0; let edge = (x - x.round()).abs() < 1e-3;
        if !(edge && (g as i32 - w as i32).abs() == 1) { return Err(format!("sample {} is {}, expected {} ({})", i, g, w, d[i])); }
    } }
    Ok(())
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Prior { Absent, Empty, Short, Long, Same, Link }
const PRIORS: [Prior; 6] = [Prior::Absent, Prior::Empty, Prior::Short, Prior::Long, Prior::Same, Prior::Link];
fn prepare(out: &str, p: Prior, want_len: usize) -> Option<Vec<u8>> {
    let _ = std::fs::remove_file(out); let _ = std::fs::remove_file(&format!("{}.target", out));
    let c = match p { Prior::Absent => return None, Prior::Empty => vec![], Prior::Short => b"old".to_vec(), Prior::Same => vec![0xa5; want_len], Prior::Long | Prior::Link => vec![0x5a; want_len + 5000] };
    if p == Prior::Link { let t = format!("{}.target", out); std::fs::write(&t, &c).unwrap(); std::os::unix::fs::symlink(&t, out).unwrap(); } else { std::fs::write(out, &c).unwrap(); }
    Some(c)
}
fn listing(d: &str) -> Vec<(String, Vec<u8>)> { let mut v: Vec<(String, Vec<u8>)> = std::fs::read_dir(d).unwrap().map(|e| { let e = e.unwrap(); (e.file_name().to_string_lossy().to_string(), if e.path().is_dir() { b"dir".to_vec() } else { std::fs::read(e.path()).unwrap_or(vec![0]) }) }).collect(); v.sort(); v }
fn usable(path: &str) -> bool { match rawloader::decode(path) { Ok(i) => i.width > 0 && i.height > 0 && i.width > i.crops[1] + i.crops[3] && i.height > i.crops[0] + i.crops[2] && rgb(&i, 0, 0).is_ok(), Err(_) => true } }

/// one run on a file in the scratch directory; `form`: 0 default name, 1 second argument, 2 relative names, 3 relative with output
fn convert(ctx: &mut Ctx, s: &Scratch, name: &str, bytes: &[u8], form: usize, prior: Prior, threads: &str, what: &str) {
    let desc = format!("{} as {:?}, arguments {}, output {:?}", what, name, ["input", "input output", "relative input", "relative input and output", "input output and a third"][form], prior);
    ctx.begin(|| (desc.clone(), bytes.to_vec()));
    let input = s.p(name);
    std::fs::write(&input, bytes).unwrap();
    if !usable(&input) { let _ = std::fs::remove_file(&input); return; }
    ctx.states += 1; ctx.transitions += 1;
    let want = expected(&input);
    let outname = if form % 2 == 1 || form == 4 { "result of it.ppm".to_string() } else { format!("{}.ppm", name) };
    let out = s.p(&outname);
    let old = prepare(&out, prior, want.as_ref().map(|w| w.len()).unwrap_or(100));
    let before = listing(s.0.to_str().unwrap());
    let dir = s.0.to_str().unwrap().to_string();
    let r = match form { 0 => run(&[&input], "/", None, threads, false), 1 => run(&[&input, &out], "/", None, threads, false), 2 => run(&[name], &dir, None, threads, false), 4 => run(&[&input, &out, "third"], &dir, None, threads, false), _ => run(&[name, &outname], &dir, None, threads, false) };
    ctx.outcome(hash(&(r.code, form, prior as u8)));
    let after = listing(&dir);
    match want {
        Err(_) => {
            if r.code != Some(2) { ctx.fail("status", &desc, bytes, &format!("exit status {:?} for an undecodable file, expected 2", r.code)); }
            if after != before { ctx.fail("touched", &desc, bytes, "files changed although the input cannot be decoded"); }
        }
        Ok(w) => {
            if r.code != Some(0) { ctx.fail("status", &desc, bytes, &format!("exit status {:?} for a decodable file, expected 0", r.code)); }
            match std::fs::read(&out) { Err(_) => ctx.fail("missing", &desc, bytes, "no output was written"), Ok(g) => if g != w { if let Err(m) = close(&g, &w, &input) { ctx.fail("output", &desc, bytes, &m); } } }
            let strip = |v: &Vec<(String, Vec<u8>)>| -> Vec<(String, Vec<u8>)> { v.iter().filter(|x| x.0 != outname && x.0 != format!("{}.target", outname)).cloned().collect() };
            if strip(&before) != strip(&after) { ctx.fail("extra", &desc, bytes, "another file was created, changed or removed"); }
            if r.stdout.is_empty() && false { let _ = old; }
        }
    }
    for e in std::fs::read_dir(&s.0).unwrap() { let _ = std::fs::remove_file(e.unwrap().path()); }
}
fn bayer(w: u16, h: u16) -> Vec<u8> { harness::corpus::dng16(w, h, &(0..w as usize * h as usize).map(|i| (i * 7919 % 16000) as u16).collect::<Vec<_>>(), |_| {}) }

fn jobs() -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let samples: Vec<&'static Sample> = all_samples().iter().filter(|s| !s.heavy).collect();
    for part in 0..16usize {
        let mine: Vec<&'static Sample> = samples.iter().enumerate().filter(|(i, _)| i % 16 == part).map(|(_, s)| *s).collect();
        v.push(job(format!("files of every format, part {}", part), move |ctx: &mut Ctx| { let s = Scratch::new(ctx); for (n, m) in mine.iter().enumerate() {
            let b = m.doc.bytes();
            let forms: Vec<(usize, Prior)> = if thorough() { (0..4).flat_map(|f| PRIORS.iter().map(move |&p| (f, p))).collect() } else { vec![(0, PRIORS[(n + part) % 6]), (1, PRIORS[(n + part + 2) % 6]), (3, PRIORS[(n + part + 4) % 6])] };
            for (f, p) in forms { convert(ctx, &s, "photo.raw", &b, f, p, if n % 4 == 0 { "3" } else { "1" }, &m.name); }
            // broken off: whatever the library says about it
            for k in 1..q(3, 8) { convert(ctx, &s, "photo.raw", &b[..b.len() * k / q(3, 8)], k % 2, PRIORS[(n + k) % 6], "1", &format!("the first part of {}", m.name)); }
        } }));
    }
    // argument forms x output states x kinds of input x names
    let long = "n".repeat(240);
    let names = ["a", "photo.raw", "photo.ppm", "two words.NEF", ".hidden", "-n", "naïve-文件.dng", "x.tar.gz", "%s%n", "a\\b", "photo.raw.ppm", "'quoted'\"", "line\nbreak", " leading", "trailing ", "tab\t", "new line\n", "UPPER.DNG", "~", "$HOME", "*.raw", "[a]", "a=b", "photo.", "..raw", "x:y", "photo.jpg", "photo.raw;", &long];
    for f in 0..5usize { for (pi, &p) in PRIORS.iter().enumerate() { let names: Vec<String> = names.iter().map(|x| x.to_string()).collect(); v.push(job(format!("names with argument form {} and output {:?}", f, p), move |ctx: &mut Ctx| { let s = Scratch::new(ctx); for (n, name) in names.iter().enumerate() {
        if !thorough() && f == 0 && pi > 2 && n > 6 { continue; }
        convert(ctx, &s, name, &bayer(5, 4), f, p, "1", "a small DNG");
    } })); } }
    for f in 0..4usize { v.push(job(format!("undecodable inputs with argument form {}", f), move |ctx: &mut Ctx| { let s = Scratch::new(ctx);
        let bad: Vec<(&str, Vec<u8>)> = vec![("an empty file", vec![]), ("text", b"hello, this is text".to_vec()), ("a cut DNG", bayer(5, 4)[..60].to_vec()), ("a JPEG", vec![0xff, 0xd8, 0xff, 0xe0, 0, 16, 74, 70, 73, 70, 0]), ("a Foveon file", { let mut x = b"FOVb".to_vec(); x.extend(vec![0; 200]); x }), ("a DNG that makes the decoder panic", harness::corpus::dng16(4, 3, &[9; 12], |i| { i.put(0x828e, harness::tiffb::V::A("RGGB".into())); })), ("a TIFF without a camera", harness::corpus::dng16(4, 3, &[9; 12], |i| { i.del(0xc612); }))];
        for (w, b) in &bad { for p in PRIORS.iter() { convert(ctx, &s, "photo.raw", b, f, *p, "1", w); } }
    })); }
    // sizes and content
    v.push(job("output names", |ctx: &mut Ctx| { let s = Scratch::new(ctx); let d = s.0.to_str().unwrap().to_string();
        let b = bayer(5, 4);
        for o in ["out", "out.jpg", "OUT.PPM", ".ppm", " out ", "-", "x.ppm.ppm", "out.dng", "in.dng.ppm", "in.ppm", "sub/out.ppm", "./out.ppm", "sub/../out.ppm", "%d.ppm", "--help", "out.ppm\n"].iter() { for p in [Prior::Absent, Prior::Long].iter() { for abs in [false, true].iter() {
            std::fs::create_dir_all(s.p("sub")).unwrap(); std::fs::write(s.p("in.dng"), &b).unwrap();
            let desc = format!("a 5x4 DNG written to {:?}, output {:?}, absolute {}", o, p, abs);
            ctx.begin(|| (desc.clone(), b.clone())); ctx.states += 1; ctx.transitions += 1;
            let input = s.p("in.dng");
            let want = match expected(&input) { Ok(x) => x, Err(e) => { ctx.fail("decode", "a small DNG", &b, &e); return; } };
            let out = s.p(o); prepare(&out, *p, want.len());
            let r = if *abs { run(&[&input, &out], "/", None, "1", false) } else { run(&["in.dng", o], &d, None, "1", false) };
            ctx.outcome(hash(&(r.code, o)));
            if r.code != Some(0) { ctx.fail("status", &desc, &b, &format!("exit status {:?}, expected 0", r.code)); }
            match std::fs::read(&out) { Ok(g) => if g != want { if let Err(m) = close(&g, &want, &input) { ctx.fail("output", &desc, &b, &m); } }, Err(_) => ctx.fail("missing", &desc, &b, "no output was written") }
            let mut l: Vec<String> = vec![]; for q in [d.clone(), s.p("sub")].iter() { for e in std::fs::read_dir(q).unwrap() { let e = e.unwrap(); if !e.path().is_dir() { l.push(e.path().to_str().unwrap().to_string()); } } }
            if l.len() != 2 { ctx.fail("extra", &desc, &b, &format!("there should be the input and the output, but there are {:?}", l)); }
            for x in l { let _ = std::fs::remove_file(x); }
        } } }
    }));
    v.push(job("sizes", |ctx: &mut Ctx| { let s = Scratch::new(ctx); for w in 1..=q(5u16, 12) { for h in 1..=q(5u16, 12) { convert(ctx, &s, "photo.raw", &bayer(w, h), (w % 2) as usize, PRIORS[(h % 6) as usize], "1", &format!("a {}x{} DNG", w, h)); } } }));
    v.push(job("larger sizes", |ctx: &mut Ctx| { let s = Scratch::new(ctx); for &(w, h) in &[(2730u16, 1u16), (2731, 1), (64, 43), (53, 52), (100, 100), (1, 3000), (300, 200), (1000, 30), (99, 1), (9, 10), (10, 100)] { for (i, p) in [Prior::Absent, Prior::Long].iter().enumerate() { convert(ctx, &s, "photo.raw", &bayer(w, h), i, *p, "4", &format!("a {}x{} DNG", w, h)); } } }));
    v.push(job("orientations", |ctx: &mut Ctx| { let s = Scratch::new(ctx); for o in 0..=9u16 { let b = harness::corpus::dng16(6, 4, &(0..24).map(|i| i * 600).collect::<Vec<u16>>(), |i| { i.put(0x112, harness::tiffb::V::S(vec![o])); }); convert(ctx, &s, "photo.raw", &b, 1, Prior::Short, "1", &format!("orientation {}", o)); } }));
    v.push(job("extreme samples", |ctx: &mut Ctx| { let s = Scratch::new(ctx); for k in 0..q(8usize, 40) { let d: Vec<u16> = (0..48).map(|i| match (i * 5 + k * 3 + i * i * k) % 7 { 0 => 0, 1 => 65535, 2 => 16000, 3 => 15999, 4 => 1, x => (x * 2000 + i * 17) as u16 }).collect(); convert(ctx, &s, "photo.raw", &harness::corpus::dng16(8, 6, &d, |_| {}), k % 4, Prior::Absent, "1", &format!("samples {}", k)); } }));
    // without arguments
    v.push(job("no arguments", |ctx: &mut Ctx| { let s = Scratch::new(ctx); let d = s.0.to_str().unwrap().to_string(); ctx.begin(|| ("no arguments".into(), vec![])); ctx.states += 1; ctx.transitions += 1;
        let r = run(&[], &d, None, "1", false);
        match r.code { Some(c) if c != 0 => {} c => ctx.fail("usage", "no arguments", &[], &format!("exit status {:?}, expected a failure", c)) }
        if r.code != Some(1) { ctx.fail("usage", "no arguments", &[], &format!("exit status {:?}, expected 1", r.code)); }
        if !String::from_utf8_lossy(&r.stdout).contains("<file>") { ctx.fail("usage", "no arguments", &[], "no usage text was printed"); }
        if !listing(&d).is_empty() { ctx.fail("usage", "no arguments", &[], "a file was written"); }
    }));
    // inputs and outputs that cannot be opened
    v.push(job("bad input paths", |ctx: &mut Ctx| { let s = Scratch::new(ctx); let d = s.0.to_str().unwrap().to_string();
        std::fs::create_dir(s.p("folder")).unwrap(); std::fs::write(s.p("file"), b"x").unwrap(); std::os::unix::fs::symlink(s.p("loop"), s.p("loop")).unwrap(); std::os::unix::fs::symlink(s.p("nowhere"), s.p("dangling")).unwrap(); std::fs::write(s.p("folder.ppm"), b"keep").unwrap();
        for i in ["missing", "folder", "folder/missing", "file/below", "loop", "dangling", "", "missing/deep/er"].iter() { for out in [None, Some("out.ppm"), Some("file"), Some("folder.ppm")].iter() { for abs in [true, false].iter() {
            let desc = format!("input {:?}, output {:?}, absolute {}", i, out, abs);
            ctx.begin(|| (desc.clone(), vec![])); ctx.states += 1; ctx.transitions += 1;
            let before = listing(&d);
            let (pi, po) = if *abs && !i.is_empty() { (s.p(i), out.map(|o| s.p(o))) } else { (i.to_string(), out.map(|o| o.to_string())) };
            let mut a: Vec<&str> = vec![&pi]; if let Some(ref o) = po { a.push(o); }
            let r = run(&a, &d, None, "1", false);
            ctx.outcome(hash(&(r.code, i)));
            if r.code != Some(2) { ctx.fail("status", &desc, &[], &format!("exit status {:?}, expected 2", r.code)); }
            if listing(&d) != before { ctx.fail("touched", &desc, &[], "files changed although the input cannot be read"); }
        } } }
    }));
    v.push(job("bad output paths", |ctx: &mut Ctx| { let s = Scratch::new(ctx); let d = s.0.to_str().unwrap().to_string();
        std::fs::create_dir(s.p("folder")).unwrap(); std::fs::write(s.p("file"), b"x").unwrap(); std::os::unix::fs::symlink(s.p("loop"), s.p("loop")).unwrap(); std::os::unix::fs::symlink(s.p("no/where"), s.p("dangling")).unwrap();
        for (k, &(w, h)) in [(5u16, 4u16), (1, 1), (60, 60), (200, 100)].iter().enumerate() { std::fs::write(s.p("in.dng"), bayer(w, h)).unwrap();
            std::fs::create_dir_all(s.p("in.dng.ppm")).unwrap();
            let long = "n".repeat(300);
            for o in ["folder", "missing/out.ppm", "file/out.ppm", "loop", "dangling", "/dev/full", "", &long, "\0default"].iter() {
                if o.starts_with('\0') && k > 1 { continue; }
                let desc = format!("a {}x{} DNG written to {:?}", w, h, o);
                ctx.begin(|| (desc.clone(), vec![])); ctx.states += 1; ctx.transitions += 1;
                let before = listing(&d);
                let r = if o.starts_with('\0') { run(&["in.dng"], &d, None, "1", false) } else { run(&["in.dng", o], &d, None, "1", false) };
                ctx.outcome(hash(&(r.code, o)));
                if r.code != Some(2) { ctx.fail("status", &desc, &[], &format!("exit status {:?}, expected 2", r.code)); }
                if listing(&d) != before { ctx.fail("touched", &desc, &[], "files changed although the output cannot be created"); }
            }
        }
    }));
    v.push(job("without permission", |ctx: &mut Ctx| { let s = Scratch::new(ctx); let d = s.0.to_str().unwrap().to_string();
        let set = |n: &str, m: u32| std::fs::set_permissions(s.p(n), std::fs::Permissions::from_mode(m)).unwrap();
        // the converter runs as an unprivileged user; skipped where that user cannot start it
        std::fs::copy(binary(), s.p("conv")).unwrap(); set("conv", 0o755);
        let reach = unsafe { let p = libc::fork(); if p == 0 { libc::setgid(65534); libc::setuid(65534); let c = std::ffi::CString::new(s.p("conv")).unwrap(); libc::_exit(if libc::access(c.as_ptr(), libc::X_OK) == 0 { 0 } else { 1 }) } let mut st = 0; libc::waitpid(p, &mut st, 0); libc::WEXITSTATUS(st) == 0 };
        if !reach { ctx.sample("the scratch directory is not reachable for an unprivileged user: skipped"); return; }
        std::fs::write(s.p("in.dng"), bayer(5, 4)).unwrap(); std::fs::write(s.p("secret.dng"), bayer(5, 4)).unwrap(); set("secret.dng", 0o600); std::fs::write(s.p("locked.ppm"), b"keep me").unwrap(); set("locked.ppm", 0o644);
        std::fs::create_dir(s.p("closed")).unwrap(); set("closed", 0o700);
        for (i, o) in [("secret.dng", "out.ppm"), ("in.dng", "locked.ppm"), ("in.dng", "closed/out.ppm"), ("closed/in.dng", "out.ppm")].iter() {
            let desc = format!("{} to {} without permission", i, o);
            ctx.begin(|| (desc.clone(), vec![])); ctx.states += 1; ctx.transitions += 1;
            let before = listing(&d);
            let mut c = Command::new(s.p("conv"));
            c.args(&[i, o]).current_dir(&d).stdin(Stdio::null()).stderr(Stdio::null()).stdout(Stdio::null()).uid(65534).gid(65534);
            let r = c.status().expect("start").code();
            if r != Some(2) { ctx.fail("status", &desc, &[], &format!("exit status {:?}, expected 2", r)); }
            if listing(&d) != before { ctx.fail("touched", &desc, &[], "files changed"); }
        }
    }));
    // a write failure at every position of the output
    for (w, h) in vec![(1u16, 1u16), (3, 2), (5, 4), (64, 43), (60, 60), (100, 60)] { for part in 0..4usize { v.push(job(format!("write failures in the output of a {}x{} image, part {}", w, h, part), move |ctx: &mut Ctx| { let s = Scratch::new(ctx);
        let b = bayer(w, h); std::fs::write(s.p("in.dng"), &b).unwrap();
        let want = match expected(&s.p("in.dng")) { Ok(x) => x, Err(e) => { ctx.begin(|| ("decode".into(), b.clone())); ctx.fail("decode", "a small DNG", &b, &e); return; } };
        let n = want.len() as u64;
        let points: Vec<u64> = if n < 200 { (0..=n + 1).collect() } else { let mut p: Vec<u64> = (0..n).step_by((n / q(12, 300)).max(1) as usize).collect(); for k in 1..=n / 4096 { for x in [k * 4096 - 1, k * 4096, k * 4096 + 1].iter() { p.push(*x); } } p.extend([1, 8, n - 2, n - 1, n, n + 1].iter()); p };
        for (k, &l) in points.iter().enumerate() { if k % 4 != part { continue; } for p in [Prior::Absent, Prior::Long].iter() { for form in 0..2 {
            if form == 1 && *p == Prior::Absent { continue; }
            let desc = format!("output of {} bytes of which only {} can be written, output {:?}, form {}", n, l, p, form);
            ctx.begin(|| (desc.clone(), b.clone())); ctx.states += 1; ctx.transitions += 1;
            let out = if form == 0 { s.p("in.dng.ppm") } else { s.p("o.ppm") };
            prepare(&out, *p, want.len());
            let input = s.p("in.dng");
            let r = if form == 0 { run(&[&input], "/", Some(l), "1", false) } else { run(&[&input, &out], "/", Some(l), "1", false) };
            ctx.outcome(hash(&(r.code, l.min(64))));
            if l < n { if r.code != Some(2) { ctx.fail("status", &desc, &b, &format!("exit status {:?}, expected 2", r.code)); } }
            else { if r.code != Some(0) { ctx.fail("status", &desc, &b, &format!("exit status {:?}, expected 0", r.code)); }
                match std::fs::read(&out) { Ok(g) => if g != want { if let Err(m) = close(&g, &want, &input) { ctx.fail("output", &desc, &b, &m); } }, Err(_) => ctx.fail("missing", &desc, &b, "no output") } }
        } } }
    })); } }
    // answers of the operating system: failures (for one call or for good), interruptions and partial transfers of the
    // read and write calls, every placement of up to two of them
    const KINDS: [&str; 9] = ["5", "28", "5+", "28+", "4", "11", "s1", "s0", "s1+"];
    for (si, (w, h)) in vec![(5u16, 4u16), (64, 43), (100, 60), (120, 100)].into_iter().enumerate() { for (ki, k1) in KINDS.iter().enumerate() { v.push(job(format!("answers {} while converting a {}x{} image", k1, w, h), move |ctx: &mut Ctx| {
        let s = Scratch::new(ctx); let b = bayer(w, h); let input = s.p("in.dng"); std::fs::write(&input, &b).unwrap();
        let want = match expected(&input) { Ok(x) => x, Err(e) => { ctx.begin(|| ("decode".into(), b.clone())); ctx.fail("decode", "a small DNG", &b, &e); return; } };
        let (nw, nr) = (want.len() / 8192 + 3, 4 + b.len() / 16384);
        let mut plans: Vec<String> = vec![];
        for (c, n) in [('w', nw), ('r', nr)].iter() { for i in 0..*n { plans.push(format!("{}{}:{}", c, i, k1)); } }
        let seconds: Vec<&str> = if thorough() { KINDS.to_vec() } else { vec!["5", "28+", "4", "s0"] };
        if (si == 1 || thorough()) && !k1.ends_with('+') { for i in 0..nw { for d in 1..=q(1, 2) { for k2 in seconds.iter() { plans.push(format!("w{}:{},w{}:{}", i, k1, i + d, k2)); } } } for i in 0..nr { for k2 in seconds.iter() { plans.push(format!("r{}:{},w0:{}", i, k1, k2)); plans.push(format!("r{}:{},r{}:{}", i, k1, i + 1, k2)); } } }
        let (log, lib) = (s.p("log"), std::env::var("VERIF_FAULT").expect("VERIF_FAULT names the library that answers calls"));
        for (n, plan) in plans.iter().enumerate() { for prior in if n % 3 == ki % 3 || thorough() { vec![Prior::Absent, Prior::Long] } else { vec![Prior::Long] } {
            let desc = format!("a {}x{} DNG, output {:?}, with the answers {} (w: write, r: read, number: the call; errno, or s: partial transfer, +: from then on)", w, h, prior, plan);
            ctx.begin(|| (desc.clone(), b.clone())); ctx.states += 1;
            let out = s.p("o.ppm"); prepare(&out, prior, want.len()); let _ = std::fs::remove_file(&log);
            let old = std::fs::read(&out).ok();
            let r = run_env(&[&input, &out], "/", None, "1", false, &[("LD_PRELOAD", &lib), ("FAULT_IN", &input), ("FAULT_OUT", &out), ("FAULTS", plan), ("FAULT_LOG", &log)]);
            let given = std::fs::read_to_string(&log).unwrap_or_default();
            ctx.transitions += 1 + given.lines().count() as u64;
            ctx.outcome(hash(&(r.code, &given)));
            let hard = |c: char| given.lines().any(|l| l.starts_with(c) && !l.contains(":s") && !l.ends_with(":4"));
            match r.code {
                Some(0) => match std::fs::read(&out) { Ok(g) => if g != want { if let Err(m) = close(&g, &want, &input) { ctx.fail("lost", &desc, &b, &format!("the converter reports success but {}", m)); } }, Err(_) => ctx.fail("lost", &desc, &b, "the converter reports success but there is no output") },
                Some(2) => {
                    if !hard('w') && !hard('r') { ctx.fail("status", &desc, &b, "exit status 2 although interruptions and partial transfers are no failures"); }
                    if !hard('w') && std::fs::read(&out).ok() != old { ctx.fail("touched", &desc, &b, "the output changed although the input could not be read"); }
                }
                c => ctx.fail("status", &desc, &b, &format!("exit status {:?}, expected 0 or 2", c)),
            }
            if r.code == Some(0) && hard('r') { ctx.fail("read", &desc, &b, "the converter reports success although reading its input failed"); }
        } }
    })); } }
    v
}

fn main() {
    run_main(Spec::new("C20", "the converter built from the working tree, run on files of every format and compression, whole and broken off, seven kinds of undecodable content, eight kinds of bad input paths, nine of bad output paths, missing permissions, with and without a second argument, absolute and relative, over names with unusual characters and six states of the output (absent, empty, shorter, longer, equal length, link); image sizes 1..5 squared (thorough 1..12), larger ones around buffer sizes, all orientations; every position of a write failure for small outputs and buffer boundaries for larger ones; failures, interruptions and partial transfers of the read and write calls, every placement of up to two",
        &["empty images and images smaller than their crops are not covered", "names that are not UTF-8 are not covered", "the developed image is the library's own (its values are decided by C10 to C13)"]), jobs)
}
