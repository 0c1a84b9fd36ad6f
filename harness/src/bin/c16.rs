//! C16: the result depends on the bytes a reader delivers, not on how; read errors and bad paths give errors.
use harness::{ex::Chooser, fmt::*, run::*, samples::*};
use rawloader::{decoders::RawLoader, RawImage};
use std::io::{self, ErrorKind, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::TimedOut, ErrorKind::InvalidData, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans { Full, N(usize), Half, AllButOne, Intr, Err(ErrorKind), End }
/// a reader that answers each call as the explorer chooses
struct Script<'a, 'b> { data: &'a [u8], pos: usize, chunk: usize, ch: &'b mut Chooser, log: Vec<Ans>, failed: bool, dead: bool, ended: bool, calls: usize, alphabet: &'a [Ans] }
impl<'a, 'b> Read for Script<'a, 'b> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.dead || self.ended { return if self.dead { Err(ErrorKind::Other.into()) } else { Ok(0) }; }
        if buf.is_empty() { return Ok(0); }
        let left = (self.data.len() - self.pos).min(buf.len()).min(self.chunk);
        let a = if self.failed || self.calls > 20_000 { Ans::Full } else { self.ch.dev_of(self.alphabet) };
        if a != Ans::Full && self.log.len() < 20 { self.log.push(a); }
        let n = match a {
            Ans::Full => left,
            Ans::N(n) => left.min(n),
            Ans::Half => (left + 1) / 2,
            Ans::AllButOne => if left > 1 { left - 1 } else { left },
            Ans::Intr => return Err(ErrorKind::Interrupted.into()),
            // afterwards the reader goes on as if nothing had happened, or fails for good
            Ans::Err(k) => { self.failed = true; self.dead = self.ch.flag(); return Err(k.into()); }
            Ans::End => 0,
        };
        if n == 0 { self.ended = true; }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// head, a gap of zeros, tail
struct Gap<'a> { head: &'a [u8], gap: u64, tail: &'a [u8], pos: u64, piece: usize }
impl<'a> Read for Gap<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let (h, g) = (self.head.len() as u64, self.gap);
        let m = buf.len().min(self.piece);
        let n = if self.pos < h { let n = m.min((h - self.pos) as usize); buf[..n].copy_from_slice(&self.head[self.pos as usize..self.pos as usize + n]); n }
            else if self.pos < h + g { let n = (m as u64).min(h + g - self.pos) as usize; for x in &mut buf[..n] { *x = 0; } n }
            else { let o = (self.pos - h - g) as usize; let n = m.min(self.tail.len() - o); buf[..n].copy_from_slice(&self.tail[o..o + n]); n };
        self.pos += n as u64; Ok(n)
    }
}
fn cfa(i: &RawImage) -> (String, Vec<usize>) { (i.cfa.name.clone(), if i.cfa.name.is_empty() { vec![] } else { (0..144).map(|k| i.cfa.color_at(k / 12, k % 12)).collect() }) }
fn meta(a: &RawImage) -> String { format!("{:?} {:?}", (&a.make, &a.model, &a.clean_make, &a.clean_model, a.width, a.height, a.cpp), (&a.wb_coeffs, &a.blacklevels, &a.whitelevels, &a.xyz_to_cam, cfa(a), &a.crops, a.orientation)) }
fn same(a: &RawImage, b: &RawImage) -> bool { a.data == b.data && meta(a) == meta(b) }
fn through(l: &RawLoader, r: &mut dyn Read) -> Result<RawImage, String> { match catch_unwind(AssertUnwindSafe(|| l.decode(r))) { Ok(x) => x, Err(_) => Err("panic".into()) } }

fn scripted(ctx: &mut Ctx, l: &RawLoader, s: &Sample, b: &[u8], chunk: usize, bound: u32, alphabet: &[Ans]) {
    ctx.explore(bound, |ch, ctx| {
        // peek: the choices are made while the reader runs, so the case is named by its prefix
        let id = std::cell::RefCell::new(String::new());
        ctx.begin(|| (format!("{} read in pieces of {} by {}", s.name, chunk, id.borrow()), b.to_vec()));
        let mut r = Script { data: b, pos: 0, chunk, ch, log: vec![], failed: false, dead: false, ended: false, calls: 0, alphabet };
        let got = through(l, &mut r);
        let (pos, failed, ended, log, calls) = (r.pos, r.failed, r.ended, r.log.clone(), r.calls);
        ctx.states += 1; ctx.transitions += calls as u64;
        let what = || format!("{} read in pieces of at most {} bytes with the answers {:?} ({} bytes delivered)", s.name, chunk, log, pos);
        ctx.outcome(hash(&(pos, failed, got.is_ok())));
        if failed {
            if got.is_ok() { ctx.fail("error-lost", &what(), b, "the reader failed but an image was returned"); }
        } else if pos == b.len() {
            match got { Err(e) => ctx.fail("split", &what(), b, &format!("all bytes were delivered but decoding failed: {}", e.replace('\n', " "))), Ok(i) => if let Err(m) = cmp_all(&i, &s.exp) { ctx.fail("split", &what(), b, &m); } }
        } else if ended {
            // an early end is a shorter file
            let want = ctx.decode(&b[..pos]);
            match (want, got) { (Ok(a), Ok(c)) => if !same(&a, &c) { ctx.fail("short", &what(), b, "differs from a file of the delivered bytes"); }, (Err(_), Err(_)) => {}, (a, c) => ctx.fail("short", &what(), b, &format!("a file of the delivered bytes gives {}, the reader gives {}", if a.is_ok() { "an image" } else { "an error" }, if c.is_ok() { "an image" } else { "an error" })) }
        } else {
            // the decoder stopped reading by itself before the end
            ctx.fail("stopped", &what(), b, &format!("the decoder stopped reading after {} of {} bytes", pos, b.len()));
        }
    });
}
fn must_err(ctx: &mut Ctx, path: &str, what: &str) {
    ctx.begin(|| (what.to_string(), vec![]));
    ctx.states += 1; ctx.transitions += 1;
    let r = catch_unwind(|| rawloader::decode(path).map(|i| (i.width, i.height)));
    match r { Err(_) => ctx.fail("panic", what, &[], "decoding by path panicked"), Ok(Ok(x)) => ctx.fail("image", what, &[], &format!("decoding gave an image {:?}", x)), Ok(Err(m)) => { ctx.outcome(hash(&m)); if m.is_empty() { ctx.fail("message", what, &[], "the error has no message"); } } }
}
fn must_ok(ctx: &mut Ctx, path: &str, s: &Sample, what: &str) {
    ctx.begin(|| (what.to_string(), s.doc.bytes()));
    ctx.states += 1; ctx.transitions += 1;
    match rawloader::decode(path) { Err(m) => ctx.fail("path", what, &s.doc.bytes(), &format!("decoding failed: {}", m.replace('\n', " "))), Ok(i) => if let Err(m) = cmp_all(&i, &s.exp) { ctx.fail("path", what, &s.doc.bytes(), &m); } }
}
struct Scratch(String);
impl Scratch { fn new() -> Scratch { let d = format!("{}/c16-{}-{:?}", std::env::temp_dir().display(), std::process::id(), std::time::Instant::now()).replace(|c: char| !(c.is_alphanumeric() || c == '/' || c == '-'), ""); std::fs::create_dir_all(&d).unwrap(); Scratch(d) } fn p(&self, n: &str) -> String { format!("{}/{}", self.0, n) } }
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn c(s: &str) -> std::ffi::CString { std::ffi::CString::new(s).unwrap() }

fn jobs() -> Vec<Job> {
    let mut v: Vec<Job> = Vec::new();
    let all = all_samples();
    for (k, name) in all.iter().enumerate().filter(|(_, s)| !s.heavy).map(|(k, s)| (k, s.name.clone())) {
        v.push(job(format!("reads of {}", name), move |ctx: &mut Ctx| {
            let s = &all_samples()[k]; let b = s.doc.bytes(); let l = RawLoader::new();
            let mut al = vec![Ans::Full, Ans::N(1), Ans::Half, Ans::AllButOne, Ans::Intr, Ans::End, Ans::Err(ErrorKind::Other), Ans::Err(ErrorKind::WouldBlock), Ans::Err(ErrorKind::UnexpectedEof)];
            scripted(ctx, &l, s, &b, usize::MAX, q(3, 4), &al);
            if b.len() < 3000 { scripted(ctx, &l, s, &b, 61, q(1, 2), &al); scripted(ctx, &l, s, &b, 32, 1, &al); }
            if b.len() < 500 { scripted(ctx, &l, s, &b, 1, q(1, 1), &al); scripted(ctx, &l, s, &b, 3, 1, &al); }
            for &k in KINDS { al.push(Ans::Err(k)); }
            al.push(Ans::N(2)); al.push(Ans::N(31)); al.push(Ans::N(32)); al.push(Ans::N(33));
            scripted(ctx, &l, s, &b, usize::MAX, 2, &al);
            scripted(ctx, &l, s, &b, (b.len() / 4).max(1), 2, &al);
            ctx.sample(format!("{}: every placement of short reads, interruptions, errors and early ends", s.name));
        }));
    }
    // deeper for one file of each family of containers
    for pre in ["ARI", "MRW", "DNG 0", "RAF", "ARW rggb=true", "ORF", "RW2 white", "CRW Canon EOS 10D none", "IIQ", "PEF"] {
        if let Some(k) = all.iter().position(|s| s.name.starts_with(pre)) { v.push(job(format!("deep reads of {}", all[k].name), move |ctx: &mut Ctx| {
            let s = &all_samples()[k]; let b = s.doc.bytes(); let l = RawLoader::new();
            let al = [Ans::Full, Ans::N(1), Ans::Half, Ans::Intr, Ans::End, Ans::Err(ErrorKind::Other)];
            for n in [2usize, 3, 5, 8] { scripted(ctx, &l, s, &b, (b.len() + n - 1) / n, q(3, 5), &al); }
            scripted(ctx, &l, s, &b, usize::MAX, q(4, 6), &al);
            if b.len() < 1300 { scripted(ctx, &l, s, &b, 32, 2, &al); }
        })); }
    }
    // large files in large and odd pieces
    for (k, name) in all.iter().enumerate().filter(|(_, s)| s.heavy).map(|(k, s)| (k, s.name.clone())) { v.push(job(format!("reads of {}", name), move |ctx: &mut Ctx| {
        let s = &all_samples()[k]; let b = s.doc.bytes(); let l = RawLoader::new();
        let al = [Ans::Full, Ans::N(1), Ans::Half, Ans::Intr, Ans::Err(ErrorKind::Other), Ans::End];
        for chunk in [usize::MAX, b.len() / 2 + 1, 262_144, 65_536] { scripted(ctx, &l, s, &b, chunk, 1, &al[..if chunk > 70_000 { 6 } else { 4 }]); }
    })); }
    v.push(job("bad and odd paths", |ctx: &mut Ctx| {
        let d = Scratch::new();
        let all = all_samples();
        let s = all.iter().find(|s| s.name.starts_with("DNG 0")).unwrap();
        let b = s.doc.bytes();
        std::fs::write(d.p("good.dng"), &b).unwrap();
        for n in ["plain", "with space", "ünïcode ☃", "dots..", "-dash", "new\nline", "a%s%n", "quote'\"", ".hidden", "good.dng.ppm"] { let p = d.p(n); std::fs::write(&p, &b).unwrap(); must_ok(ctx, &p, s, &format!("file named {:?}", n)); }
        std::os::unix::fs::symlink(d.p("good.dng"), d.p("link")).unwrap();
        must_ok(ctx, &d.p("link"), s, "symbolic link");
        must_ok(ctx, &d.p("./././good.dng"), s, "path with dots");
        must_ok(ctx, &format!("{}//good.dng", d.0), s, "path with doubled slash");
        std::fs::create_dir(d.p("dir")).unwrap();
        std::os::unix::fs::symlink(d.p("loop2"), d.p("loop1")).unwrap(); std::os::unix::fs::symlink(d.p("loop1"), d.p("loop2")).unwrap();
        std::os::unix::fs::symlink(d.p("nowhere"), d.p("dangling")).unwrap();
        let _sock = std::os::unix::net::UnixListener::bind(d.p("sock")).unwrap();
        std::fs::write(d.p("empty"), b"").unwrap();
        let long = "x".repeat(5000); let comp = "y".repeat(300);
        for (p, w) in [(String::new(), "empty path"), (d.p("missing"), "missing file"), (d.p("nodir/good.dng"), "missing directory"), (d.0.clone(), "directory"), (d.p("dir"), "empty directory"), (d.p("good.dng/"), "file with trailing slash"), (d.p("good.dng/x"), "file used as a directory"), (d.p("loop1"), "symbolic link loop"), (d.p("dangling"), "dangling link"), (d.p("sock"), "socket"), (d.p("empty"), "empty file"), (d.p(&long), "path too long"), (d.p(&comp), "name too long"), (format!("{}\0", d.p("good.dng")), "path with a NUL"), ("\0".into(), "a NUL"), ("/dev/null".into(), "null device"), ("/proc/self/mem".into(), "file whose reads fail"), ("/".into(), "root directory"), (".".into(), "current directory"), (d.p("GOOD.DNG"), "other case"), (d.p("good"), "name without extension")] {
            for _ in 0..2 { must_err(ctx, &p, w); }
        }
        // unreadable: as an unprivileged user in a child process
        for mode in [0u32, 0o200, 0o100] {
            use std::os::unix::fs::PermissionsExt;
            let p = d.p(&format!("mode{:o}", mode)); std::fs::write(&p, &b).unwrap();
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).unwrap();
            std::fs::set_permissions(&d.0, std::fs::Permissions::from_mode(0o755)).unwrap();
            ctx.begin(|| ("unreadable file".into(), vec![]));
            let st = unsafe { let pid = libc::fork(); if pid == 0 { if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 { libc::_exit(9); } let r = catch_unwind(|| rawloader::decode(&p).is_ok()); libc::_exit(match r { Ok(false) => 0, Ok(true) => 1, Err(_) => 2 }); } let mut st = 0; libc::waitpid(pid, &mut st, 0); st };
            let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 99 };
            if code != 0 && code != 9 { ctx.fail("unreadable", &format!("file of mode {:o} read by another user", mode), &b, &format!("decoding gave {}", match code { 1 => "an image", 2 => "a panic", _ => "a crash" })); }
        }
        for _ in 0..3 { must_ok(ctx, &d.p("good.dng"), s, "good file after all the bad ones"); }
        ctx.sample("missing, directory, loops, sockets, NUL, too long, failing reads, unreadable");
    }));
    // pipes deliver in pieces as a slow source would
    v.push(job("pipes", |ctx: &mut Ctx| {
        let all = all_samples();
        for pre in ["ARI", "MRW DYNAX", "DNG 0", "RAF", "ARW2", "CR2 Canon EOS 450D white balance kind 0", "CRW Canon EOS 10D none", "RW2 packed blocks split=true"] {
            let s = match all.iter().find(|s| s.name.starts_with(pre)) { Some(s) => s, None => continue };
            let b = s.doc.bytes();
            for cuts in 1..=q(12usize, 40) { for pause in [0u64, 1] {
                let mut p = [0i32; 2];
                unsafe { assert!(libc::pipe(p.as_mut_ptr()) == 0); }
                let b2 = b.clone(); let n = (b.len() + cuts - 1) / cuts;
                let t = std::thread::spawn(move || { use std::os::unix::io::FromRawFd; let mut f = unsafe { std::fs::File::from_raw_fd(p[1]) }; for x in b2.chunks(n) { if f.write_all(x).is_err() { break; } if pause > 0 { std::thread::sleep(std::time::Duration::from_millis(pause)); } } });
                let path = format!("/proc/self/fd/{}", p[0]);
                must_ok(ctx, &path, s, &format!("{} through a pipe in {} pieces", s.name, cuts));
                unsafe { libc::close(p[0]); }
                let _ = t.join();
            } }
        }
    }));
    // large inputs: the image lies behind a long gap
    v.push(job("data far into the input", |ctx: &mut Ctx| {
        let px: Vec<u16> = (0..24u16).map(|i| 300 + i * 577).collect();
        let mut far: Vec<u64> = vec![1 << 20, (1 << 24) - 5, (1 << 24) + 1, 1 << 25, 50_000_000, 64 << 20, 100_000_001, (128 << 20) + 2, (256 << 20) + 7];
        if thorough() { far.extend([(512 << 20) + 1, (1u64 << 30) + 3, (1 << 31) - 100, (1 << 31) + 5]); }
        let d = Scratch::new(); let l = RawLoader::new();
        for &f in &far { for form in 0..3 {
            let head = harness::corpus::dng16(6, 4, &px, |i| { i.put(0x111, harness::tiffb::V::L(vec![f as u32])); });
            let tail: Vec<u8> = px.iter().flat_map(|v| v.to_le_bytes()).collect();
            let what = format!("a DNG whose image starts at byte {} {}", f, ["from a reader", "from a reader in pieces of 100003 bytes", "by path"][form]);
            ctx.begin(|| (what.clone(), head.clone())); ctx.states += 1; ctx.transitions += 1;
            let got = if form < 2 {
                let mut r = Gap { head: &head, gap: f - head.len() as u64, tail: &tail, pos: 0, piece: if form == 0 { usize::MAX } else { 100_003 } };
                through(&l, &mut r)
            } else {
                use std::os::unix::fs::FileExt;
                let p = d.p("far.dng"); let file = std::fs::File::create(&p).unwrap(); file.write_all_at(&head, 0).unwrap(); file.write_all_at(&tail, f).unwrap();
                let r = match catch_unwind(|| rawloader::decode(&p)) { Ok(x) => x, Err(_) => Err("panic".into()) };
                let _ = std::fs::remove_file(&p); r
            };
            match got { Err(e) => ctx.fail("far", &what, &head, &format!("decoding failed: {}", e.replace('\n', " "))), Ok(i) => if i.data != px || i.width != 6 || i.height != 4 { ctx.fail("far", &what, &head, "the decoded samples are not those at that place"); } }
        } }
    }));
    // an error reported by the kernel in the middle of a file
    v.push(job("whole-file answers of the kernel", |ctx: &mut Ctx| {
        let all = all_samples();
        for s in all.iter().filter(|s| !s.heavy) { let b = s.doc.bytes(); let p = ctx.put_file(&b); must_ok(ctx, &p, s, &format!("{} by path", s.name)); let f = std::fs::File::open(&p).unwrap(); let l = RawLoader::new();
            ctx.begin(|| ("file reader".into(), b.clone()));
            let mut f = io::BufReader::with_capacity(7, f);
            match through(&l, &mut f) { Err(e) => ctx.fail("reader", &s.name, &b, &format!("decoding from a buffered reader failed: {}", e)), Ok(i) => if let Err(m) = cmp_all(&i, &s.exp) { ctx.fail("reader", &s.name, &b, &m); } }
            let mut cur = io::Cursor::new(b.clone());
            match through(&l, &mut cur) { Err(e) => ctx.fail("reader", &s.name, &b, &format!("decoding from memory failed: {}", e)), Ok(i) => if let Err(m) = cmp_all(&i, &s.exp) { ctx.fail("reader", &s.name, &b, &m); } }
            // from the middle of a larger stream
            let mut x = vec![0x49u8; 33]; x.extend(&b); let mut cur = io::Cursor::new(x); cur.set_position(33);
            match through(&l, &mut cur) { Err(e) => ctx.fail("reader", &s.name, &b, &format!("decoding from the current position failed: {}", e)), Ok(i) => if let Err(m) = cmp_all(&i, &s.exp) { ctx.fail("reader", &s.name, &b, &m); } }
            let h = b.len() / 2; let mut two = (&b[..h]).chain(&b[h..]);
            match through(&l, &mut two) { Err(e) => ctx.fail("reader", &s.name, &b, &format!("decoding from two chained readers failed: {}", e)), Ok(i) => if let Err(m) = cmp_all(&i, &s.exp) { ctx.fail("reader", &s.name, &b, &m); } }
        }
    }));
    v
}
fn main() {
    run_main(Spec::new("C16", "every sequence of read answers (full, 1 byte, half, all but one, interrupted, early end, errors of 8 kinds) with up to 3 (4) deviations, from whole-file and from small default pieces, for one file of every format; up to 4 (6) deviations for one file per container family; bad and odd paths; pipes in up to 12 (40) pieces; images up to 256 MB (2 GB) into the input", &["readers obey the Read contract (they never claim more bytes than the buffer holds)"]), jobs);
}
