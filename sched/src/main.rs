//! C14: schedules. The library's parallel work runs on a replacement of the thread pool in which every placement, order
//! and overlap of tasks, and every interleaving at atomic operations and locks, is decided by an explorer; all schedules
//! within a deviation bound are executed and each result is compared with the sequential one and with the model.
use harness::{dev::*, fmt::*, run::*, samples::*};
use rawloader::decoders::Orientation;
use rawloader::RawImage;
use rayon_core::explorer::{self, End};
use std::panic::catch_unwind;
use std::sync::Mutex;

fn cfa(a: &RawImage) -> (String, usize, usize, Vec<usize>) { let c = &a.cfa; (c.name.clone(), c.width, c.height, if c.width > 0 && c.height > 0 { (0..c.width * c.height).map(|i| c.color_at(i / c.width, i % c.width)).collect() } else { vec![] }) }
fn meta(a: &RawImage) -> String { format!("{:?} {:?}", (&a.make, &a.model, &a.clean_make, &a.clean_model, a.width, a.height, a.cpp), (&a.wb_coeffs, &a.blacklevels, &a.whitelevels, &a.xyz_to_cam, cfa(a), &a.crops, a.orientation)) }
fn bits(d: &[f32]) -> Vec<u32> { d.iter().map(|x| if x.is_nan() { 0x7fc00000 } else { x.to_bits() }).collect() }

enum Kind { Decode(String), Dev(RawImage, u8, usize, usize), Both(String, u8) }
struct Op { name: String, kind: Kind, exp: Option<Exp>, bytes: Vec<u8> }
#[derive(Clone, PartialEq)]
enum Res { Img(Box<(String, Vec<u16>)>), Eight(usize, usize, Vec<u8>), Float(usize, usize, Vec<u32>), Err(String) }
impl Res { fn show(&self) -> String { match self { Res::Img(b) => format!("an image {}", b.0.chars().take(200).collect::<String>()), Res::Eight(w, h, _) | Res::Float(w, h, _) => format!("a {}x{} development", w, h), Res::Err(m) => format!("the error {:?}", m) } } }
fn develop(i: &RawImage, k: u8, mw: usize, mh: usize) -> Res { match k {
    0 => match srgb(i, mw, mh) { Ok((w, h, d)) => Res::Eight(w, h, d), Err(e) => Res::Err(e) },
    1 => match rgb(i, mw, mh) { Ok((w, h, d)) => Res::Float(w, h, bits(&d)), Err(e) => Res::Err(e) },
    _ => match linear(i, mw, mh) { Ok((w, h, d)) => Res::Float(w, h, bits(&d)), Err(e) => Res::Err(e) },
} }
fn perform(o: &Op) -> Res { match &o.kind {
    Kind::Decode(p) => match catch_unwind(|| rawloader::decode(p)) { Ok(Ok(i)) => Res::Img(Box::new((meta(&i), i.data))), Ok(Err(m)) => Res::Err(m), Err(_) => Res::Err("panic".into()) },
    Kind::Dev(i, k, mw, mh) => develop(i, *k, *mw, *mh),
    Kind::Both(p, k) => match catch_unwind(|| rawloader::decode(p)) { Ok(Ok(i)) => develop(&i, *k, 0, 0), Ok(Err(m)) => Res::Err(m), Err(_) => Res::Err("panic".into()) },
} }
fn diff(a: &Res, b: &Res) -> String { match (a, b) {
    (Res::Img(x), Res::Img(y)) if x.0 == y.0 && x.1.len() == y.1.len() => { let k = (0..x.1.len()).find(|&k| x.1[k] != y.1[k]).unwrap_or(0); format!("sample {} is {}, in sequence {}", k, x.1[k], y.1[k]) }
    (Res::Eight(w, h, x), Res::Eight(w2, h2, y)) if (w, h) == (w2, h2) => { let k = (0..x.len().min(y.len())).find(|&k| x[k] != y[k]).unwrap_or(0); format!("value {} is {:?}, in sequence {:?}", k, x.get(k), y.get(k)) }
    (Res::Float(w, h, x), Res::Float(w2, h2, y)) if (w, h) == (w2, h2) => { let k = (0..x.len().min(y.len())).find(|&k| x[k] != y[k]).unwrap_or(0); format!("value {} is {:?}, in sequence {:?}", k, x.get(k).map(|b| f32::from_bits(*b)), y.get(k).map(|b| f32::from_bits(*b))) }
    _ => format!("gives {}, in sequence {}", a.show(), b.show()),
} }

/// A library with many more scheduling points than now is explored as far as the time allows (and the evidence says so).
fn late() -> bool { START.get().map_or(false, |t| t.elapsed().as_secs() > if thorough() { 6 * 3600 } else { 540 }) }
static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();

/// all schedules of these operations called concurrently
fn schedules(ctx: &mut Ctx, ops: &[&Op], workers: usize, bound: u32, cap: u64) { schedules_from(ctx, ops, workers, bound, cap, 0) }
const ORDERS: [&str; 3] = ["running in order", "running in order with callers first", "beginning every task at once"];
fn schedules_from(ctx: &mut Ctx, ops: &[&Op], workers: usize, bound: u32, cap: u64, order: u8) {
    let want: Vec<Res> = ops.iter().map(|o| perform(o)).collect();
    for (o, w) in ops.iter().zip(&want) { if let (Some(e), Kind::Decode(p)) = (&o.exp, &o.kind) {
        ctx.begin(|| (format!("{} in sequence", o.name), o.bytes.clone()));
        match rawloader::decode(p) { Ok(i) => if let Err(m) = cmp_all(&i, e) { ctx.fail("sequence", &o.name, &o.bytes, &m); }, Err(m) => ctx.fail("sequence", &o.name, &o.bytes, &m) }
        let _ = w;
    } }
    let names = ops.iter().map(|o| o.name.clone()).collect::<Vec<_>>().join(" and ");
    explorer::reset(bound); explorer::order(order);
    let c0 = explorer::counts();
    let mut n = 0u64;
    loop {
        ctx.begin(|| (format!("{} on {} threads, schedule {}", names, workers, n), ops[0].bytes.clone()));
        n += 1;
        let got: Vec<Mutex<Option<Res>>> = ops.iter().map(|_| Mutex::new(None)).collect();
        let fs: Vec<Box<dyn Fn() + Sync>> = (0..ops.len()).map(|i| { let (o, g) = (ops[i], &got[i]); Box::new(move || { let r = perform(o); *g.lock().unwrap() = Some(r); }) as Box<dyn Fn() + Sync> }).collect();
        let rs: Vec<&(dyn Fn() + Sync)> = fs.iter().map(|b| &**b).collect();
        let end = explorer::run(workers, &rs);
        let desc = || format!("{} on {} threads, decisions that differ from {}: [{}]", names, workers, ORDERS[order as usize], explorer::describe());
        match end {
            End::Deadlock => { let d = desc(); std::mem::forget(fs); ctx.fail("deadlock", &d, &ops[0].bytes, "no thread can go on: deadlock"); return; }
            End::Endless => { let d = desc(); std::mem::forget(fs); ctx.fail("endless", &d, &ops[0].bytes, "the schedule does not end"); return; }
            End::Completed => for (i, g) in got.iter().enumerate() {
                match &*g.lock().unwrap() {
                    None => ctx.fail("lost", &desc(), &ops[i].bytes, "the call ended without a result"),
                    Some(r) => if *r != want[i] { ctx.fail("differs", &desc(), &ops[i].bytes, &format!("{}: {}", ops[i].name, diff(r, &want[i]))) },
                }
            },
        }
        if n >= cap || late() { if explorer::next() { ctx.capped = true; } break; }
        if !explorer::next() { break; }
    }
    let c1 = explorer::counts();
    ctx.states += c1.0 - c0.0; ctx.transitions += c1.1 - c0.1;
    if std::env::var("VERIF_DEBUG").is_ok() { eprintln!("SCHED {} x{} bound {} order {}: {} schedules{}", names, workers, bound, order, n, if n >= cap { " CAPPED" } else { "" }); }
    ctx.outcome(hash(&(n, names.len())));
    ctx.sample(format!("{} on {} threads, up to {} deviations from {}: {} schedules", names, workers, bound, ORDERS[order as usize], n));
}
#[repr(C)]
struct Shared { done: u64, end: u64, len: u64, more: u64, points: u64, switches: u64, hash: [u64; 4], n: [u8; 1 << 20], p: [u8; 1 << 20], d: [u8; 1 << 20], text: [u8; 4096], tlen: u64 }
/// hash of a result, for comparison across processes
fn digest(r: &Res) -> u64 { match r { Res::Img(b) => hash(&(1, &b.0, &b.1)), Res::Eight(w, h, d) => hash(&(2, w, h, d)), Res::Float(w, h, d) => hash(&(3, w, h, d)), Res::Err(m) => hash(&(4, m)) } }
/// Like `schedules`, every schedule in a process that has never used the library: its first use is concurrent.
fn first_use(ctx: &mut Ctx, ops: &[&Op], workers: usize, bound: u32, cap: u64) { first_use_from(ctx, ops, workers, bound, cap, 0) }
fn first_use_from(ctx: &mut Ctx, ops: &[&Op], workers: usize, bound: u32, cap: u64, order: u8) {
    let sh = unsafe { let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0); assert!(p != libc::MAP_FAILED); &mut *(p as *mut Shared) };
    let names = ops.iter().map(|o| o.name.clone()).collect::<Vec<_>>().join(" and ");
    let forked = |f: &mut dyn FnMut()| -> i32 { unsafe {
        let pid = libc::fork(); assert!(pid >= 0);
        if pid == 0 { f(); libc::_exit(0); }
        let mut st = 0; libc::waitpid(pid, &mut st, 0); st
    } };
    let mut want = vec![];
    for o in ops { sh.done = 0; let s = sh as *mut Shared; let st = forked(&mut || unsafe { (*s).hash[0] = digest(&perform(o)); (*s).done = 1; }); if st != 0 || sh.done != 1 { ctx.begin(|| (format!("{} alone", o.name), o.bytes.clone())); ctx.fail("alone", &o.name, &o.bytes, "the process ended without a result"); return; } want.push(sh.hash[0]); }
    explorer::reset(bound); explorer::order(order);
    sh.len = 0;
    let mut n = 0u64;
    loop {
        ctx.begin(|| (format!("first use: {} on {} threads, schedule {}", names, workers, n), ops[0].bytes.clone()));
        n += 1; sh.done = 0;
        let s = sh as *mut Shared;
        let st = forked(&mut || unsafe {
            let s = &mut *s;
            explorer::load(s.n.as_ptr(), s.p.as_ptr(), s.d.as_ptr(), s.len as usize);
            let got: Vec<Mutex<Option<u64>>> = ops.iter().map(|_| Mutex::new(None)).collect();
            let fs: Vec<Box<dyn Fn() + Sync>> = (0..ops.len()).map(|i| { let (o, g) = (ops[i], &got[i]); Box::new(move || { let r = digest(&perform(o)); *g.lock().unwrap() = Some(r); }) as Box<dyn Fn() + Sync> }).collect();
            let rs: Vec<&(dyn Fn() + Sync)> = fs.iter().map(|b| &**b).collect();
            let c0 = explorer::counts();
            let end = explorer::run(workers, &rs);
            let c1 = explorer::counts();
            s.points = c1.0 - c0.0; s.switches = c1.1 - c0.1;
            s.end = match end { End::Completed => 1, End::Deadlock => 2, End::Endless => 3 };
            if end == End::Completed { for (i, g) in got.iter().enumerate() { s.hash[i] = g.lock().unwrap().unwrap_or(0); } }
            let t = explorer::describe(); let b = t.as_bytes(); let k = b.len().min(4096); s.text[..k].copy_from_slice(&b[..k]); s.tlen = k as u64;
            s.more = explorer::next() as u64;
            s.len = explorer::tree(s.n.as_mut_ptr(), s.p.as_mut_ptr(), s.d.as_mut_ptr(), 1 << 20) as u64;
            s.done = 1;
        });
        let desc = format!("first use of the library: {} on {} threads, decisions that differ from {}: [{}]", names, workers, ORDERS[order as usize], String::from_utf8_lossy(&sh.text[..sh.tlen as usize]).trim());
        if st != 0 || sh.done != 1 { ctx.fail("died", &desc, &ops[0].bytes, "the process died"); break; }
        ctx.states += sh.points; ctx.transitions += sh.switches;
        match sh.end { 2 => { ctx.fail("deadlock", &desc, &ops[0].bytes, "no thread can go on: deadlock"); break; } 3 => { ctx.fail("endless", &desc, &ops[0].bytes, "the schedule does not end"); break; }
            _ => for i in 0..ops.len() { if sh.hash[i] != want[i] { ctx.fail("first use", &desc, &ops[i].bytes, &format!("{} gives another result than alone", ops[i].name)); } } }
        if sh.more == 0 { break; }
        if n >= cap || late() { ctx.capped = true; break; }
    }
    unsafe { libc::munmap(sh as *mut Shared as *mut _, std::mem::size_of::<Shared>()); }
    if std::env::var("VERIF_DEBUG").is_ok() { eprintln!("FIRST {} x{} bound {} order {}: {} schedules{}", names, workers, bound, order, n, if n >= cap { " CAPPED" } else { "" }); }
    ctx.outcome(hash(&(n, names.len(), 7)));
    ctx.sample(format!("first use: {} on {} threads, up to {} deviations from {}: {} schedules", names, workers, bound, ORDERS[order as usize], n));
}
const CAP: u64 = 3_000_000;
fn file(b: &[u8]) -> String { unsafe {
    let fd = libc::memfd_create(b"case\0".as_ptr() as *const _, 0); assert!(fd >= 0);
    let mut off = 0; while off < b.len() { let n = libc::pwrite(fd, b[off..].as_ptr() as *const _, b.len() - off, off as i64); assert!(n > 0); off += n as usize; }
    format!("/proc/self/fd/{}", fd)
} }
fn decode_op(name: &str, b: Vec<u8>, exp: Option<Exp>) -> Op { Op { name: format!("decode {}", name), kind: Kind::Decode(file(&b)), exp, bytes: b } }
fn raw(w: usize, h: usize, cpp: usize, p: &str, seed: usize) -> RawImage { image(w, h, cpp, p, (0..w * h * cpp).map(|i| 300 + ((i * 7919 + seed * 131) % 15000) as u16).collect()) }
fn images() -> Vec<(&'static str, RawImage)> {
    let mut v = vec![];
    v.push(("Bayer 6x5", raw(6, 5, 1, "RGGB", 1)));
    { let mut i = raw(7, 6, 1, "GBRG", 2); i.orientation = Orientation::Rotate90; i.crops = [0, 1, 1, 0]; v.push(("turned cropped Bayer 7x6", i)); }
    { let mut i = raw(5, 4, 3, "", 3); i.orientation = Orientation::HorizontalFlip; v.push(("mirrored RGB 5x4", i)); }
    v.push(("X-Trans 6x7", raw(6, 7, 1, "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG", 4)));
    { let mut i = raw(4, 6, 1, "", 5); i.orientation = Orientation::Transpose; v.push(("transposed mono 4x6", i)); }
    { let mut i = raw(6, 4, 1, "ERBG", 6); i.orientation = Orientation::Rotate180; i.blacklevels = [10, 20, 30, 40]; v.push(("four-colour 6x4", i)); }
    v
}
fn named(n: &str) -> &'static Sample { all_samples().iter().find(|s| s.name == n).unwrap_or_else(|| panic!("no sample {}", n)) }

fn jobs() -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    // concurrent first use (these come first: they need a process that has not used the library)
    for n in 0..images().len() { for out in 0..3u8 { v.push(job(format!("first use: developing {} to output {}", images()[n].0, out), move |ctx: &mut Ctx| {
        let i = images().swap_remove(n).1; let j = images().swap_remove((n + 1) % images().len()).1;
        let x = Op { name: format!("develop {} to output {}", images()[n].0, out), kind: Kind::Dev(i, out, 0, 0), exp: None, bytes: vec![] };
        let y = Op { name: format!("develop {} to output 2", images()[(n + 1) % images().len()].0), kind: Kind::Dev(j, 2, 0, 0), exp: None, bytes: vec![] };
        first_use(ctx, &[&x], 2, q(1, 2), CAP);
        first_use(ctx, &[&x, &y], 1, q(1, 2), CAP);
        first_use(ctx, &[&x, &y], 2, 1, CAP);
        first_use_from(ctx, &[&x, &y], 2, q(0, 1), CAP, 2);
        first_use_from(ctx, &[&x, &y], 3, q(0, 1), CAP, 2);
    })); } }
    for (a, b) in [("DNG 0 black levels", "DNG 0 black levels"), ("NEF compressed", "PEF compressed"), ("CR2 linearized", "CRW Canon EOS 10D none"), ("DNG lossless JPEG strip", "ORF compressed")].iter() { let (a, b) = (*a, *b); v.push(job(format!("first use: {} and {}", a, b), move |ctx: &mut Ctx| {
        let (a, b) = (named(a), named(b));
        let (x, y) = (decode_op(&a.name, a.doc.bytes(), None), decode_op(&b.name, b.doc.bytes(), None));
        first_use(ctx, &[&x, &y], 1, q(2, 3), CAP);
        for w in [2usize, 3].iter() { first_use_from(ctx, &[&x, &y], *w, q(0, 1), CAP, 2); }
        if thorough() { first_use(ctx, &[&x, &y], 2, 1, CAP); first_use(ctx, &[&x, &y, &x], 1, 1, CAP); }
    })); }
    // images of one and two rows: the only tasks are those that a lazily made value might spawn
    for (rows, out) in [(1usize, 0u8), (1, 1), (1, 2), (2, 2)].iter() { let (rows, out) = (*rows, *out); v.push(job(format!("first use: developing images of {} rows to output {}", rows, out), move |ctx: &mut Ctx| {
        let x = Op { name: format!("develop a Bayer image of {} rows to output {}", rows, out), kind: Kind::Dev(raw(6, rows, 1, "RGGB", 1), out, 0, 0), exp: None, bytes: vec![] };
        let y = Op { name: format!("develop an RGB image of {} rows to output {}", rows, out), kind: Kind::Dev(raw(4, rows, 3, "", 2), out, 0, 0), exp: None, bytes: vec![] };
        first_use(ctx, &[&x, &y], 2, if rows == 1 { q(2, 3) } else { q(1, 2) }, CAP);
        first_use(ctx, &[&x, &y], 3, q(1, 2), CAP);
        for o in 1..3u8 { for w in [1usize, 2, 3].iter() { first_use_from(ctx, &[&x, &y], *w, if rows == 1 { q(1, 2) } else { q(1, 2) }, CAP, o); } }
    })); }
    { let mut b = vec![]; for (w, seed) in [(6u16, 1u16), (4, 2)].iter() { b.push(harness::corpus::dng16(*w, 1, &(0..*w).map(|i| i * 311 + seed).collect::<Vec<_>>(), |_| {})); }
      v.push(job("first use: decoding images of one row", move |ctx: &mut Ctx| {
        let (x, y) = (decode_op("a DNG of 6x1", b[0].clone(), None), decode_op("a DNG of 4x1", b[1].clone(), None));
        first_use(ctx, &[&x, &y], 2, q(2, 3), CAP);
        for o in 1..3u8 { for w in [1usize, 2, 3].iter() { first_use_from(ctx, &[&x, &y], *w, q(1, 2), CAP, o); } }
    })); }
    // two images alike in size and pattern, different in everything else: nothing of one may reach the other
    for n in 0..images().len() { for out in 0..3u8 { v.push(job(format!("first use: developing two look-alikes of {} to output {}", images()[n].0, out), move |ctx: &mut Ctx| {
        let (name, a) = images().swap_remove(n);
        let mut b = raw(a.width, a.height, a.cpp, &a.cfa.name, 77); b.orientation = a.orientation; b.crops = a.crops;
        b.blacklevels = [200, 150, 100, 250]; b.whitelevels = [9000, 10000, 11000, 12000]; b.wb_coeffs = [3.0, 1.0, 0.7, 1.0]; for r in b.xyz_to_cam.iter_mut() { r.swap(0, 1); }
        let x = Op { name: format!("develop {} to output {}", name, out), kind: Kind::Dev(a, out, 0, 0), exp: None, bytes: vec![] };
        let y = Op { name: format!("develop a look-alike to output {}", out), kind: Kind::Dev(b, out, 0, 0), exp: None, bytes: vec![] };
        first_use(ctx, &[&x, &y], 1, 1, CAP);
        first_use(ctx, &[&x, &y], 2, q(0, 1), CAP);
    })); } }
    // every decoder
    let light: Vec<&'static Sample> = all_samples().iter().filter(|s| !s.heavy).collect();
    for s in light { v.push(job(format!("decode {}", s.name), move |ctx: &mut Ctx| {
        let o = decode_op(&s.name, s.doc.bytes(), Some(s.exp.clone()));
        schedules(ctx, &[&o], 1, 1, CAP);
        schedules(ctx, &[&o], 2, if s.name.starts_with("KDC") && !s.name.ends_with("0") { 2 } else { q(3, 5) }, CAP);
        schedules(ctx, &[&o], 3, q(2, 4), CAP);
        for w in [2usize, 3].iter() { schedules_from(ctx, &[&o], *w, q(1, 3), CAP, 2); }
        schedules_from(ctx, &[&o], 4, q(0, 2), CAP, 2);
        if thorough() { schedules(ctx, &[&o], 5, 2, CAP); }
    })); }
    // taller images, deeper
    for (k, rows) in [(0usize, 6u16), (1, 8), (2, 7)].iter() { let (k, rows) = (*k, *rows); v.push(job(format!("decode {} rows", rows), move |ctx: &mut Ctx| {
        let b = harness::corpus::dng16(4, rows, &(0..4 * rows).map(|i| i * 311).collect::<Vec<_>>(), |_| {});
        let o = decode_op(&format!("a DNG of {} rows", rows), b, None);
        for w in [2usize, 3, 4].iter() { schedules(ctx, &[&o], *w, q(3, 4), CAP); }
        for w in [6usize, 8].iter() { schedules(ctx, &[&o], *w, q(1, 2), CAP); }
        let _ = k;
    })); }
    // every development
    for n in 0..images().len() { for k in 0..3u8 { for lim in [(0usize, 0usize), (3, 3)].iter() { let lim = *lim; v.push(job(format!("develop {} output {} limits {:?}", images()[n].0, k, lim), move |ctx: &mut Ctx| {
        let i = images().swap_remove(n);
        let o = Op { name: format!("develop {} to {} within {:?}", i.0, ["8-bit", "RGB", "linear"][k as usize], lim), kind: Kind::Dev(i.1, k, lim.0, lim.1), exp: None, bytes: vec![] };
        schedules(ctx, &[&o], 1, 1, CAP);
        schedules(ctx, &[&o], 2, q(2, 3), CAP);
        schedules(ctx, &[&o], 3, q(1, 2), CAP);
        schedules(ctx, &[&o], 8, 1, CAP);
        for w in [2usize, 3].iter() { schedules_from(ctx, &[&o], *w, q(1, 2), CAP, 2); }
        schedules_from(ctx, &[&o], 8, q(0, 1), CAP, 2);
    })); } } }
    // large images on every size of pool: the split into tasks must not show
    for (w, h) in [(6usize, 700usize), (700, 6), (97, 130), (3, 2000), (66, 257)].iter() { let (w, h) = (*w, *h);
        v.push(job(format!("decode {}x{} on every size of pool", w, h), move |ctx: &mut Ctx| {
            let b = harness::corpus::dng16(w as u16, h as u16, &(0..w * h).map(|i| (i * 311 % 65521) as u16).collect::<Vec<_>>(), |_| {});
            let o = decode_op(&format!("a DNG of {}x{}", w, h), b, None);
            for n in 1..=14usize { schedules(ctx, &[&o], n, 0, CAP); }
            for n in [2usize, 5].iter() { schedules(ctx, &[&o], *n, 1, CAP); }
        }));
        for k in 0..images().len() { v.push(job(format!("develop {} enlarged to {}x{} on every size of pool", images()[k].0, w, h), move |ctx: &mut Ctx| {
            let (name, small) = images().swap_remove(k);
            let mut i = raw(w, h, small.cpp, &small.cfa.name, k); i.orientation = small.orientation; i.crops = small.crops; i.blacklevels = small.blacklevels;
            for (mw, mh) in [(0usize, 0usize), (w * 2 / 3, h * 2 / 3), (w / 3, h / 3)].iter() { for out in 0..3u8 {
                if out == 1 && *mw != 0 { continue; }
                let o = Op { name: format!("develop {} at {}x{} to output {} within {}x{}", name, w, h, out, mw, mh), kind: Kind::Dev(i.clone(), out, *mw, *mh), exp: None, bytes: vec![] };
                for n in 1..=14usize { if !thorough() && ![1usize, 2, 3, 4, 5, 6, 7, 8, 12, 14].contains(&n) { continue; } schedules(ctx, &[&o], n, 0, CAP); }
                if out == 2 { schedules(ctx, &[&o], 2, 1, CAP); if thorough() { schedules(ctx, &[&o], 5, 1, CAP); } }
            } }
        })); }
    }
    // concurrent callers
    let pairs: Vec<(&'static str, &'static str)> = vec![("DNG 0 black levels", "DNG 0 black levels"), ("NEF compressed", "NEF compressed"), ("DNG lossless JPEG tiles", "DNG lossless JPEG tiles"), ("RW2 packed blocks split=true", "RW2 packed blocks split=false"), ("ARW2", "ARW 12-bit packed"), ("PEF compressed", "SRW2"), ("CR2 sRAW vertical=true", "CR2 sRAW vertical=false"), ("MOS lossless JPEG", "DNG lossless JPEG strip"), ("DNG 8-bit with curve", "CR2 linearized"), ("ORF compressed", "SRW3"), ("SRW1", "ARW1"), ("RAF", "ARI")];
    for (a, b) in pairs { v.push(job(format!("concurrently {} and {}", a, b), move |ctx: &mut Ctx| {
        let (a, b) = (named(a), named(b));
        let (x, y) = (decode_op(&a.name, a.doc.bytes(), Some(a.exp.clone())), decode_op(&b.name, b.doc.bytes(), Some(b.exp.clone())));
        for w in [1usize, 2].iter() { schedules(ctx, &[&x, &y], *w, q(2, 3), CAP); schedules_from(ctx, &[&x, &y], *w + 1, 1, CAP, 1); schedules_from(ctx, &[&x, &y], *w + 1, 1, CAP, 2); }
        if thorough() { schedules(ctx, &[&x, &y, &x], 2, 2, CAP); }
    })); }
    v.push(job("concurrently a panicking and a good decode", move |ctx: &mut Ctx| {
        let bad = decode_op("a DNG that panics inside", harness::corpus::dng16(4, 3, &[9; 12], |i| { i.put(0x101, harness::tiffb::V::L(vec![40])); }), None);
        let bad2 = decode_op("a DNG with a pattern of the wrong type", harness::corpus::dng16(4, 3, &[9; 12], |i| { i.put(0x828e, harness::tiffb::V::A("RGGB".into())); }), None);
        let s = named("NEF compressed"); let good = decode_op(&s.name, s.doc.bytes(), Some(s.exp.clone()));
        for b in [&bad, &bad2].iter() { for w in [1usize, 2].iter() { schedules(ctx, &[b], *w, 2, CAP); schedules(ctx, &[b, &good], *w, 2, CAP); schedules(ctx, &[&good, b, b], *w, 1, CAP); for o in 1..3u8 { schedules_from(ctx, &[b, &good], *w, 1, CAP, o); } } }
    }));
    v.push(job("concurrently decoding and developing", move |ctx: &mut Ctx| {
        let s = named("DNG 0 black levels"); let d = decode_op(&s.name, s.doc.bytes(), Some(s.exp.clone()));
        for n in [0usize, 2, 3].iter() { let i = images().swap_remove(*n); let o = Op { name: format!("develop {}", i.0), kind: Kind::Dev(i.1, 2, 0, 0), exp: None, bytes: vec![] };
            for w in [1usize, 2].iter() { schedules(ctx, &[&d, &o], *w, q(1, 2), CAP); } }
    }));
    for k in 0..3u8 { v.push(job(format!("concurrently developing, output {}", k), move |ctx: &mut Ctx| {
        let mut im = images();
        let (a, b) = (im.swap_remove(3), im.swap_remove(0));
        let x = Op { name: format!("develop {} to output {}", a.0, k), kind: Kind::Dev(a.1, k, 0, 0), exp: None, bytes: vec![] };
        let y = Op { name: format!("develop {} to output {}", b.0, k), kind: Kind::Dev(b.1, k, 0, 0), exp: None, bytes: vec![] };
        for w in [1usize, 2].iter() { schedules(ctx, &[&x, &y], *w, q(1, 2), CAP); schedules(ctx, &[&y, &y], *w, q(1, 2), CAP); for o in 1..3u8 { schedules_from(ctx, &[&x, &y], *w + 1, q(0, 1), CAP, o); } }
    })); }
    v.push(job("concurrently decode and develop", move |ctx: &mut Ctx| {
        let (a, b) = (named("CR2 sRAW vertical=false"), named("DNG lossless JPEG strip"));
        let x = Op { name: format!("decode and develop {}", a.name), kind: Kind::Both(file(&a.doc.bytes()), 1), exp: None, bytes: a.doc.bytes() };
        let y = Op { name: format!("decode and develop {}", b.name), kind: Kind::Both(file(&b.doc.bytes()), 0), exp: None, bytes: b.doc.bytes() };
        for w in [1usize, 2].iter() { schedules(ctx, &[&x, &y], *w, q(1, 2), CAP); }
    }));
    v
}

fn main() {
    let mut s = Spec::new("C14", "pools of 1 to 14 threads; one, two and three concurrent callers; every file format and compression, six kinds of images in three outputs, scaled and unscaled; scheduling points at every task push, task take, task end, atomic operation, lock and write to a static; delay-bounded search: every schedule with up to 3 departures from running in order for decodes on 2 threads (2 on 3 threads, 5 and 4 in the thorough tier), 2 for developments on 2 threads and 1 on 3 and 8 threads, 1 or 2 for concurrent callers; images of up to 2000 rows or 700 columns on every size of pool with the default schedule, on two threads with one departure; the same with up to 1 departure (0 for first uses) from beginning every task at once, and for concurrent callers from running the callers first",
        &["the thread pool is a model of work stealing: tasks may be stolen oldest first at any scheduling point, waiting workers execute other tasks", "code between scheduling points shares no mutable state (no unsafe code in the library), so other interleavings are equivalent"]);
    let _ = START.set(std::time::Instant::now());
    s.in_pool = false; s.warm = false;
    run_main(s, jobs)
}
