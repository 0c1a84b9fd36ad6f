//! C15: no history dependence. Every sequence of operations up to a depth is executed on the real code, each from a
//! process that has done nothing but that sequence: the processes form a tree, one fork per sequence. Each operation's
//! result is compared with the result of the same operation done alone in a fresh process (and with the model of the file).
use harness::{camdb::*, dev::*, fmt::*, run::*, samples::*};
use rawloader::decoders::{Orientation, RawLoader};
use rawloader::RawImage;
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};

enum Kind {
    Path(Vec<u8>), Loader(Vec<u8>),
    /// a reader that fails or panics after some bytes
    BadReader(Vec<u8>, usize, bool),
    Missing,
    /// develops one of the images that live as long as the process: (image, output, limits)
    Dev(usize, u8, usize, usize),
    /// decodes and develops
    Both(Vec<u8>, u8),
}
struct Op { name: String, kind: Kind, exp: Option<usize>, heavy: bool }
struct World { ops: Vec<Op>, exps: Vec<Exp>, images: Vec<RawImage>, core: Vec<usize>, small: Vec<usize>, fresh: *mut u64, shm: *mut u64 }
const DIED: u64 = 0xdead;
static mut WORLD: *const World = std::ptr::null();
fn area(n: usize) -> *mut u64 { unsafe { let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0); assert!(p != libc::MAP_FAILED); p as *mut u64 } }
/// one loader for the whole history, built when first used
fn loader() -> &'static RawLoader { static L: std::sync::OnceLock<RawLoader> = std::sync::OnceLock::new(); L.get_or_init(RawLoader::new) }
fn world() -> &'static World { unsafe { &*WORLD } }

fn cfa(a: &RawImage) -> (String, usize, usize, Vec<usize>) { let c = &a.cfa; (c.name.clone(), c.width, c.height, if c.width > 0 && c.height > 0 { (0..c.width * c.height).map(|i| c.color_at(i / c.width, i % c.width)).collect() } else { vec![] }) }
fn meta(a: &RawImage) -> String { format!("{:?} {:?}", (&a.make, &a.model, &a.clean_make, &a.clean_model, a.width, a.height, a.cpp), (&a.wb_coeffs, &a.blacklevels, &a.whitelevels, &a.xyz_to_cam, cfa(a), &a.crops, a.orientation)) }
fn himg(a: &RawImage) -> u64 { hash(&(meta(a), &a.data)) }
fn bits(d: &[f32]) -> Vec<u32> { d.iter().map(|x| if x.is_nan() { 0x7fc00000 } else { x.to_bits() }).collect() }
fn out(i: &RawImage, k: u8, mw: usize, mh: usize) -> u64 {
    match k {
        0 => match srgb(i, mw, mh) { Ok(x) => hash(&x), Err(_) => 1 },
        1 => match rgb(i, mw, mh) { Ok((w, h, d)) => hash(&(w, h, bits(&d))), Err(_) => 1 },
        _ => match linear(i, mw, mh) { Ok((w, h, d)) => hash(&(w, h, bits(&d))), Err(_) => 1 },
    }
}
struct Bad<'a> { b: &'a [u8], at: usize, pos: usize, panics: bool }
impl<'a> Read for Bad<'a> { fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> { if self.pos >= self.at { if self.panics { panic!("reader panics"); } return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken")); } let n = o.len().min(self.at - self.pos); o[..n].copy_from_slice(&self.b[self.pos..self.pos + n]); self.pos += n; Ok(n) } }

/// performs one operation; Ok(hash of everything it returned) or a direct violation
fn perform(ctx: &mut Ctx, w: &World, i: usize) -> Result<u64, String> {
    let op = &w.ops[i];
    let res = |r: Result<RawImage, String>| -> Result<u64, String> { match r {
        Ok(img) => { if let Some(e) = op.exp { cmp_all(&img, &w.exps[e]).map_err(|m| format!("{}: {}", op.name, m))?; } Ok(himg(&img)) }
        Err(m) => { if op.exp.is_some() { return Err(format!("{}: did not decode: {}", op.name, m)); } Ok(hash(&m)) } } };
    match &op.kind {
        Kind::Path(b) => { let p = ctx.put_file(b); match catch_unwind(|| rawloader::decode(&p)) { Ok(r) => res(r), Err(_) => Err(format!("{}: decoding by path panicked", op.name)) } }
        Kind::Loader(b) => { let mut c = std::io::Cursor::new(&b[..]); match catch_unwind(AssertUnwindSafe(|| loader().decode(&mut c))) { Ok(r) => res(r), Err(_) => res(Err("panic".into())) } }
        Kind::BadReader(b, at, panics) => { let mut c = Bad { b, at: *at, pos: 0, panics: *panics }; match catch_unwind(AssertUnwindSafe(|| loader().decode(&mut c))) { Ok(r) => res(r), Err(_) => Ok(3) } }
        Kind::Missing => res(rawloader::decode("/nonexistent/file.raw")),
        Kind::Dev(im, k, mw, mh) => {
            let img = &w.images[*im];
            let before = himg(img);
            let r = out(img, *k, *mw, *mh);
            if himg(img) != before { return Err(format!("{}: the raw image changed", op.name)); }
            Ok(r)
        }
        Kind::Both(b, k) => {
            let p = ctx.put_file(b);
            match catch_unwind(|| rawloader::decode(&p)) {
                Ok(Ok(img)) => { let before = himg(&img); let r = out(&img, *k, 0, 0); if himg(&img) != before { return Err(format!("{}: the raw image changed", op.name)); } Ok(hash(&(before, r))) }
                Ok(Err(m)) => Ok(hash(&m)),
                Err(_) => Err(format!("{}: decoding by path panicked", op.name)),
            }
        }
    }
}
unsafe fn message(w: &World, m: &str) { let b = m.as_bytes(); let n = b.len().min(4000); *w.shm.add(8) = n as u64; std::ptr::copy_nonoverlapping(b.as_ptr(), w.shm.add(9) as *mut u8, n); }
fn names(w: &World, seq: &[usize]) -> String { seq.iter().map(|&i| w.ops[i].name.clone()).collect::<Vec<_>>().join(" -> ") }
/// every continuation of `seq`, one process each; false after a violation (described in the shared memory)
fn descend(ctx: &mut Ctx, w: &World, seq: &mut Vec<usize>, levels: &[&[usize]]) -> bool {
    for &i in levels[0] {
        seq.push(i);
        unsafe {
            *w.shm.add(0) += 1;
            let pid = libc::fork();
            if pid < 0 { message(w, "harness: fork failed"); *w.shm.add(2) = 1; return false; }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::alarm(60);
                let r = catch_unwind(AssertUnwindSafe(|| perform(ctx, w, i)));
                libc::alarm(0);
                *w.shm.add(1) += 1;
                let code = match r {
                    Err(_) => { message(w, "harness: operation panicked"); *w.shm.add(2) = 1; 2 }
                    Ok(Err(m)) => { message(w, &format!("{} [history: {}]", m, names(w, seq))); 1 }
                    Ok(Ok(h)) => if h != *w.fresh.add(i) { message(w, &format!("the result of the last operation differs from the one in a fresh process [history: {}]", names(w, seq))); 1 }
                        else if levels.len() > 1 && !descend(ctx, w, seq, &levels[1..]) { 1 } else { 0 },
                };
                libc::_exit(code);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) != pid {}
            if libc::WIFSIGNALED(st) { message(w, &format!("the process {} [history: {}]", if libc::WTERMSIG(st) == libc::SIGALRM { "does not terminate".to_string() } else { format!("was killed by signal {}", libc::WTERMSIG(st)) }, names(w, seq))); return false; }
            if libc::WEXITSTATUS(st) != 0 { return false; }
        }
        seq.pop();
    }
    true
}
fn verdict(ctx: &mut Ctx, w: &World, ok: bool) {
    unsafe {
        ctx.traces += *w.shm.add(1) - ctx.traces.min(1);
        ctx.states += *w.shm.add(0); ctx.transitions += *w.shm.add(1);
        if !ok {
            let n = *w.shm.add(8) as usize;
            let m = String::from_utf8_lossy(std::slice::from_raw_parts(w.shm.add(9) as *const u8, n)).to_string();
            if *w.shm.add(2) != 0 { panic!("{}", m); }
            ctx.fail("history", "a sequence of operations", &[], &m);
        }
    }
}
fn reset(w: &World) { unsafe { for k in 0..9 { *w.shm.add(k) = 0; } } }
fn tree(name: String, first: Vec<usize>, rest: fn(&World) -> Vec<Vec<usize>>) -> Job {
    job(name, move |ctx: &mut Ctx| {
        let w = world();
        // one shared area per worker
        let w = World { shm: area(8192), ..unsafe { std::ptr::read(w) } };
        let w = std::mem::ManuallyDrop::new(w);
        let w: &World = &w;
        reset(w);
        let r = rest(w);
        let mut levels: Vec<&[usize]> = vec![&first];
        for l in &r { levels.push(l); }
        ctx.begin(|| (format!("all histories beginning with {}", names(w, &first)), vec![]));
        for &i in &first { ctx.outcome(unsafe { *w.fresh.add(i) }); }
        let mut seq = vec![];
        let ok = descend(ctx, w, &mut seq, &levels);
        verdict(ctx, w, ok);
    })
}
/// one long history in one process
fn chain(name: String, seq: Vec<usize>) -> Job {
    job(name.clone(), move |ctx: &mut Ctx| {
        let w = world();
        let w = std::mem::ManuallyDrop::new(World { shm: area(8192), ..unsafe { std::ptr::read(w) } });
        let w: &World = &w;
        reset(w);
        ctx.begin(|| (name.clone(), vec![]));
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                for (n, &i) in seq.iter().enumerate() {
                    *w.shm.add(0) += 1; *w.shm.add(1) += 1;
                    if n % 64 == 0 { libc::alarm(50); }
                    let tail = || format!("[step {} of: {}; before it: {}]", n + 1, name, names(w, &seq[n.saturating_sub(3)..=n]));
                    match perform(ctx, w, i) {
                        Err(m) => { message(w, &format!("{} {}", m, tail())); libc::_exit(1) }
                        Ok(h) => if h != *w.fresh.add(i) { message(w, &format!("the result differs from the one in a fresh process {}", tail())); libc::_exit(1) },
                    }
                }
                libc::_exit(0);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) != pid {}
            if libc::WIFSIGNALED(st) { message(w, &format!("the process died of signal {} in the history {}", libc::WTERMSIG(st), name)); verdict(ctx, w, false); }
            verdict(ctx, w, libc::WEXITSTATUS(st) == 0);
        }
    })
}

/// the hash of one decode or development in a process that does nothing else
fn alone(cell: *mut u64, f: &mut dyn FnMut() -> u64) -> u64 {
    unsafe {
        *cell = DIED;
        let pid = libc::fork(); assert!(pid >= 0);
        if pid == 0 { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); libc::alarm(60); *cell = catch_unwind(AssertUnwindSafe(|| f())).unwrap_or(DIED); libc::_exit(0); }
        let mut st = 0; while libc::waitpid(pid, &mut st, 0) != pid {}
        *cell
    }
}
fn hdec(ctx: &mut Ctx, b: &[u8]) -> u64 { let p = ctx.put_file(b); match rawloader::decode(&p) { Ok(i) => himg(&i), Err(m) => hash(&m) } }
/// a file and every file that differs from it in one byte: decoded in turns in one process
fn twins(names: Vec<String>) -> Job {
    job(format!("one-byte neighbours of {} ...", names[0]), move |ctx: &mut Ctx| {
        let cell = area(4096);
        let all = all_samples();
        for s in all.iter().filter(|s| names.contains(&s.name)) {
            let b = s.doc.bytes();
            let n = if b.len() > 20_000 { q(24, 200) } else { q(100, 2000) };
            // the ends of the file hold most tables
            let mut at: Vec<usize> = (0..n.min(b.len())).map(|i| i * b.len() / n.min(b.len())).collect();
            at.extend((0..q(0, 400)).filter(|&i| i < b.len()));
            at.sort(); at.dedup();
            let vars: Vec<(usize, u8)> = at.iter().map(|&i| (i, if i % 3 == 0 { 1u8 } else { 0x10 })).collect();
            let w = |i: usize, x: u8| { let mut y = b.clone(); y[i] ^= x; y };
            let f0 = alone(cell, &mut || hdec(ctx, &b));
            let fresh: Vec<u64> = vars.iter().map(|&(i, x)| { let y = w(i, x); alone(cell, &mut || hdec(ctx, &y)) }).collect();
            ctx.begin(|| (format!("{} and its neighbours", s.name), b.clone()));
            for (k, &(i, x)) in vars.iter().enumerate() {
                ctx.states += 2; ctx.transitions += 2;
                ctx.outcome(fresh[k]);
                if fresh[k] == DIED { continue; } // C01's subject
                let y = w(i, x);
                if hdec(ctx, &b) != f0 { ctx.fail("twin", &s.name, &b, &format!("decode {}: differs from the result in a fresh process [after files that differ from it in one byte, the last at {}]", s.name, if k > 0 { vars[k - 1].0 } else { 0 })); }
                if hdec(ctx, &y) != fresh[k] { ctx.fail("twin", &s.name, &y, &format!("decode {} with byte {} changed by {:#x}: differs from the result in a fresh process [after decoding it unchanged]", s.name, i, x)); }
            }
        }
    })
}
/// images that differ from each other in one field only, developed in every order of two
fn twin_images() -> Vec<(String, RawImage)> {
    let base = || { let mut i = image(9, 8, 1, "RGGB", (0..72).map(|i| 300 + ((i * 7919) % 15000) as u16).collect()); i.crops = [1, 1, 1, 0]; i.wb_coeffs = [2.0, 1.0, 1.5, 1.25]; i.blacklevels = [100, 110, 120, 130]; i.whitelevels = [15000, 15100, 15200, 15300]; i.make = "A".into(); i.model = "B".into(); i };
    let mut v: Vec<(String, RawImage)> = vec![];
    { let mut add = |n: String, f: &dyn Fn(&mut RawImage)| { let mut i = base(); f(&mut i); v.push((n, i)); };
    add("base".into(), &|_| {});
    for k in 0..4 { add(format!("black level {}", k), &|i| i.blacklevels[k] += 64); add(format!("white level {}", k), &|i| i.whitelevels[k] -= 4000); add(format!("white balance {}", k), &|i| i.wb_coeffs[k] *= 1.5); }
    for r in 0..4 { for c in 0..3 { add(format!("matrix {} {}", r, c), &|i| i.xyz_to_cam[r][c] += 0.25); } }
    add("no white balance".into(), &|i| i.wb_coeffs = [f32::NAN; 4]);
    add("first sample".into(), &|i| i.data[12] ^= 0x800);
    add("a middle sample".into(), &|i| i.data[40] ^= 0x800);
    add("last sample".into(), &|i| i.data[61] ^= 0x800);
    for (k, c) in [[0usize, 1, 1, 0], [1, 0, 1, 0], [1, 1, 0, 0], [1, 1, 1, 1], [1, 1, 2, 0], [2, 1, 1, 0], [0, 1, 2, 0], [1, 0, 1, 1]].iter().enumerate() { add(format!("crops {}", k), &|i| i.crops = *c); }
    for (k, o) in [Orientation::HorizontalFlip, Orientation::Rotate180, Orientation::VerticalFlip, Orientation::Transpose, Orientation::Rotate90, Orientation::Transverse, Orientation::Rotate270, Orientation::Unknown].iter().enumerate() { add(format!("orientation {}", k), &|i| i.orientation = *o); }
    for p in ["BGGR", "GRBG", "GBRG", "ERBG", "RBGGGBGGGBRGGRGG", "", "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG"] { add(format!("pattern {:?}", p), &|i| i.cfa = rawloader::decoders::cfa::CFA::new(p)); }
    add("other names".into(), &|i| { i.make = "C".into(); i.model = "D".into(); i.clean_make = "C".into(); i.clean_model = "D".into(); });
    add("8x9".into(), &|i| { i.width = 8; i.height = 9; });
    add("three components".into(), &|i| { i.cpp = 3; i.width = 4; i.height = 6; i.cfa = rawloader::decoders::cfa::CFA::new(""); });
    }
    v
}
fn twin_dev(kind: u8, mw: usize, mh: usize) -> Job {
    job(format!("developments of images that differ in one field, {} within {}x{}", ["8-bit", "RGB", "linear"][kind as usize], mw, mh), move |ctx: &mut Ctx| {
        let cell = area(4096);
        let im = twin_images();
        let fresh: Vec<u64> = im.iter().map(|(_, i)| alone(cell, &mut || out(i, kind, mw, mh))).collect();
        let distinct: std::collections::HashSet<u64> = fresh.iter().cloned().collect();
        if distinct.len() < 12 { panic!("the images do not differ"); }
        let seq = de_bruijn(im.len(), 2);
        for (n, &k) in seq.iter().enumerate() {
            let (k, p) = (k as usize, if n > 0 { seq[n - 1] as usize } else { 0 });
            ctx.begin(|| (format!("development of the image with another {} after that with another {}", im[k].0, im[p].0), vec![]));
            ctx.states += 1; ctx.transitions += 1; ctx.outcome(fresh[k]);
            let before = himg(&im[k].1);
            let r = out(&im[k].1, kind, mw, mh);
            let d = format!("development of the image ({}) after that of ({})", im[k].0, im[p].0);
            if r != fresh[k] { ctx.fail("twin", &d, &[], &format!("{} differs from the one in a fresh process", d)); }
            if himg(&im[k].1) != before { ctx.fail("twin", &d, &[], &format!("{} changed the raw image", d)); }
        }
    })
}
fn build() -> World {
    let mut ops: Vec<Op> = vec![]; let mut exps: Vec<Exp> = vec![]; let mut core = vec![]; let mut small = vec![];
    let mut images = vec![];
    let add = |ops: &mut Vec<Op>, name: String, kind: Kind, exp: Option<usize>, heavy: bool| { ops.push(Op { name, kind, exp, heavy }); ops.len() - 1 };
    let mut fam: Vec<String> = vec![];
    let samples = all_samples();
    for s in samples.iter() {
        if s.heavy { continue; }
        let b = s.doc.bytes();
        let hv = b.len() > 60_000;
        exps.push(s.exp.clone()); let e = exps.len() - 1;
        let i = add(&mut ops, format!("decode {}", s.name), Kind::Path(b.clone()), Some(e), hv);
        // one of each family forms the alphabet of the deeper trees
        let f = s.name.split_whitespace().next().unwrap().to_string();
        let n = fam.iter().filter(|x| **x == f).count();
        if n < q(1, 3) && !hv { core.push(i); }
        fam.push(f);
        // same length, other samples
        let mut c = b.clone(); let l = c.len(); c[l - 1 - l / 16] ^= 0x15; c[l - 2 - l / 32] ^= 0x2a;
        let j = add(&mut ops, format!("decode {} with other data", s.name), Kind::Path(c), None, hv);
        if n < q(1, 2) && !hv { core.push(j); }
        let cut = b[..b.len() * 2 / 3].to_vec();
        add(&mut ops, format!("decode the first part of {}", s.name), Kind::Path(cut), None, hv);
        if n == 0 { add(&mut ops, format!("read {} through a loader", s.name), Kind::Loader(b.clone()), Some(e), hv); }
    }
    // the same places with other metadata
    for st in all_sites().iter().filter(|s| !s.heavy) {
        let v: Vec<u32> = st.def.iter().zip(&st.max).map(|(&d, &m)| if d as u64 * 2 + 1 <= m as u64 { d * 2 + 1 } else { d / 2 }).collect();
        if let Some((d, e)) = (st.build)(&v, Opt { big: false, mbig: false, orient: if st.orients { 6 } else { 1 } }) { exps.push(e); let e = exps.len() - 1; let b = d.bytes(); let hv = b.len() > 60_000; add(&mut ops, format!("decode {} with other metadata", st.name), Kind::Path(b), Some(e), hv); }
    }
    // cameras with modes, and cameras that share a make or a model
    let db = Db::load();
    for c in db.all.iter() {
        let several = db.all.iter().filter(|o| o.make == c.make && o.model == c.model).count() > 1;
        if !several { continue; }
        if let Some((d, e)) = plain(c, Opt { big: false, mbig: false, orient: 1 }) { let b = d.bytes(); if b.len() > 120_000 { continue; } let _ = e; let n = ops.iter().filter(|o| o.name.starts_with(&format!("decode {} ", c.make))).count(); if n >= q(8, 40) { continue; } add(&mut ops, format!("decode {} {} mode {:?}", c.make, c.model, c.mode), Kind::Path(b), None, true); }
    }
    // failing operations
    let first = samples[0].doc.bytes();
    let dng = |f: &dyn Fn(&mut harness::tiffb::Ifd)| harness::corpus::dng16(4, 3, &(0..12).map(|i| 1000 * i as u16).collect::<Vec<_>>(), |i| f(i));
    use harness::tiffb::V;
    let ok = dng(&|_| {});
    let bads: Vec<(&str, Kind)> = vec![
        ("decode a missing file", Kind::Missing),
        ("decode an empty file", Kind::Path(vec![])),
        ("decode text", Kind::Path(b"this is not a raw file at all, only some text in a file".to_vec())),
        ("decode a TIFF of an unknown camera", Kind::Path(dng(&|i| { i.del(0xc612); }))),
        ("decode a DNG with an unsupported compression", Kind::Path(dng(&|i| { i.put(0x103, V::S(vec![9])); }))),
        ("decode a DNG with a colour pattern of the wrong type (internal panic)", Kind::Path(dng(&|i| { i.put(0x828e, V::A("RGGB".into())); }))),
        ("decode a DNG with a width of type ASCII (internal panic)", Kind::Path(dng(&|i| { i.put(0x100, V::A("44".into())); }))),
        ("decode a DNG too large to allocate (internal panic)", Kind::Path(dng(&|i| { i.put(0x100, V::L(vec![60000])); i.put(0x101, V::L(vec![60000])); }))),
        ("decode a DNG whose data lie outside (internal panic)", Kind::Path(dng(&|i| { i.put(0x101, V::L(vec![3000])); }))),
        ("decode a DNG with its data offset outside", Kind::Path(dng(&|i| { i.put(0x111, V::L(vec![5_000_000])); }))),
        ("read a file that breaks off with an error", Kind::BadReader(first.clone(), 30, false)),
        ("read a file whose reader panics", Kind::BadReader(first.clone(), 30, true)),
        ("read a panicking file through a loader", Kind::Loader(dng(&|i| { i.put(0x828e, V::A("RGGB".into())); }))),
        ("read text through a loader", Kind::Loader(b"nothing of interest".to_vec())),
        ("decode a plain DNG", Kind::Path(ok.clone())),
        ("read a plain DNG through a loader", Kind::Loader(ok.clone())),
    ];
    for (n, k) in bads { let i = add(&mut ops, n.into(), k, None, false); core.push(i); small.push(i); }
    // images that stay alive, and their developments
    let mk = |w: usize, h: usize, cpp: usize, p: &str, seed: usize| image(w, h, cpp, p, (0..w * h * cpp).map(|i| 300 + ((i * 7919 + seed * 131) % 15000) as u16).collect());
    images.push(mk(8, 6, 1, "RGGB", 1));
    images.push(mk(8, 6, 1, "RGGB", 2));
    { let mut i = mk(8, 6, 1, "RGGB", 1); i.orientation = Orientation::Rotate90; i.wb_coeffs = [3.0, 1.0, 1.5, f32::NAN]; images.push(i); }
    { let mut i = mk(9, 7, 1, "GBRG", 3); i.crops = [1, 1, 0, 2]; i.blacklevels = [100, 110, 120, 130]; i.whitelevels = [9000, 9100, 9200, 9300]; images.push(i); }
    { let mut i = mk(6, 8, 3, "RGGB", 4); i.orientation = Orientation::HorizontalFlip; images.push(i); }
    images.push(mk(12, 9, 1, "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG", 5));
    images.push(mk(7, 5, 1, "", 6));
    { let mut i = mk(8, 6, 1, "ERBG", 7); i.xyz_to_cam = [[0.9, 0.1, 0.2], [0.1, 1.1, 0.1], [0.0, 0.2, 0.7], [0.3, 0.5, 0.1]]; images.push(i); }
    { let mut i = mk(8, 6, 1, "RGGB", 1); i.crops = [9, 0, 9, 0]; images.push(i); } // cannot be developed: panics
    { let mut i = mk(8, 6, 1, "RGGB", 1); i.data.truncate(20); images.push(i); } // too little data: panics
    for im in 0..images.len() { for k in 0..3u8 { for (n, &(mw, mh)) in [(0usize, 0usize), (4, 3), (3, 3), (1, 0)].iter().enumerate() {
        if n == 3 && k != 2 { continue; }
        let i = add(&mut ops, format!("develop image {} to {} within {}x{}", im, ["8-bit", "RGB", "linear"][k as usize], mw, mh), Kind::Dev(im, k, mw, mh), None, false);
        let c = match (im, k, n) { (0, 0, 0) | (1, 1, 0) | (2, 2, 0) | (3, 1, 1) | (5, 0, 1) | (8, 0, 0) | (9, 0, 0) | (9, 1, 1) | (6, 0, 0) | (7, 2, 0) | (0, 1, 1) => true, _ => false };
        if c { core.push(i); if (im == 0 && n == 0) || im == 2 || im >= 8 || im == 3 { small.push(i); } }
    } } }
    for (n, s) in samples.iter().filter(|s| !s.heavy && s.doc.bytes().len() < 20_000).enumerate() {
        if n % 3 == 0 { add(&mut ops, format!("decode and develop {}", s.name), Kind::Both(s.doc.bytes(), (n / 3 % 3) as u8), None, false); }
    }
    for p in ["decode NEF compressed", "decode DNG lossless JPEG strip", "decode PEF compressed", "decode ARW2", "decode CR2 sRAW vertical=true", "decode ORF compressed"].iter() { if let Some(i) = ops.iter().position(|o| o.name == *p) { small.push(i); if !core.contains(&i) { core.push(i); } } }
    World { ops, exps, images, core, small, fresh: area(1 << 20), shm: area(8192) }
}
/// a sequence over 0..k in which every sequence of length n occurs
fn de_bruijn(k: usize, n: usize) -> Vec<u16> {
    // concatenated Lyndon words whose length divides n, in order
    let mut out: Vec<u16> = vec![];
    let mut w: Vec<u16> = vec![0];
    while !w.is_empty() {
        if n % w.len() == 0 { out.extend(&w); }
        let l = w.len();
        for i in 0..n { let x = w[i % l]; if i < w.len() { w[i] = x } else { w.push(x) } }
        while w.last() == Some(&(k as u16 - 1)) { w.pop(); }
        if let Some(x) = w.last_mut() { *x += 1; }
    }
    let head: Vec<u16> = out[..n - 1].to_vec(); out.extend(head);
    out
}
fn all(w: &World) -> Vec<usize> { (0..w.ops.len()).collect() }
fn light(w: &World) -> Vec<usize> { (0..w.ops.len()).filter(|&i| !w.ops[i].heavy).collect() }

fn jobs() -> Vec<Job> {
    let w = build();
    // the result of every operation in a process of its own that did nothing else
    unsafe {
        let mut kids = vec![];
        for part in 0..8 {
            let pid = libc::fork(); assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                std::panic::set_hook(Box::new(|_| {}));
                let dn = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR); libc::dup2(dn, 1); libc::dup2(dn, 2);
                for i in (part..w.ops.len()).step_by(8) {
                    *w.fresh.add(i) = DIED;
                    let p = libc::fork();
                    if p == 0 { libc::alarm(60); let mut c = Ctx::bare("C15"); *w.fresh.add(i) = match catch_unwind(AssertUnwindSafe(|| perform(&mut c, &w, i))) { Ok(Ok(h)) => h, _ => DIED }; libc::_exit(0); }
                    let mut st = 0; while libc::waitpid(p, &mut st, 0) != p {}
                }
                libc::_exit(0);
            }
            kids.push(pid);
        }
        for k in kids { let mut st = 0; while libc::waitpid(k, &mut st, 0) != k {} }
        WORLD = Box::leak(Box::new(w));
    }
    // every longer history starts with the two loaders built (each operation alone starts without)
    let _ = rawloader::decode("/nonexistent/path"); let _ = loader();
    let w = world();
    let mut v: Vec<Job> = vec![];
    v.push(job("each operation alone", |ctx: &mut Ctx| { let w = world(); for i in 0..w.ops.len() { ctx.begin(|| (w.ops[i].name.clone(), vec![])); ctx.states += 1; ctx.transitions += 1; let h = unsafe { *w.fresh.add(i) }; ctx.outcome(h); if h == DIED { let m = match perform(ctx, w, i) { Err(m) => m, Ok(_) => "the operation killed a fresh process, panicked or did not end".into() }; let d = w.ops[i].name.clone(); ctx.fail("alone", &d, &[], &m); } } }));
    // processes that did nothing but the sequence: pairs over the core and triples over the small alphabet (thorough: pairs over everything, triples over the core, and fourth steps)
    for part in (if thorough() { all(w) } else { w.core.clone() }).chunks(2) { v.push(tree(format!("pairs from {}", w.ops[part[0]].name), part.to_vec(), |w| vec![if thorough() { all(w) } else { w.core.clone() }])); }
    for &i in &w.small { v.push(tree(format!("triples from {}", w.ops[i].name), vec![i], |w| if thorough() { vec![w.small.clone(), w.small.clone(), w.small.clone()] } else { vec![w.small.clone(), w.small.clone()] })); }
    if thorough() { for &i in &w.core { v.push(tree(format!("core triples from {}", w.ops[i].name), vec![i], |w| vec![w.core.clone(), w.core.clone()])); } }
    // long histories in which every short sequence occurs, in pieces
    for (what, a, n) in vec![("triple over the core", w.core.clone(), 3), ("sequence of four over the small alphabet", w.small.clone(), 4), ("pair over everything", all(w), 2)].into_iter().chain(if thorough() { vec![("sequence of five over the small alphabet", w.small.clone(), 5), ("triple over the light operations", light(w), 3)] } else { vec![] }) {
        let s = de_bruijn(a.len(), n);
        let pieces = (s.len() / 20_000 + 1).max(8); let l = s.len() / pieces + 1;
        for k in 0..pieces { let b = k * l; let e = (b + l + n - 1).min(s.len()); if b < e { v.push(chain(format!("every {}, part {}", what, k), s[b..e].iter().map(|&x| a[x as usize]).collect())); } }
    }
    // a file and its neighbours, an image and its neighbours
    let light: Vec<String> = all_samples().iter().filter(|s| !s.heavy).map(|s| s.name.clone()).collect();
    for c in light.chunks(3) { v.push(twins(c.to_vec())); }
    for kind in 0..3u8 { for &(mw, mh) in &[(0usize, 0usize), (4, 3)] { v.push(twin_dev(kind, mw, mh)); } }
    // repetitions and rounds in one process
    for part in 0..16 { let s: Vec<usize> = all(w).into_iter().filter(|i| i % 16 == part).flat_map(|i| std::iter::repeat(i).take(q(40, 300))).collect(); v.push(chain(format!("each operation repeated, part {}", part), s)); }
    let n = w.ops.len();
    for step in [1usize, 7, 11, 13, 17, 19, 23, 29].iter() { let mut s = vec![]; for r in 0..q(2, 6) { for k in 0..n { s.push((k * step + r) % n); } } v.push(chain(format!("all operations in steps of {}", step), s)); }
    let mut back: Vec<usize> = (0..n).rev().collect(); back.extend(0..n); v.push(chain("all operations backwards and forwards".into(), back));
    v
}

#[test]
fn db() { for (k, n) in [(2usize, 3usize), (5, 2), (7, 3), (3, 4)] { let s = de_bruijn(k, n); let set: std::collections::HashSet<Vec<u16>> = s.windows(n).map(|w| w.to_vec()).collect(); assert_eq!(set.len(), k.pow(n as u32)); assert_eq!(s.len(), k.pow(n as u32) + n - 1); } }
fn main() {
    let mut s = Spec::new("C15", "alphabet: decodes of a file of every format and compression by path and through a loader, each also with other samples of the same size, other metadata and a missing end, cameras that share a name and differ in mode, failing, erroneous-reader and internally panicking decodes, developments of ten long-lived images (two of them impossible to develop) in three output kinds and four limits, decode-then-develop; all pairs over the whole alphabet, all triples over a core with every family and failure kind, quadruples over a small core in the thorough tier; every sequence in a process of its own; repetitions and rounds over the whole alphabet in one process; every small file in turns with files that differ from it in one byte (100 positions each), and images that differ in one field developed in every order of two",
        &["one thread at a time (C14 covers concurrency)", "the processes of a history are continued by fork, so that state common to a prefix is shared exactly"]);
    s.warm = false;
    run_main(s, jobs)
}
