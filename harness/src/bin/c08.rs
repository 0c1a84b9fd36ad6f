//! C08: every entry of the camera database is reported as its description file says; everything else is an error.
use harness::{camdb::*, corpus, dev, run::*, tiffb::*};
use rawloader::decoders::{RawImage, RawLoader};
use rawloader::decoders::Orientation;
use std::rc::Rc;

fn cfa_differs(img: &RawImage, pat: &str) -> bool {
    let (w, h) = pat_size(pat);
    img.cfa.width != w || img.cfa.height != h || (0..h * 2).any(|r| (0..w * 2).any(|c| img.cfa.color_at(r, c) != pat_color(pat, r, c)))
}
/// None: the image matches this description
fn differs(img: &RawImage, c: &Cam) -> Option<String> {
    macro_rules! eq { ($n:expr, $a:expr, $b:expr) => { if $a != $b { return Some(format!("{} is {:?}, the description says {:?}", $n, $a, $b)); } } }
    eq!("make", img.make, c.make); eq!("model", img.model, c.model); eq!("clean make", img.clean_make, c.clean_make); eq!("clean model", img.clean_model, c.clean_model);
    eq!("white levels", img.whitelevels, c.white); eq!("crops", img.crops, c.crops); eq!("colour matrix", img.xyz_to_cam, c.matrix);
    if c.areah.1 + c.areav.1 == 0 { eq!("black levels", img.blacklevels, c.black); }
    if cfa_differs(img, &c.pattern) { return Some(format!("colour pattern is {}, the description says {}", img.cfa.name, c.pattern)); }
    None
}
fn lookup(l: &RawLoader, make: &str, model: &str, mode: &str, w: usize, h: usize) -> Result<(RawImage, rawloader::decoders::Camera), String> {
    dev::guard(|| l.check_supported_with_everything(make, model, mode).map(|c| (RawImage::new(c.clone(), w, h, [1.0; 4], vec![0; w * h]), c)))
}
fn edits(s: &str) -> Vec<String> {
    let mut v = Vec::new();
    let b: Vec<char> = s.chars().collect();
    for i in 0..b.len() {
        let mut d = b.clone(); d.remove(i); v.push(d.into_iter().collect());
        let mut d = b.clone(); d[i] = if d[i] == 'x' { 'y' } else { 'x' }; v.push(d.into_iter().collect());
        let c = b[i];
        let sw = if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        if sw != c { let mut d = b.clone(); d[i] = sw; v.push(d.into_iter().collect()); }
        let mut d = b.clone(); d.insert(i, ' '); v.push(d.into_iter().collect());
    }
    v.push(format!("{} ", s)); v.push(format!("{}I", s)); v.push(format!(" {}", s)); v.push(String::new());
    v.push(s.to_lowercase()); v.push(s.to_uppercase()); v.push(s.trim().to_string());
    v
}
fn jobs() -> Vec<Job> {
    let db = Rc::new(Db::load());
    let l = Rc::new(RawLoader::new());
    let mut keys: Vec<(String, String, String)> = db.by.keys().cloned().collect();
    keys.sort();
    let mut v = Vec::new();
    for ch in keys.chunks(12) {
        let (ch, db, l) = (ch.to_vec(), db.clone(), l.clone());
        v.push(job(format!("entries from {} {}", ch[0].0, ch[0].1), move |ctx: &mut Ctx| for k in &ch {
            let cands = &db.by[k];
            let desc = format!("make {:?} model {:?} mode {:?}", k.0, k.1, k.2);
            let w = cands.iter().map(|c| c.areav.0 + c.areav.1).max().unwrap().max(2);
            let h = cands.iter().map(|c| c.areah.0 + c.areah.1).max().unwrap().max(2);
            ctx.begin(|| (desc.clone(), vec![]));
            ctx.states += 1; ctx.transitions += 14;
            let (img, cam) = match lookup(&l, &k.0, &k.1, &k.2, w, h) { Ok(x) => x, Err(e) => { ctx.fail("missing", &desc, &[], &format!("is in the data files but not found: {}", e)); continue; } };
            // where two description files claim the same name either may be reported
            let bad: Vec<String> = cands.iter().filter_map(|c| {
                if let Some(d) = differs(&img, c) { return Some(d); }
                if cam.mode != c.mode || cam.filesize != c.filesize || cam.raw_width != c.raw_width || cam.raw_height != c.raw_height { return Some(format!("mode/filesize/raw size are {:?} {} {}x{}, the description says {:?} {} {}x{}", cam.mode, cam.filesize, cam.raw_width, cam.raw_height, c.mode, c.filesize, c.raw_width, c.raw_height)); }
                for hnt in db.all.iter().flat_map(|x| x.hints.iter()) { if cam.find_hint(hnt) != c.hint(hnt) { return Some(format!("hint {} reported {}, the description says {}", hnt, cam.find_hint(hnt), c.hint(hnt))); } }
                if img.orientation != Orientation::Unknown { return Some("orientation is set without a file".into()); }
                None
            }).collect();
            if bad.len() == cands.len() { ctx.fail("entry", &desc, &[], &bad[0]); }
            ctx.outcome(hash(&desc));
            // neighbours of the key
            let mut miss: Vec<(String, String, String)> = Vec::new();
            for m in edits(&k.1) { miss.push((k.0.clone(), m, k.2.clone())); }
            for m in edits(&k.2) { miss.push((k.0.clone(), k.1.clone(), m)); }
            if thorough() || k.1 == ch[0].1 { for m in edits(&k.0) { miss.push((m, k.1.clone(), k.2.clone())); } }
            for m in ["12bit", "14bit", "16:9", "3:2", "4:3", "1:1", "sNEF", "x"].iter() { miss.push((k.0.clone(), k.1.clone(), m.to_string())); }
            for n in miss {
                if db.by.contains_key(&n) { continue; }
                ctx.begin(|| (format!("{:?}", n), vec![]));
                ctx.states += 1; ctx.transitions += 1;
                match dev::guard(|| Ok(l.check_supported_with_everything(&n.0, &n.1, &n.2))) {
                    Ok(Err(_)) => {}
                    Ok(Ok(c)) => ctx.fail("unknown", &format!("{:?}", n), &[], &format!("is not in the database but was found as {} {} {:?}", c.make, c.model, c.mode)),
                    Err(e) => ctx.fail("panic", &format!("{:?}", n), &[], &e),
                }
            }
        }));
    }
    // through a file: a DNG reports the cleaned names of a known camera and its own for unknown ones
    for ch in keys.chunks(60) {
        let (ch, db) = (ch.to_vec(), db.clone());
        v.push(job(format!("DNG names from {} {}", ch[0].0, ch[0].1), move |ctx: &mut Ctx| for k in &ch {
            if k.2 != "" { continue; }
            for (mk, md) in [(k.0.clone(), k.1.clone()), (k.0.clone(), format!("{}q", k.1)), (format!("{}q", k.0), k.1.clone())].iter() {
                let bytes = corpus::dng16(4, 2, &[1, 2, 3, 4, 5, 6, 7, 8], |i| { i.set(0x10f, V::A(mk.clone())); i.set(0x110, V::A(md.clone())); });
                let desc = format!("DNG of {:?} {:?}", mk, md);
                ctx.begin(|| (desc.clone(), bytes.clone()));
                ctx.states += 1; ctx.transitions += 1;
                let img = match ctx.decode(&bytes) { Ok(i) => i, Err(e) => { ctx.fail("dng", &desc, &bytes, &e); continue; } };
                // the library reports names up to trailing blanks that the tag reader may drop
                let cands = db.by.get(&(mk.clone(), md.clone(), String::new()));
                let ok = match cands {
                    Some(c) => c.iter().any(|c| img.make == c.make && img.model == c.model && img.clean_make == c.clean_make && img.clean_model == c.clean_model),
                    None => img.make == *mk && img.model == *md && img.clean_make == *mk && img.clean_model == *md,
                };
                if !ok { ctx.fail("dngname", &desc, &bytes, &format!("reported as {:?} {:?} cleaned {:?} {:?}", img.make, img.model, img.clean_make, img.clean_model)); }
            }
        }));
    }
    v
}
fn main() {
    run_main(Spec::new("C08", "every (make, model or alias, mode) of data/cameras, read from the per-camera files independently of the library; every one-character deletion, substitution, case change and insertion of each key component; every camera name through a DNG file",
        &["where two description files claim the same make, model and mode, either description is accepted"]), jobs)
}
