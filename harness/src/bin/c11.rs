//! C11: orientation. All orientations x all small sizes x position-identifying images.
use harness::{dev::*, run::*};
use rawloader::decoders::Orientation;

fn turned<T: PartialEq + Copy + std::fmt::Debug>(ctx: &mut Ctx, kind: &str, o: Orientation, base: &(usize, usize, Vec<T>), got: Result<(usize, usize, Vec<T>), String>, desc: &str) {
    let (w, h) = (base.0, base.1);
    let (gw, gh, d) = match got { Ok(x) => x, Err(e) => { ctx.fail("error", desc, &[], &format!("{} failed: {}", kind, e)); return; } };
    let (ew, eh) = if transposed(o) { (h, w) } else { (w, h) };
    if (gw, gh) != (ew, eh) || d.len() != ew * eh * 3 { ctx.fail("size", desc, &[], &format!("{} gave {}x{} ({} samples), expected {}x{}", kind, gw, gh, d.len(), ew, eh)); return; }
    for r in 0..eh { for c in 0..ew {
        let (sr, sc) = source(o, w, h, r, c);
        ctx.transitions += 1;
        for k in 0..3 {
            let (a, b) = (d[(r * ew + c) * 3 + k], base.2[(sr * w + sc) * 3 + k]);
            if a != b { ctx.fail("pixel", desc, &[], &format!("{}: output ({},{}) channel {} is {:?}, upright image has {:?} at ({},{})", kind, r, c, k, a, b, sr, sc)); return; }
        }
    } }
}
fn grid(sizes: Vec<(usize, usize)>, cfg: (usize, &'static str), crops: [usize; 4], lims: Vec<(usize, usize)>, eight: bool) -> impl Fn(&mut Ctx) {
    move |ctx| for &(w, h) in &sizes {
        let (rw, rh) = (w + crops[1] + crops[3], h + crops[0] + crops[2]);
        let n = rw * rh * cfg.0;
        let mut img = image(rw, rh, cfg.0, cfg.1, (0..n).map(|i| if n <= 8000 { 1500 + (i * 7919 % n) as u16 * (8000 / n.max(1)) as u16 } else { 1500 + (harness::chk::mix(i, n, 5) % 8000) as u16 }).collect());
        img.crops = crops;
        let keep = img.data.clone();
        for &(mw, mh) in &lims { for (oi, &o) in ORIENTS.iter().enumerate() {
            // when the turn swaps the axes the limits apply to the turned image
            let (bw, bh) = if transposed(o) { (mh, mw) } else { (mw, mh) };
            let desc = format!("{}x{} crops {:?} cpp {} cfa {:?} {:?} limits {}x{}", w, h, crops, cfg.0, cfg.1, o, mw, mh);
            ctx.begin(|| (desc.clone(), vec![]));
            ctx.states += 1;
            img.orientation = Orientation::Normal;
            let base = match linear(&img, bw, bh) { Ok(b) => b, Err(e) => { ctx.fail("error", &desc, &[], &e); continue; } };
            img.orientation = o;
            turned(ctx, "to_linear_rgb", o, &base, linear(&img, mw, mh), &desc);
            if eight {
                img.orientation = Orientation::Normal;
                let b8 = match srgb(&img, bw, bh) { Ok(b) => b, Err(e) => { ctx.fail("error", &desc, &[], &e); continue; } };
                let bf = match rgb(&img, bw, bh) { Ok(b) => b, Err(e) => { ctx.fail("error", &desc, &[], &e); continue; } };
                img.orientation = o;
                turned(ctx, "to_srgb", o, &b8, srgb(&img, mw, mh), &desc);
                turned(ctx, "to_rgb", o, &bf, rgb(&img, mw, mh), &desc);
            }
            if img.data != keep { ctx.fail("modified", &desc, &[], "developing changed the raw image"); }
            ctx.outcome(hash(&(w, h, oi, mw, mh)));
        } }
    }
}
fn jobs() -> Vec<Job> {
    let n = q(9, 14);
    let mut v = Vec::new();
    for w in 1..=n {
        let s: Vec<(usize, usize)> = (1..=n).map(|h| (w, h)).collect();
        v.push(job(format!("rgb width {}", w), grid(s.clone(), (3, "RGGB"), [0; 4], vec![(0, 0)], false)));
        v.push(job(format!("bayer width {}", w), grid(s.clone(), (1, "RGGB"), [1, 0, 0, 1], vec![(0, 0), (3, 4), (5, 2), (1, 1), (1, 7)], false)));
        v.push(job(format!("mono width {}", w), grid(s.clone(), (1, ""), [0, 2, 1, 0], vec![(0, 0), (4, 3)], false)));
        v.push(job(format!("rgb scaled width {}", w), grid(s.clone(), (3, ""), [0, 2, 1, 0], vec![(4, 3), (2, 6), (7, 7)], false)));
        let few: Vec<(usize, usize)> = (1..=n).step_by(q(3, 1)).map(|h| (w, h)).collect();
        v.push(job(format!("8-bit width {}", w), grid(few, (3, "RGGB"), [0; 4], vec![(0, 0), (3, 2)], true)));
    }
    for &(w, h) in &[(64usize, 3usize), (3, 64), (65, 33), (1, 500), (500, 1)] { v.push(job(format!("large {}x{}", w, h), grid(vec![(w, h)], (3, "RGGB"), [0; 4], vec![(0, 0), (16, 16)], true))); }
    for &(w, h) in &[(1100usize, 2usize), (2, 1100), (1025, 17), (17, 1025), (2049, 3), (3, 2049), (4200, 1), (1, 4200), (300, 257), (257, 300), (66000, 1), (1, 66000), (33000, 2), (2, 33000)] {
        v.push(job(format!("long {}x{}", w, h), grid(vec![(w, h)], (3, "RGGB"), [0; 4], vec![(0, 0), (w - w / 8, h), (w, h - h / 8)], false)));
        v.push(job(format!("long bayer {}x{}", w, h), grid(vec![(w, h)], (1, "RGGB"), [0, 1, 1, 0], vec![(0, 0), (w, h)], false)));
    }
    v.push(job("orientation codes", |ctx: &mut Ctx| for code in 0..=65535u16 {
        ctx.begin(|| (format!("code {}", code), vec![]));
        ctx.states += 1; ctx.transitions += 1;
        let want = if code >= 1 && code <= 8 { ORIENTS[[0, 1, 2, 3, 4, 5, 6, 7][code as usize - 1]] } else { Orientation::Unknown };
        let got = Orientation::from_u16(code);
        if got != want { ctx.fail("code", &format!("code {}", code), &[], &format!("is {:?}, expected {:?}", got, want)); }
    }));
    // the tag of a file reaches the image and the development
    v.push(job("orientation tag of a file", |ctx: &mut Ctx| for code in (0..=q(300u32, 65535)).chain([0x0100, 0x0600, 0x8000, 65534, 65535].iter().cloned()) {
        let bytes = harness::corpus::dng16(3, 2, &[1000, 2000, 3000, 4000, 5000, 6000], |i| { i.put(0x112, harness::tiffb::V::S(vec![code as u16])); });
        ctx.begin(|| (format!("DNG with orientation {}", code), bytes.clone()));
        ctx.states += 1;
        let want = if code >= 1 && code <= 8 { ORIENTS[code as usize - 1] } else { Orientation::Unknown };
        match ctx.decode(&bytes) {
            Ok(i) => if i.orientation != want { ctx.fail("tag", &format!("orientation tag {}", code), &bytes, &format!("decoded as {:?}, expected {:?}", i.orientation, want)); },
            Err(e) => ctx.fail("tag", &format!("orientation tag {}", code), &bytes, &format!("did not decode: {}", e)),
        }
    }));
    v
}
fn main() {
    run_main(Spec::new("C11", "every size up to NxN (N=9 quick, 14 thorough) and some larger x all orientations x full size and limited x 3-component/Bayer/monochrome x linear/float/8-bit; all 65536 orientation codes",
        &["the limits passed apply to the turned image, as documented, so a turned image is compared with the upright one developed with swapped limits"]), jobs)
}
