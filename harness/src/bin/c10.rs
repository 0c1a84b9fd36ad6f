//! C10: size of developed images, over an exhaustive grid of raw sizes, crops, orientations and limits.
use harness::{dev::*, run::*};

fn check(ctx: &mut Ctx, kind: &str, got: Result<(usize, usize, usize), String>, w: usize, h: usize, mw: usize, mh: usize, desc: &str) {
    ctx.transitions += 1;
    let (gw, gh, n) = match got { Ok(x) => x, Err(e) => { ctx.fail("error", desc, &[], &format!("{} failed: {}", kind, e)); return; } };
    ctx.outcome(hash(&(w, h, gw, gh)));
    if gw == 0 || gh == 0 { ctx.fail("empty", desc, &[], &format!("{} gave an empty image {}x{}", kind, gw, gh)); return; }
    if n != gw * gh * 3 { ctx.fail("samples", desc, &[], &format!("{} gave {} samples for {}x{}", kind, n, gw, gh)); return; }
    if gw > w || gh > h { ctx.fail("upscaled", desc, &[], &format!("{} gave {}x{} from {}x{}", kind, gw, gh, w, h)); return; }
    if mw == 0 || mh == 0 || (w <= mw && h <= mh) {
        if (gw, gh) != (w, h) { ctx.fail("full", desc, &[], &format!("{} gave {}x{} but nothing limits it below {}x{}", kind, gw, gh, w, h)); }
        return;
    }
    if gw > mw || gh > mh { ctx.fail("box", desc, &[], &format!("{} gave {}x{} for limits {}x{} of {}x{}", kind, gw, gh, mw, mh, w, h)); return; }
    if gw != mw && gh != mh { ctx.fail("touch", desc, &[], &format!("{} gave {}x{}, touching neither limit of {}x{} for {}x{}", kind, gw, gh, mw, mh, w, h)); return; }
    // the binding limit and the exact other dimension
    let (lim, other, exact) = if (w as u64) * (mh as u64) > (h as u64) * (mw as u64) { ((gw, mw), gh, h as f64 * mw as f64 / w as f64) } else { ((gh, mh), gw, w as f64 * mh as f64 / h as f64) };
    if lim.0 != lim.1 && (w * mh != h * mw) { ctx.fail("binding", desc, &[], &format!("{} gave {}x{} for limits {}x{} of {}x{}: the tighter limit is not used", kind, gw, gh, mw, mh, w, h)); return; }
    if (other as f64 - exact).abs() > 1.0001 { ctx.fail("aspect", desc, &[], &format!("{} gave {}x{} for limits {}x{} of {}x{}: the aspect ratio wants {:.3}", kind, gw, gh, mw, mh, w, h, exact)); }
}

fn grid(sizes: Vec<(usize, usize)>, lims: Vec<usize>, orients: Vec<usize>, kinds: u8, cfg: (usize, &'static str), crops: [usize; 4]) -> impl Fn(&mut Ctx) {
    move |ctx| for &(w, h) in &sizes {
        let (rw, rh) = (w + crops[1] + crops[3], h + crops[0] + crops[2]);
        let mut img = image(rw, rh, cfg.0, cfg.1, (0..rw * rh * cfg.0).map(|i| (i * 37 % 9000) as u16 + 500).collect());
        img.crops = crops;
        for &o in &orients {
            img.orientation = ORIENTS[o];
            let (tw, th) = if transposed(ORIENTS[o]) { (h, w) } else { (w, h) };
            ctx.states += 1;
            for &mw in &lims { for &mh in &lims {
                let desc = format!("{}x{} raw {}x{} crops {:?} cpp {} cfa {:?} {:?} limits {}x{}", w, h, rw, rh, crops, cfg.0, cfg.1, ORIENTS[o], mw, mh);
                ctx.begin(|| (desc.clone(), vec![]));
                if kinds & 1 != 0 { check(ctx, "to_linear_rgb", linear(&img, mw, mh).map(|r| (r.0, r.1, r.2.len())), tw, th, mw, mh, &desc); }
                if kinds & 2 != 0 { check(ctx, "to_rgb", rgb(&img, mw, mh).map(|r| (r.0, r.1, r.2.len())), tw, th, mw, mh, &desc); }
                if kinds & 4 != 0 { check(ctx, "to_srgb", srgb(&img, mw, mh).map(|r| (r.0, r.1, r.2.len())), tw, th, mw, mh, &desc); }
            } }
        }
    }
}
const XT: &str = "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG";
const P12: &str = "RGBGRGBGRGBGGBGRGBGRGBGRBGRGBGRGBGRGGRGBGRGBGRGBRGBGRGBGRGBGGBGRGBGRGBGRBGRGBGRGBGRGGRGBGRGBGRGBRGBGRGBGRGBGGBGRGBGRGBGRBGRGBGRGBGRGGRGBGRGBGRGB";
fn jobs() -> Vec<Job> {
    let n = q(10, 16);
    let lims: Vec<usize> = (0..=n + 2).collect();
    let all: Vec<usize> = (0..9).collect();
    let mut v = Vec::new();
    for w in 1..=n {
        let s: Vec<(usize, usize)> = (1..=n).map(|h| (w, h)).collect();
        v.push(job(format!("bayer width {}", w), grid(s.clone(), lims.clone(), q(vec![0, 5, 8], all.clone()), 1, (1, "RGGB"), [0; 4])));
        v.push(job(format!("bayer cropped width {}", w), grid(s.clone(), lims.clone(), q(vec![0, 4], all.clone()), 1, (1, "GBRG"), [1, 2, 3, 1])));
        v.push(job(format!("rgb width {}", w), grid(s.clone(), lims.clone(), q(vec![0, 7], all.clone()), 1, (3, "RGGB"), [2, 0, 1, 3])));
        v.push(job(format!("mono width {}", w), grid(s.clone(), lims.clone(), vec![0, 6], 1, (1, ""), [0, 1, 0, 0])));
        v.push(job(format!("rgbe width {}", w), grid(s.clone(), lims.clone(), vec![0], 1, (1, "RGEB"), [0; 4])));
        v.push(job(format!("linear rgb width {}", w), grid(s.clone(), lims.clone(), vec![0], 1, (3, ""), [0; 4])));
        // all three functions, all orientations, a few sizes
        let few: Vec<(usize, usize)> = (1..=n).step_by(q(4, 1)).map(|h| (w, h)).collect();
        v.push(job(format!("8-bit and float width {}", w), grid(few, vec![0, 1, 2, 3, 5, 8], all.clone(), 6, (1, "RGGB"), [0, 1, 1, 0])));
    }
    // patterns with larger cells, around their scaling thresholds
    for w in (1..=q(26, 40)).step_by(q(3, 1)) {
        let s: Vec<(usize, usize)> = [1usize, 2, 5, 6, 7, 11, 12, 13, 24, 25, 37].iter().map(|&h| (w, h)).collect();
        let l: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 23, 24, 25, 26, 40];
        v.push(job(format!("x-trans width {}", w), grid(s.clone(), l.clone(), vec![0, 5], 1, (1, XT), [0, 0, 0, 0])));
        v.push(job(format!("12x12 width {}", w), grid(s.clone(), l.clone(), vec![0], 1, (1, P12), [0, 0, 0, 0])));
        v.push(job(format!("2x8 width {}", w), grid(s.clone(), l.clone(), vec![0], 1, (1, "EBGRBERGEBRGBEGR"), [1, 0, 0, 1])));
    }
    // extreme aspect ratios and realistic limits
    for &(w, h) in &[(1usize, 3000usize), (3000, 1), (2, 1999), (1999, 2), (601, 7), (7, 601), (120, 90), (97, 89)] {
        v.push(job(format!("extreme {}x{}", w, h), grid(vec![(w, h)], vec![0, 1, 2, 3, 7, 8, 10, 31, 60, 89, 90, 96, 97, 98, 119, 120, 121, 600, 601, 602, 1998, 3000, 100000, 1 << 33], vec![0, 5], 1, (1, "RGGB"), [0; 4])));
    }
    // long images with limits close to their length, where the two scales differ least
    for &n in &[1000usize, 4096, 10000, 20001, 66000] { for &m in &[1usize, 2, 3, 5] { for turn in [false, true] {
        let s = if turn { (m, n) } else { (n, m) };
        let l = vec![0, 1, m.saturating_sub(1), m, m + 1, n / 3, n / 2 + 1, n - n / 100, n - 7, n - 2, n - 1, n, n + 1];
        v.push(job(format!("long {}x{}", s.0, s.1), grid(vec![s], l, q(vec![0, 5], all.clone()), 1, (1, if m % 2 == 0 { "RGGB" } else { "" }), [0; 4])));
    } } }
    for &(w, h) in &[(1201usize, 901usize), (899, 1200)] { v.push(job(format!("camera-like {}x{}", w, h), grid(vec![(w, h)], vec![0, 1, 300, 599, 600, 601, w - 1, w, h - 1, h, 5000], q(vec![5], vec![0, 5]), 1, (1, "RGGB"), [0, 1, 1, 0]))); }
    v
}
fn main() {
    run_main(Spec::new("C10", "every raw size up to NxN (N=10 quick, 16 thorough) x every pair of limits 0..N+2 x orientations x Bayer/RGBE/X-Trans/2x8/12x12/monochrome/3-component x crops, extreme aspect ratios, all three output functions",
        &["crops that leave no pixels are a precondition violation and are not explored", "aspect ratio is required to within one output pixel"]), jobs)
}
