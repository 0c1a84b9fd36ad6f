//! C19: black level from the masked sensor area; impulse at every sensor position for every camera that has one.
use harness::{camdb::*, dev, run::*};
use rawloader::decoders::{RawImage, RawLoader};
use std::rc::Rc;

fn model(c: &Cam, w: usize, h: usize, data: &[u16]) -> [Option<u16>; 4] {
    let (mut s, mut n) = ([0u64; 4], [0u64; 4]);
    for r in 0..h { for k in 0..w {
        let inh = r >= c.areah.0 && r < c.areah.0 + c.areah.1;
        let inv = k >= c.areav.0 && k < c.areav.0 + c.areav.1;
        // the two areas are measured separately, so their overlap counts for both
        let m = inh as u64 + inv as u64;
        if m > 0 { let x = c.color(r, k); s[x] += m * data[r * w + k] as u64; n[x] += m; }
    } }
    let mut o = [None; 4];
    for i in 0..4 { if n[i] > 0 { o[i] = Some((s[i] / n[i]) as u16); } }
    o
}
fn run(ctx: &mut Ctx, l: &RawLoader, c: &Cam, w: usize, h: usize, data: Vec<u16>, what: &str) {
    let desc = || format!("{} {} mode {:?} {}x{} rows {:?} columns {:?} pattern {}: {}", c.make, c.model, c.mode, w, h, c.areah, c.areav, c.pattern, what);
    ctx.begin(|| (desc(), vec![]));
    ctx.transitions += 1;
    let cam = match l.check_supported_with_everything(&c.make, &c.model, &c.mode) { Ok(x) => x, Err(e) => { ctx.fail("lookup", &desc(), &[], &e); return; } };
    let img = match dev::guard(|| Ok(RawImage::new(cam, w, h, [1.0; 4], data.clone()))) { Ok(i) => i, Err(e) => { ctx.fail("panic", &desc(), &[], &e); return; } };
    ctx.outcome(hash(&img.blacklevels));
    if img.data != data || img.width != w || img.height != h { ctx.fail("data", &desc(), &[], "the samples or the size changed"); }
    if c.areah.1 == 0 && c.areav.1 == 0 {
        if img.blacklevels != c.black { ctx.fail("stored", &desc(), &[], &format!("black levels {:?}, stored {:?}", img.blacklevels, c.black)); }
        return;
    }
    let m = model(c, w, h, &data);
    for k in 0..4 { if let Some(v) = m[k] { if img.blacklevels[k] != v { ctx.fail("mean", &desc(), &[], &format!("black level of colour {} is {}, the masked samples average to {}", k, img.blacklevels[k], v)); return; } } }
}
fn jobs() -> Vec<Job> {
    let db = Db::load();
    let l = Rc::new(RawLoader::new());
    let mut v = Vec::new();
    let mut seen = std::collections::HashSet::new();
    for c in db.all.iter() {
        if db.by[&(c.make.clone(), c.model.clone(), c.mode.clone())].iter().any(|x| x.areah != c.areah || x.areav != c.areav || x.pattern != c.pattern || x.black != c.black) { continue; }
        let masked = c.areah.1 + c.areav.1 > 0;
        let first = seen.insert((c.areah, c.areav, c.pattern.clone()));
        let (c, l) = (c.clone(), l.clone());
        v.push(job(format!("{} {} {}", c.make, c.model, c.mode), move |ctx: &mut Ctx| {
            ctx.states += 1;
            if !masked {
                run(ctx, &l, &c, 4, 4, vec![700; 16], "no masked area");
                run(ctx, &l, &c, 5, 3, (0..15).map(|i| i * 1000).collect(), "no masked area, ramp");
                return;
            }
            let (w0, h0) = ((c.areav.0 + c.areav.1).max(4), (c.areah.0 + c.areah.1).max(if c.areav.1 > 0 { 2 } else { 1 }));
            let sizes = if first { vec![(w0, h0), (w0 + 1, h0 + 1), (w0 + 7, h0 + 3)] } else { vec![(w0 + 1, h0 + 1)] };
            for (si, &(w, h)) in sizes.iter().enumerate() {
                run(ctx, &l, &c, w, h, vec![0; w * h], "all zero");
                run(ctx, &l, &c, w, h, vec![65535; w * h], "all 65535");
                run(ctx, &l, &c, w, h, (0..w * h).map(|i| (i * 7919 % 60013) as u16).collect(), "mixed samples");
                run(ctx, &l, &c, w, h, (0..w * h).map(|i| if c.color(i / w, i % w) == 0 { 100 } else { 1000 + 1000 * c.color(i / w, i % w) as u16 }).collect(), "one value per colour");
                // outside the masked area nothing may count
                run(ctx, &l, &c, w, h, (0..w * h).map(|i| { let (r, k) = (i / w, i % w); if (r >= c.areah.0 && r < c.areah.0 + c.areah.1) || (k >= c.areav.0 && k < c.areav.0 + c.areav.1) { 512 } else { 65535 } }).collect(), "bright outside");
                // lines: an impulse row / column at every position moves the mean by a known amount
                for r in (0..h).filter(|&r| h < 200 || thorough() && r % 7 == 0 || (r + 3 >= c.areah.0 && r <= c.areah.0 + c.areah.1 + 2) && (r % 8 < 2 || r + 3 >= c.areah.0 + c.areah.1) || r < 4 || r % 397 == 0) { run(ctx, &l, &c, w, h, (0..w * h).map(|i| if i / w == r { 65535 } else { 100 }).collect(), &format!("bright row {}", r)); }
                for k in (0..w).filter(|&k| thorough() || (k + 3 >= c.areav.0 && k <= c.areav.0 + c.areav.1 + 2) || k < 4 || k % 97 == 0) {
                    run(ctx, &l, &c, w, h, (0..w * h).map(|i| if i % w == k { 65535 } else { 100 }).collect(), &format!("bright column {}", k));
                }
                // single impulses: every position where one sample is visible in the mean
                if w * h <= q(6000, 200000) && (first && si == 1 || thorough()) { for p in 0..w * h {
                    let (r, k) = (p / w, p % w);
                    let near = (r + 2 >= c.areah.0 && r <= c.areah.0 + c.areah.1 + 1) || (k + 2 >= c.areav.0 && k <= c.areav.0 + c.areav.1 + 1);
                    if !thorough() && !(near && (r < 3 || k < 3 || r + 3 > h || k + 3 > w)) { continue; }
                    let mut d = vec![100u16; w * h]; d[p] = 65535;
                    run(ctx, &l, &c, w, h, d, &format!("impulse at row {} column {}", r, k));
                } }
            }
            // a full-height area: sums beyond 2^24 stay exact
            if first { let (w, h) = (w0, if c.areav.1 > 0 { 4000.max(h0) } else { h0 }); if w * h < 4_000_000 { run(ctx, &l, &c, w, h, vec![1001; w * h], "large area at 1001");
                // one sample per colour below: the mean is just below a whole number
                let mut d = vec![1001u16; w * h]; let mut done = [false; 4];
                for i in 0..w * h { let (r, k) = (i / w, i % w); let x = c.color(r, k); if !done[x] && ((r >= c.areah.0 && r < c.areah.0 + c.areah.1) || (k >= c.areav.0 && k < c.areav.0 + c.areav.1)) { d[i] = 1000; done[x] = true; } }
                run(ctx, &l, &c, w, h, d, "large area just below 1001");
                let mut d = vec![1001u16; w * h]; let mut done = [false; 4];
                for i in (0..w * h).rev() { let (r, k) = (i / w, i % w); let x = c.color(r, k); if !done[x] && ((r >= c.areah.0 && r < c.areah.0 + c.areah.1) || (k >= c.areav.0 && k < c.areav.0 + c.areav.1)) { d[i] = 1002; done[x] = true; } }
                run(ctx, &l, &c, w, h, d, "large area just above 1001");
            } }
        }));
    }
    v
}
fn main() {
    run_main(Spec::new("C19", "every database camera and mode; sizes at and just above the masked area; constant, per-colour, bright-row/bright-column at every line, and single-sample impulses; large areas for summation exactness",
        &["a sample in the overlap of masked rows and masked columns counts once for each of the two areas", "colours that do not occur in the masked area are not judged"]), jobs)
}
