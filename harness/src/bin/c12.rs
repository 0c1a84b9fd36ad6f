//! C12: demosaicing and downscaling, decided by impulse responses of the real pipeline at every sensor position.
use harness::{camdb::*, dev::*, run::*};
use rawloader::RawImage;

const LO: u16 = 3000;
const HI: u16 = 9000;
const SPAN: f64 = 0.6;
const TOL: f64 = 0.012;

fn ch_of(rows: [usize; 3], k: usize) -> Option<usize> { rows.iter().position(|&r| r == k) }

/// camera values (per sRGB-row channel) of every output pixel
fn observe(img: &RawImage, mw: usize, mh: usize) -> Result<(usize, usize, Vec<[f64; 3]>), String> {
    let (w, h, d) = linear(img, mw, mh)?;
    if d.len() != w * h * 3 || w == 0 || h == 0 { return Err(format!("{}x{} with {} samples", w, h, d.len())); }
    Ok((w, h, d.chunks(3).map(|p| undevelop([p[0] as f64, p[1] as f64, p[2] as f64])).collect()))
}

/// Full size: forward model, exact up to the precision of the pipeline.
fn full(cfgs: Vec<(usize, usize, [usize; 4])>, cpp: usize, pat: String, rows: [usize; 3]) -> impl Fn(&mut Ctx) {
    move |ctx| for &(w, h, crops) in &cfgs {
        let (rw, rh) = (w + crops[1] + crops[3], h + crops[0] + crops[2]);
        let n = rw * rh * cpp;
        let mut img = image(rw, rh, cpp, &pat, vec![LO; n]);
        img.crops = crops;
        img.xyz_to_cam = ident_matrix(rows);
        let (cx, _) = matrices(&img.xyz_to_cam);
        let mul = multipliers(&img);
        let inv = inv3(RGB_XYZ);
        // impulse at every position (0..n), then uniform, then a full random-free ramp
        // (in long images only at some)
        let at: Vec<usize> = if n <= 3000 { (0..n + 2).collect() } else { vec![0, rw * cpp - 1, n / 2, 65535.min(n - 1), 65536.min(n - 1), n - 1, n, n + 1] };
        let mut last = None;
        for pos in at {
            if let Some(p) = last { img.data[p] = LO; }
            last = if pos < n { Some(pos) } else { None };
            if pos < n { img.data[pos] = HI; }
            if pos == n + 1 { for i in 0..n { img.data[i] = 1000 + (i * 7919 % n * 8000 / n) as u16; } }
            let desc = || format!("{}x{} crops {:?} cpp {} cfa {} {}", rw, rh, crops, cpp, pat, if pos < n { format!("impulse at sample {}", pos) } else if pos == n { "uniform".to_string() } else { "ramp".to_string() });
            ctx.begin(|| (desc(), vec![]));
            ctx.states += 1;
            let (gw, gh, d) = match linear(&img, 0, 0) { Ok(x) => x, Err(e) => { ctx.fail("error", &desc(), &[], &e); continue; } };
            if (gw, gh) != (w, h) || d.len() != w * h * 3 { ctx.fail("size", &desc(), &[], &format!("{}x{} ({} samples)", gw, gh, d.len())); continue; }
            let (_, _, m) = demosaic(&img, &pat);
            for i in 0..w * h {
                ctx.transitions += 1;
                let e = develop(&img, &cx, &mul, &inv, m[i]);
                for k in 0..3 { if !((d[i * 3 + k] as f64 - e[k]).abs() < 2e-3) {
                    ctx.fail("full", &desc(), &[], &format!("pixel row {} column {} channel {} is {}, the model has {} from sensor values {:?}", i / w, i % w, k, d[i * 3 + k], e[k], m[i]));
                } }
            }
            ctx.outcome(hash(&d.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
        }
    }
}

/// Scaled: every weight lies between what the wholly covered and what all touched pixels would give.
fn scaled(cfgs: Vec<(usize, usize, [usize; 4], usize, usize)>, cpp: usize, pat: String, rows: [usize; 3]) -> impl Fn(&mut Ctx) {
    move |ctx| for &(w, h, crops, mw, mh) in &cfgs {
        if w <= mw && h <= mh { continue; }
        let (rw, rh) = (w + crops[1] + crops[3], h + crops[0] + crops[2]);
        let n = rw * rh * cpp;
        let mut img = image(rw, rh, cpp, &pat, vec![LO; n]);
        img.crops = crops;
        img.xyz_to_cam = ident_matrix(rows);
        let desc0 = format!("{}x{} crops {:?} cpp {} cfa {} limits {}x{}", rw, rh, crops, cpp, pat, mw, mh);
        ctx.begin(|| (desc0.clone(), vec![]));
        let (ow, oh, base) = match observe(&img, mw, mh) { Ok(x) => x, Err(e) => { ctx.fail("error", &desc0, &[], &e); continue; } };
        if ow > w || oh > h { ctx.fail("size", &desc0, &[], &format!("{}x{} from {}x{}", ow, oh, w, h)); continue; }
        // pixels touched by each output pixel: (wholly covered, touched incl. one pixel of rounding slack)
        let span = |i: usize, n: usize, len: usize| {
            let (a, b) = (i as f64 * len as f64 / n as f64, (i + 1) as f64 * len as f64 / n as f64);
            let whole = ((a - 1e-6).ceil() as usize, (b + 1e-6).floor() as usize);
            let touch = ((a - 1e-4).floor().max(0.0) as usize, ((b + 1e-4).ceil() as usize).min(len));
            (whole, touch)
        };
        let rspan: Vec<_> = (0..oh).map(|i| span(i, oh, h)).collect();
        let cspan: Vec<_> = (0..ow).map(|i| span(i, ow, w)).collect();
        // whether the sensor is averaged directly, or demosaiced first and then averaged
        let cell = match pat_size(&pat).0 { 6 => 3.0, 12 => 12.0, _ => 2.0 };
        let ratio = (w as f64 / mw as f64).max(h as f64 / mh as f64);
        let mosaic = cpp == 1 && !pat.is_empty();
        let near = (ratio - cell).abs() < 1e-5;
        let direct = mosaic && ratio >= cell;
        let color = |r: usize, c: usize| pat_color(&pat, r + crops[0], c + crops[3]);
        // kernels d_p(s) of pixel p for channel k as list of (sensor position in crop, weight)
        let kern = |r: usize, c: usize, k: usize, direct: bool| -> Vec<((usize, usize), f64)> {
            if !mosaic || (!direct && color(r, c) == k) { return vec![((r, c), 1.0)]; }
            if direct { return if color(r, c) == k { vec![((r, c), 1.0)] } else { vec![] }; }
            let mut v = Vec::new();
            for y in r.saturating_sub(1)..h.min(r + 2) { for x in c.saturating_sub(1)..w.min(c + 2) { if color(y, x) == k { v.push(((y, x), 0.0)); } } }
            let m = v.len() as f64;
            for e in v.iter_mut() { e.1 = 1.0 / m; }
            v
        };
        // uniform stays uniform, where every pixel can know the colour; weight bounds per method
        type B = std::collections::HashMap<(usize, usize, usize), (f64, f64)>;
        let mut compute = |direct: bool, ctx: &mut Ctx| -> Vec<B> {
            let mut bounds: Vec<B> = vec![Default::default(); ow * oh];
            for r in 0..oh { for c in 0..ow {
                let (rw_, rt) = rspan[r];
                let (cw_, ct) = cspan[c];
                for k in 0..3 {
                    let chan = rows[k];
                    // number of pixels that enter the average of this channel
                    let counts = |a: (usize, usize), b: (usize, usize)| -> f64 { let mut n = 0.0; for y in a.0..a.1 { for x in b.0..b.1 { if !direct || color(y, x) == chan { n += 1.0; } } } n };
                    let (nw, nt) = (counts(rw_, cw_), counts(rt, ct));
                    let mut known = true;
                    for y in rt.0..rt.1 { for x in ct.0..ct.1 { if !direct && kern(y, x, chan, false).is_empty() { known = false; } } }
                    if known && nw > 0.0 {
                        let v = base[r * ow + c][k];
                        if (v - 0.3).abs() > TOL { ctx.fail("uniform", &desc0, &[], &format!("uniform sensor at 0.3 gives {:.4} at output row {} column {} channel {}", v, r, c, k)); }
                    }
                    let (wmin, wmax) = (1.0 / nt.max(1.0), if nw > 0.0 { 1.0 / nw } else { 1.0 });
                    for y in rt.0..rt.1 { for x in ct.0..ct.1 {
                        let whole = y >= rw_.0 && y < rw_.1 && x >= cw_.0 && x < cw_.1;
                        for ((sy, sx), d) in kern(y, x, chan, direct) {
                            let e = bounds[r * ow + c].entry((sy, sx, k)).or_insert((0.0, 0.0));
                            if whole { e.0 += wmin * d; }
                            e.1 += wmax * d;
                        }
                    } }
                }
            } }
            bounds
        };
        let mut bounds = compute(direct, ctx);
        if near && mosaic {
            // exactly at the switch-over ratio either method may be used
            let other = compute(!direct, ctx);
            for (b, o) in bounds.iter_mut().zip(other) {
                for e in b.iter_mut() { if !o.contains_key(e.0) { (e.1).0 = 0.0; } }
                for (k, v) in o { let had = b.contains_key(&k); let e = b.entry(k).or_insert((0.0, 0.0)); e.0 = if had { e.0.min(v.0) } else { 0.0 }; e.1 = e.1.max(v.1); }
            }
        }
        for pos in 0..n {
            img.data[pos] = HI;
            let desc = || format!("{} impulse at sample {}", desc0, pos);
            ctx.begin(|| (desc(), vec![]));
            ctx.states += 1;
            let (gw, gh, o) = match observe(&img, mw, mh) { Ok(x) => x, Err(e) => { ctx.fail("error", &desc(), &[], &e); continue; } };
            if (gw, gh) != (ow, oh) { ctx.fail("size", &desc(), &[], "the output size depends on the samples"); continue; }
            let (pr, pc, pk) = (pos / cpp / rw, pos / cpp % rw, pos % cpp);
            let inside = pr >= crops[0] && pr < crops[0] + h && pc >= crops[3] && pc < crops[3] + w;
            // channels this sample may feed
            let chans: Vec<usize> = if cpp == 3 { vec![pk] } else if pat.is_empty() { vec![0, 1, 2] } else { ch_of(rows, pat_color(&pat, pr, pc)).into_iter().collect() };
            for i in 0..ow * oh { for k in 0..3 {
                ctx.transitions += 1;
                let wgt = (o[i][k] - base[i][k]) / SPAN;
                let (mut lo, mut hi) = (0.0, 0.0);
                if inside && chans.contains(&k) { if let Some(b) = bounds[i].get(&(pr - crops[0], pc - crops[3], k)) { lo = b.0; hi = b.1; } }
                if wgt < lo - TOL || wgt > hi + TOL {
                    ctx.fail("weight", &desc(), &[], &format!("its weight in output row {} column {} channel {} is {:.4}, must be within [{:.4},{:.4}] for the covered area", i / ow, i % ow, k, wgt, lo, hi));
                }
            } }
            ctx.outcome(hash(&o.iter().map(|p| ((p[0] * 1000.0) as i64, (p[1] * 1000.0) as i64, (p[2] * 1000.0) as i64)).collect::<Vec<_>>()));
            img.data[pos] = LO;
        }
    }
}
fn jobs() -> Vec<Job> {
    let db = Db::load();
    let mut pats: Vec<String> = db.all.iter().map(|c| c.pattern.clone()).filter(|p| !p.is_empty()).collect();
    pats.sort(); pats.dedup();
    let mut v = Vec::new();
    let crops = q(vec![[0, 0, 0, 0], [1, 0, 0, 0], [0, 1, 2, 1], [3, 2, 1, 2]], vec![[0, 0, 0, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 1, 2, 1], [3, 2, 1, 2], [5, 0, 2, 7]]);
    let nmax = q(6, 9);
    let mut variants: Vec<(usize, String, [usize; 3])> = Vec::new();
    for p in &pats { variants.push((1, p.clone(), [0, 1, 2])); if p.contains('E') { variants.push((1, p.clone(), [0, 1, 3])); } }
    variants.push((1, "".into(), [0, 1, 2])); variants.push((3, "".into(), [0, 1, 2])); variants.push((3, "RGGB".into(), [0, 1, 2]));
    for (cpp, p, rows) in variants {
        for &cr in &crops {
            let mut cf = Vec::new();
            for w in 1..=nmax { for h in 1..=nmax { if thorough() || (w + h) % 2 == 0 || w < 4 { cf.push((w, h, cr)); } } }
            cf.push((13, 3, cr));
            v.push(job(format!("full size cpp {} {} rows {:?} crops {:?}", cpp, p, rows, cr), full(cf, cpp, p.clone(), rows)));
            let (cw, _) = pat_size(&p);
            let mut sc = Vec::new();
            let sizes: Vec<(usize, usize)> = if cw == 6 { q(vec![(7, 6), (12, 9), (4, 7)], vec![(7, 6), (12, 9), (4, 7), (13, 11), (6, 6), (9, 16)]) } else { q(vec![(4, 4), (5, 7), (9, 6), (8, 3)], vec![(4, 4), (5, 7), (9, 6), (8, 3), (10, 10), (7, 11), (3, 9), (12, 5)]) };
            for &(w, h) in &sizes {
                let lims = q(vec![1usize, 2, 3, 4, 5], (1..=9).collect());
                for &l in &lims {
                    if l < w.max(h) { sc.push((w, h, cr, l, l)); sc.push((w, h, cr, l, 100)); sc.push((w, h, cr, 100, l)); }
                }
            }
            sc.dedup();
            for (i, ch) in sc.chunks(q(24, 16)).enumerate() { v.push(job(format!("scaled cpp {} {} rows {:?} crops {:?} part {}", cpp, p, rows, cr, i), scaled(ch.to_vec(), cpp, p.clone(), rows))); }
        }
    }
    // a pattern that repeats only every 12 pixels: the whole block is one cell
    let wide: String = (0..144).map(|i| { let (r, c) = (i / 12, i % 12); ["RGRGGB", "GBGRBG", "GRBGGR"][(r * 5 + c / 2) % 3].as_bytes()[(c + r / 3) % 6] as char }).collect();
    for (w, h, mw, mh, cr) in [(26usize, 24usize, 4usize, 4usize, [0usize, 0, 0, 0]), (26, 24, 2, 2, [0, 0, 0, 0]), (14, 25, 9, 9, [1, 0, 2, 3])] {
        v.push(job(format!("pattern of 12x12: {}x{} limits {}x{} crops {:?}", w, h, mw, mh, cr), scaled(vec![(w, h, cr, mw, mh)], 1, wide.clone(), [0, 1, 2])));
    }
    for &(w, h) in &[(1030usize, 9usize), (9, 1030), (4100, 2), (2, 4100), (66000, 2), (2, 66000)] { for (cpp, p) in [(1usize, "RGGB"), (3, ""), (1, "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG")] {
        v.push(job(format!("long {}x{} cpp {} {} at full size", w, h, cpp, p), full(vec![(w, h, [0, 0, 0, 0]), (w - 1, h - 1, [1, 0, 0, 1])], cpp, p.to_string(), [0, 1, 2])));
    } }
    v.push(job("pattern of 12x12 at full size", full(vec![(14, 13, [0, 0, 0, 0]), (13, 5, [3, 2, 1, 2])], 1, wide.clone(), [0, 1, 2])));
    // a larger image, so that ratios are far from whole numbers
    for (cpp, p) in [(1usize, "RGGB"), (3, "RGGB"), (1, ""), (1, "GBGGRGRGRBGBGBGGRGGRGGBGBGBRGRGRGGBG")].iter() {
        for &(w, h, mw, mh) in q(&[(31usize, 17usize, 7usize, 7usize), (17, 30, 11, 11)][..], &[(31, 17, 7, 7), (17, 30, 11, 11), (31, 31, 13, 29), (40, 23, 9, 9), (23, 40, 19, 39)][..]) {
            v.push(job(format!("larger {}x{} cpp {} {} limits {}x{}", w, h, cpp, p, mw, mh), scaled(vec![(w, h, [0, 0, 0, 0], mw, mh)], *cpp, p.to_string(), [0, 1, 2])));
        }
    }
    v
}
fn main() {
    run_main(Spec::new("C12", "impulse at every sensor position, plus uniform and ramp images, for every database pattern (and monochrome, 3-component), every size up to NxN (6 quick, 9 thorough), several crops, and limits from 1 up; weights recovered by inverting the (verified) colour pipeline",
        &["weights are resolved to 0.012", "partially covered samples may have any weight up to that of a wholly covered one", "a colour that does not occur in the 3x3 neighbourhood or covered area stays 0"]), jobs)
}
