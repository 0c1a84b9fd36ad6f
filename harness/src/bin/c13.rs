//! C13: tone and colour conversion against an f64 model of the pipeline.
use harness::{camdb::*, dev::*, run::*};
use rawloader::RawImage;

fn compare(ctx: &mut Ctx, img: &RawImage, pat: &str, what: &str) {
    let desc = || format!("{}: {}", what, describe(img));
    ctx.begin(|| (desc(), vec![]));
    ctx.states += 1;
    let (cx, _) = matrices(&img.xyz_to_cam);
    let mul = multipliers(img);
    let inv = inv3(RGB_XYZ);
    let (w, h, m) = demosaic(img, pat);
    let lin = match linear(img, 0, 0) { Ok(x) => x, Err(e) => { ctx.fail("error", &desc(), &[], &e); return; } };
    let gam = match rgb(img, 0, 0) { Ok(x) => x, Err(e) => { ctx.fail("error", &desc(), &[], &e); return; } };
    let bit = match srgb(img, 0, 0) { Ok(x) => x, Err(e) => { ctx.fail("error", &desc(), &[], &e); return; } };
    if lin.2.len() != w * h * 3 || gam.2.len() != w * h * 3 || bit.2.len() != w * h * 3 { ctx.fail("size", &desc(), &[], "wrong number of samples"); return; }
    // how much the matrix amplifies rounding
    let amp = cx.iter().flat_map(|r| r.iter()).fold(1.0f64, |a, &x| a.max(x.abs()));
    // once more with the library's own matrix and neutral white balance (checked by themselves elsewhere), leaving room for rounding only
    let (lcx, lmul) = match guard(|| Ok((img.cam_to_xyz(), img.neutralwb()))) { Ok((c, n)) => {
        let mut x = [[0.0f64; 4]; 3]; for i in 0..3 { for j in 0..4 { x[i][j] = c[i][j] as f64; } }
        let mut alt = img.clone(); if !(img.cpp == 1 && img.cfa.width == 0) && img.wb_coeffs[0..3].iter().any(|x| !x.is_normal()) { alt.wb_coeffs = n; }
        // (multipliers() falls back again where the neutral ones are unusable)
        (x, if alt.wb_coeffs[0..3].iter().any(|x| !x.is_normal()) { mul } else { multipliers(&alt) })
    }, Err(e) => { ctx.fail("error", &desc(), &[], &e); return; } };
    for i in 0..w * h {
        let e = develop(img, &cx, &mul, &inv, m[i]);
        let (e2, slack) = develop_exact(img, &lcx, &lmul, &inv, m[i]);
        for k in 0..3 {
            ctx.transitions += 1;
            let l = lin.2[i * 3 + k];
            let tol = 8e-4 * amp * (1.0 + e[k].abs());
            if !((l as f64 - e[k]).abs() <= tol) { ctx.fail("linear", &desc(), &[], &format!("to_linear_rgb pixel {} channel {} is {}, the model has {} from {:?}", i, k, l, e[k], m[i])); return; }
            let tol = 1.2 * slack[k] + 2e-6;
            if e2[k].is_finite() && !((l as f64 - e2[k]).abs() <= tol) { ctx.fail("precision", &desc(), &[], &format!("to_linear_rgb pixel {} channel {} is {}, the model has {} (to within {}) from {:?}", i, k, l, e2[k], tol, m[i])); return; }
            let g = gam.2[i * 3 + k];
            if !(g >= 0.0 && g <= 1.0) { ctx.fail("range", &desc(), &[], &format!("to_rgb pixel {} channel {} is {}", i, k, g)); return; }
            let eg = gamma(l as f64);
            let (lo, hi) = (gamma(l as f64 - 1.6e-5) - 2e-6, gamma(l as f64 + 1.6e-5) + 2e-6);
            if !(g as f64 >= lo && g as f64 <= hi) { ctx.fail("gamma", &desc(), &[], &format!("to_rgb pixel {} channel {} is {}, gamma of the linear value {} is {}", i, k, g, l, eg)); return; }
            let b = bit.2[i * 3 + k];
            let x = g as f64 * 255.0;
            if !(b as f64 <= x + 1e-3 && b as f64 > x - 1.0 - 1e-3) { ctx.fail("8bit", &desc(), &[], &format!("to_srgb pixel {} channel {} is {}, the float value times 255 is {}", i, k, b, x)); return; }
        }
    }
    ctx.outcome(hash(&bit.2));
}
/// an image with one pixel per value triple
fn triples(vals: &[u16]) -> (usize, usize, Vec<u16>) {
    let n = vals.len();
    let mut d = Vec::new();
    for &r in vals { for &g in vals { for &b in vals { d.extend_from_slice(&[r, g, b]); } } }
    (n * n, n, d)
}
/// a 2x2 cell of constant colours; every pixel of the developed image knows all of them
fn cell(pat: &str, v: [u16; 4]) -> Vec<u16> { (0..4).map(|i| v[pat_color(pat, i / 2, i % 2)]).collect() }

fn wbs() -> Vec<[f32; 4]> {
    let n = std::f32::NAN;
    vec![[1.0; 4], [2.0, 1.0, 1.5, n], [500.0, 256.0, 400.0, 300.0], [0.4, 1.0, 0.3, 1.0], [n; 4], [0.0, 1.0, 1.0, 1.0], [1.0, 0.0, 1.0, 1.0], [1.0, 1.0, n, 1.0], [1.0, 2.0, 1.0, 0.0], [std::f32::INFINITY, 1.0, 1.0, 1.0], [1e-40, 1.0, 1.0, 1.0], [3.0, 1.5, 2.0, 0.5]]
}
fn levels() -> Vec<([u16; 4], [u16; 4])> {
    vec![([0; 4], [10000; 4]), ([512; 4], [16383; 4]), ([100, 200, 300, 400], [4000, 5000, 6000, 7000]), ([0; 4], [65535; 4]), ([1023, 0, 1, 2], [1024 * 3, 1000, 2000, 3000]), ([0; 4], [1; 4])]
}
fn jobs() -> Vec<Job> {
    let db = Db::load();
    let mut mats: Vec<(String, [[f32; 3]; 4], String)> = Vec::new();
    for c in &db.all { if !mats.iter().any(|m| m.1 == c.matrix) { mats.push((format!("{} {}", c.clean_make, c.clean_model), c.matrix, c.pattern.clone())); } }
    let mut v = Vec::new();
    let grid = q(vec![0u16, 90, 700, 2500, 6000, 10000], vec![0, 1, 30, 90, 250, 700, 1500, 2500, 4000, 6000, 8000, 9999, 10000, 12000, 65535]);
    // every matrix of the database
    for (ci, ch) in mats.chunks(q(20, 4)).enumerate() {
        let (ch, grid) = (ch.to_vec(), grid.clone());
        v.push(job(format!("database matrices {}", ci), move |ctx: &mut Ctx| for (name, m, pat) in &ch {
            let (w, h, d) = triples(&grid);
            let mut img = image(w, h, 3, "RGGB", d);
            img.xyz_to_cam = *m;
            for wb in q(vec![wbs()[1], wbs()[4]], wbs()) { img.wb_coeffs = wb; compare(ctx, &img, "RGGB", name); }
            // the fourth colour
            if pat.len() == 4 && pat.contains('E') { for (i, &a) in grid.iter().enumerate() { for &e in &grid { for wb in wbs() {
                let mut img = image(2, 2, 1, pat, cell(pat, [a, grid[(i + 1) % grid.len()], 5000, e]));
                img.xyz_to_cam = *m; img.wb_coeffs = wb;
                compare(ctx, &img, pat, name);
            } } } }
        }));
        // public matrix and neutral white balance
        let ch = mats.chunks(q(20, 4)).nth(ci).unwrap().to_vec();
        v.push(job(format!("matrix inversion {}", ci), move |ctx: &mut Ctx| for (name, m, pat) in &ch {
            let mut img = image(1, 1, 1, pat, vec![0]);
            img.xyz_to_cam = *m;
            ctx.begin(|| (name.clone(), vec![]));
            ctx.states += 1;
            let (cx, nw) = matrices(m);
            let (got, gw) = match guard(|| Ok((img.cam_to_xyz(), img.neutralwb()))) { Ok(x) => x, Err(e) => { ctx.fail("error", name, &[], &e); continue; } };
            let amp = cx.iter().flat_map(|r| r.iter()).fold(1.0f64, |a, &x| a.max(x.abs()));
            for i in 0..3 { for j in 0..4 { ctx.transitions += 1; if !((got[i][j] as f64 - cx[i][j]).abs() < 2e-4 * amp) { ctx.fail("cam_to_xyz", name, &[], &format!("cam_to_xyz[{}][{}] is {}, expected {}", i, j, got[i][j], cx[i][j])); } } }
            for i in 0..4 { let e = nw[i] / nw[1]; if e.is_finite() && !((gw[i] as f64 - e).abs() < 1e-4 * e.abs().max(1.0)) { ctx.fail("neutralwb", name, &[], &format!("neutralwb[{}] is {}, expected {}", i, gw[i], e)); } }
        }));
        // neutral greys stay neutral and monotone
        let ch = mats.chunks(q(20, 4)).nth(ci).unwrap().to_vec();
        v.push(job(format!("neutral greys {}", ci), move |ctx: &mut Ctx| for (name, m, pat) in &ch {
            let four = pat.contains('E');
            let steps = q(60usize, 400);
            for given in 0..2 {
                let (_, nw) = matrices(m);
                let wb: [f64; 4] = if given == 0 { [nw[0] / nw[1], 1.0, nw[2] / nw[1], if four { nw[3] / nw[1] } else { 1.0 }] } else { [2.1, 1.0, 1.4, 1.2] };
                if given == 0 && wb.iter().any(|x| !x.is_finite() || *x <= 0.0) { continue; }
                let mut data = Vec::new();
                let p2 = if four { pat.as_str() } else { "RGGB" };
                if p2.len() != 4 { continue; }
                let wmax = wb.iter().cloned().fold(0.0, f64::max);
                let wmin = wb.iter().cloned().fold(9e9, f64::min);
                // sensor values 60000 at white for the least amplified channel
                let val = |s: usize, k: usize| ((s as f64 / steps as f64) * 60000.0 * wmin / wb[k]).round() as u16;
                let _ = wmax;
                let mut imgs = Vec::new();
                if four { for s in 0..=steps { imgs.push(image(2, 2, 1, p2, cell(p2, [val(s, 0), val(s, 1), val(s, 2), val(s, 3)]))); } }
                else { for s in 0..=steps { for k in 0..3 { data.push(val(s, k)); } } imgs.push(image(steps + 1, 1, 3, "RGGB", data)); }
                let mut last = [-1.0f32; 3];
                for mut img in imgs {
                    img.xyz_to_cam = *m;
                    img.whitelevels = [60000; 4];
                    img.wb_coeffs = if given == 0 { [std::f32::NAN; 4] } else { [wb[0] as f32, wb[1] as f32, wb[2] as f32, wb[3] as f32] };
                    let desc = || format!("{} neutral greys, wb {:?} {}", name, wb, describe(&img));
                    ctx.begin(|| (desc(), vec![]));
                    ctx.states += 1;
                    for kind in 0..2 {
                        let o = match if kind == 0 { linear(&img, 0, 0) } else { rgb(&img, 0, 0) } { Ok(o) => o, Err(e) => { ctx.fail("error", &desc(), &[], &e); return; } };
                        if o.2.len() != img.width * img.height * 3 { ctx.fail("size", &desc(), &[], "wrong number of samples"); return; }
                        if !four || kind == 1 { if !four { last = [-1.0; 3]; } }
                        for p in o.2.chunks(3) {
                            ctx.transitions += 1;
                            let (a, b) = (p.iter().cloned().fold(f32::MIN, f32::max), p.iter().cloned().fold(f32::MAX, f32::min));
                            if !(a - b <= if kind == 0 { 0.012 } else { 0.02 }) { ctx.fail("neutral", &desc(), &[], &format!("a neutral grey develops to {:?}", p)); return; }
                            if kind == 1 || !four { for k in 0..3 { if p[k] < last[k] - 2e-3 { ctx.fail("monotone", &desc(), &[], &format!("a brighter grey develops to {:?} after {:?}", p, last)); return; } } last = [p[0], p[1], p[2]]; }
                        }
                    }
                }
            }
        }));
    }
    // levels x white balances
    for (li, (b, wl)) in levels().into_iter().enumerate() {
        v.push(job(format!("levels {}", li), move |ctx: &mut Ctx| {
            let top = wl.iter().cloned().max().unwrap() as u32;
            let mut vals: Vec<u16> = vec![0, 1, 99, 100, 101, 512, 1023, 1024, 65535];
            for k in 0..q(3u32, 12) { vals.push((top * (k + 1) / q(3, 12)) as u16); }
            for &x in wl.iter().chain(b.iter()) { vals.push(x); }
            vals.sort(); vals.dedup();
            let (w, h, d) = triples(&vals);
            for wb in wbs() {
                let mut img = image(w, h, 3, "RGGB", d.clone());
                img.blacklevels = b; img.whitelevels = wl; img.wb_coeffs = wb;
                compare(ctx, &img, "RGGB", "levels");
                for &a in &vals {
                    let mut img = image(2, 2, 1, "RGEB", cell("RGEB", [a, vals[0], top as u16, a / 2]));
                    img.blacklevels = b; img.whitelevels = wl; img.wb_coeffs = wb;
                    img.xyz_to_cam[3] = [0.3, 0.9, 0.2];
                    compare(ctx, &img, "RGEB", "levels, four colours");
                }
            }
            // monochrome ignores the white balance
            for wb in wbs() {
                let mut img = image(vals.len(), 1, 1, "", vals.clone());
                img.blacklevels = b; img.whitelevels = wl; img.wb_coeffs = wb;
                compare(ctx, &img, "", "monochrome");
            }
        }));
    }
    // every combination of ordinary and unusable multipliers in the four channels
    let dm: Vec<_> = mats.iter().take(2).cloned().collect();
    for (name, m, _) in dm { v.push(job(format!("usable and unusable multipliers, {}", name), move |ctx: &mut Ctx| {
        let kinds = [2.5f32, 0.8, std::f32::NAN, 0.0, std::f32::INFINITY, 1e-40, std::f32::NEG_INFINITY];
        let n = kinds.len();
        for c in 0..n * n * n * n {
            let wb = [kinds[c % n], kinds[c / n % n], kinds[c / n / n % n], kinds[c / n / n / n]];
            let (w, h, d) = triples(&[500, 7000]);
            let mut img = image(w, h, 3, "RGGB", d);
            img.xyz_to_cam = m; img.wb_coeffs = wb;
            compare(ctx, &img, "RGGB", &name);
            let mut img = image(2, 2, 1, "RGEB", cell("RGEB", [900, 3000, 2000, 4000]));
            img.xyz_to_cam = m; img.xyz_to_cam[3] = [0.3, 0.9, 0.2]; img.wb_coeffs = wb;
            compare(ctx, &img, "RGEB", &name);
        }
    })); }
    // matrices no camera of the database has: every combination of rows, sums of either sign, a fourth row or none
    v.push(job("matrices over a grid of rows", |ctx: &mut Ctx| {
        let rows: Vec<[f64; 3]> = q(vec![[1.0, 0.0, 0.0], [0.04, 0.9, 0.06], [0.06, 0.2, 0.74], [0.6, 0.5, -0.1], [0.02, 1.28, -0.3], [-0.2, 0.4, 0.8], [0.0, 0.0, 1.0]],
            vec![[1.0, 0.0, 0.0], [0.04, 0.9, 0.06], [0.06, 0.2, 0.74], [0.6, 0.5, -0.1], [0.02, 1.28, -0.3], [-0.2, 0.4, 0.8], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [0.33, 0.33, 0.34], [1.4, -0.3, -0.1], [0.01, 0.01, 0.98], [0.5, 0.0, 0.5]]);
        let sums = [1.0f64, -0.7, 0.05, 3.0];
        let inv = inv3(RGB_XYZ);
        let n = rows.len();
        for a in 0..n { for b in 0..n { for c in 0..n { for d in 0..=n { for t in 0..sums.len() * sums.len() {
            let s = [sums[t % 4], sums[t / 4], sums[(t + t / 4 + 1) % 4], sums[(t / 4 + a) % 4]];
            let mut m = [[0.0f32; 3]; 4];
            for (i, r) in [a, b, c, d].iter().enumerate() { if *r < n { for j in 0..3 { m[i][j] = (0..3).map(|k| rows[*r][k] * s[i] * inv[k][j]).sum::<f64>() as f32; } } }
            let (cx, nw) = matrices(&m);
            let amp = cx.iter().flat_map(|r| r.iter()).fold(1.0f64, |a, &x| a.max(x.abs()));
            // (nearly) singular ones are not claimed: the rows must span the space well, whatever their sums
            let rn: Vec<[f64; 3]> = [a, b, c, d].iter().filter(|r| **r < n).map(|r| rows[*r]).collect();
            let mut g = [[0.0f64; 3]; 3];
            for r in &rn { for i in 0..3 { for j in 0..3 { g[i][j] += r[i] * r[j]; } } }
            let det = g[0][0] * (g[1][1] * g[2][2] - g[1][2] * g[2][1]) - g[0][1] * (g[1][0] * g[2][2] - g[1][2] * g[2][0]) + g[0][2] * (g[1][0] * g[2][1] - g[1][1] * g[2][0]);
            if !(det > 1e-4) || !(amp < 40.0) { continue; }
            let mut img = image(1, 1, 1, "RGGB", vec![0]);
            img.xyz_to_cam = m;
            let desc = || format!("xyz_to_cam {:?}", m);
            ctx.begin(|| (desc(), vec![]));
            ctx.states += 1;
            let (got, gw) = match guard(|| Ok((img.cam_to_xyz(), img.neutralwb()))) { Ok(x) => x, Err(e) => { ctx.fail("error", &desc(), &[], &e); continue; } };
            for i in 0..3 { for j in 0..4 { ctx.transitions += 1; if !((got[i][j] as f64 - cx[i][j]).abs() < 2e-4 * amp * amp) { ctx.fail("cam_to_xyz", &desc(), &[], &format!("cam_to_xyz[{}][{}] is {}, expected {}", i, j, got[i][j], cx[i][j])); } } }
            for i in 0..4 { let e = nw[i] / nw[1]; if e.is_finite() && e.abs() < 1e4 && !((gw[i] as f64 - e).abs() < 1e-4 * e.abs().max(1.0)) { ctx.fail("neutralwb", &desc(), &[], &format!("neutralwb[{}] is {}, expected {}", i, gw[i], e)); } }
            if t % 5 == 0 && amp < 8.0 {
                let (w, h, d) = triples(&[90, 2500, 9000]);
                let mut img = image(w, h, 3, "RGGB", d);
                img.xyz_to_cam = m; img.wb_coeffs = [2.0, 1.0, 1.5, f32::NAN];
                compare(ctx, &img, "RGGB", "matrix grid");
            }
        } } } } }
    }));
    // a dense ramp: the whole curve and gamma range
    v.push(job("dense ramp", |ctx: &mut Ctx| {
        let n = q(4000usize, 60000);
        let mut d = Vec::new();
        for i in 0..n { let x = (i * 65535 / n) as u16; d.extend_from_slice(&[x, x, x]); d.extend_from_slice(&[x, 30000, 65535 - x]); }
        let mut img = image(2 * n, 1, 3, "RGGB", d);
        img.whitelevels = [65000; 4];
        compare(ctx, &img, "RGGB", "dense ramp");
    }));
    v
}
fn main() {
    run_main(Spec::new("C13", "every distinct colour matrix of the database x a grid of value triples x white balances (including the non-normal ones that fall back) x black/white levels; grey ramps per matrix; a dense ramp over the whole 16-bit range; matrix inversion and neutral white balance per matrix",
        &["compared to within the precision of single floats and of cube roots and gamma values looked up with 16 bits (their effect is computed for every pixel, with the library's own matrix; with an independently computed matrix 8e-4 relative to the matrix gain; 8-bit truncation exact)", "matrices outside the database: a grid of rows, with the nearly singular ones (gain of 40 or more) left out"]), jobs)
}
