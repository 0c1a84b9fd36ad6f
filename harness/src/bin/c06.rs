//! C06: block- and context-coded vendor formats (Sony ARW2, Olympus, Panasonic, Samsung first and third generation) against encoder models.
use harness::{bits::*, camdb::*, chk::*, enc::*, fmt::*, run::*};

// ------------------------------------------------------------------ Sony ARW2
fn arw2_doc(w: usize, rows: &[Vec<Arw2Block>], c: [u16; 4]) -> (Doc, Exp) {
    let t = Curve { t: arw2_curve(c) };
    let (mut by, mut data) = (Vec::new(), Vec::new());
    for r in rows {
        let (b, v) = arw2_row(r);
        assert!(b.len() == w && v.len() == w);
        let mut rnd = b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16;
        // the even and odd columns of each group of 32 are coded one after the other
        let mut o = vec![0u16; w];
        for n in 0..w / 16 { for i in 0..16 { let x = n / 2 * 32 + n % 2 + 2 * i; o[x] = t.get(v[x] as usize, &mut rnd); } }
        by.extend(b);
        data.extend(o);
    }
    let h = rows.len();
    let cam = Db::load().cam("SONY", "SLT-A33", "");
    let count = by.len();
    by.extend([0; 4]);
    let p = ArwP { model: "SLT-A33", w, h, comp: 32767, bps: 8, count, curve: Some(c), rggb: true, lv: [500, 256, 256, 400], key: 0x1234567, orient: 1 };
    (arw(&p, by), Exp::cam(&cam, w, h, data, sony_wb(true, [500, 256, 256, 400])))
}
const LIN: [u16; 4] = [8000, 10400, 12900, 14100];
fn arw2_jobs(v: &mut Vec<Job>) {
    // every pair of extremes: 2048*2049/2 blocks, with the codes spread over all 128 values and all positions
    for part in 0..16usize { v.push(job(format!("Sony blocks: every maximum and minimum, part {}", part), move |ctx: &mut Ctx| {
        let w = 1024;
        let mut rows: Vec<Vec<Arw2Block>> = Vec::new();
        let mut row = Vec::new();
        let mut n = 0usize;
        let curves = [LIN, [0, 0, 0, 0], [16380, 16380, 16380, 16380]];
        let mut flush = |ctx: &mut Ctx, rows: &mut Vec<Vec<Arw2Block>>, n: usize| { if rows.is_empty() { return; } let c = curves[n / 9000 % 3]; let (d, e) = arw2_doc(w, rows, c); check(ctx, &d, &e, &|| format!("Sony blocks up to number {} of part {}", n, part)); rows.clear(); };
        for max in 0..2048u32 { if max as usize % 16 != part { continue; } for min in 0..=max {
            let (imax, imin) = (n % 16, (n + 1 + n / 16 % 15) % 16);
            let mut vv = [0u32; 16];
            for i in 0..16 { vv[i] = (mix(n, i, 1) >> 3) & 127; if n % 5 == 0 { vv[i] = if i & 1 == 0 { 127 } else { 0 }; } }
            row.push(Arw2Block { max, min, imax, imin, v: vv });
            n += 1;
            if row.len() == w / 16 { rows.push(std::mem::take(&mut row)); if rows.len() == 64 { flush(ctx, &mut rows, n); } }
        } }
        flush(ctx, &mut rows, n);
    })); }
    v.push(job("Sony blocks: every position of the extremes and every code", |ctx: &mut Ctx| {
        for (bi, &(max, min)) in [(2047u32, 0u32), (127, 0), (128, 0), (1023, 900), (1500, 400), (2047, 2047), (0, 0)].iter().enumerate() {
            let mut rows = Vec::new();
            for imax in 0..16 { let mut r = Vec::new(); for imin in 0..16 { if imin == imax { continue; } let mut b = [0u32; 16]; for i in 0..16 { b[i] = (imax * 16 + imin + i * 8) as u32 & 127; } r.push(Arw2Block { max, min, imax, imin, v: b }); }
                r.push(Arw2Block { max, min, imax, imin: (imax + 1) % 16, v: [64; 16] }); rows.push(r); }
            let (d, e) = arw2_doc(256, &rows, LIN);
            check(ctx, &d, &e, &|| format!("Sony positions {} {} {}", bi, max, min));
            // every 7-bit code at every position
            let mut rows = Vec::new();
            for base in 0..128u32 { let mut r = Vec::new(); for k in 0..16usize { let mut b = [0u32; 16]; for i in 0..16 { b[i] = (base + (i * 8) as u32) & 127; } r.push(Arw2Block { max, min, imax: k, imin: (k + 5) % 16, v: b }); } rows.push(r); }
            let (d, e) = arw2_doc(256, &rows, LIN);
            check(ctx, &d, &e, &|| format!("Sony codes {} {} {}", bi, max, min));
        }
    }));
    v.push(job("Sony tone curves", |ctx: &mut Ctx| {
        let k: Vec<u16> = q(vec![0, 4, 4096, 8192, 12288, 16380], vec![0, 4, 1000, 4096, 6000, 8192, 10001, 12288, 14002, 16380]);
        let rows: Vec<Vec<Arw2Block>> = (0..64usize).map(|r| (0..4usize).map(|n| { let g = (r * 4 + n) as u32; let base = g * 8; let mut b = [0u32; 16]; for i in 0..16 { b[i] = (i as u32 * 7) & 127; } Arw2Block { max: (base + 7).min(2047), min: base, imax: n, imin: n + 1, v: { for i in 0..16 { b[i] = (i as u32) & 7; } b } } }).collect()).collect();
        for a in 0..k.len() { for b in a..k.len() { for c in b..k.len() { for d in c..k.len() {
            let cv = [k[a], k[b], k[c], k[d]];
            let (doc, e) = arw2_doc(64, &rows, cv);
            check(ctx, &doc, &e, &|| format!("Sony curve {:?}", cv));
        } } } }
    }));
    v.push(job("Sony widths and heights", |ctx: &mut Ctx| {
        for w in (32..=q(320, 1024)).step_by(32) { for h in [1usize, 2, 3, 7, 16, 33] {
            let rows: Vec<Vec<Arw2Block>> = (0..h).map(|r| (0..w / 16).map(|n| { let x = mix(r, n, w); let (a, b) = (x & 2047, x >> 11 & 2047); let mut vv = [0; 16]; for i in 0..16 { vv[i] = mix(r * w + n, i, 3) & 127; } Arw2Block { max: a.max(b), min: a.min(b), imax: (x >> 22 & 15) as usize, imin: ((x >> 22) as usize + 1 + (x >> 26) as usize % 15) & 15, v: vv } }).collect()).collect();
            let (d, e) = arw2_doc(w, &rows, LIN);
            check(ctx, &d, &e, &|| format!("Sony {}x{}", w, h));
        } }
    }));
}

// ------------------------------------------------------------------ Olympus
fn orf_doc(w: usize, h: usize, s: &[u16], b: &Bits) -> Option<(Doc, Exp)> {
    let mut by = vec![0x5a; 7];
    by.extend(b.bytes());
    by.extend([0; 4]);
    if by.len() >= w * h * 12 / 8 { return None; }
    let cam = Db::load().cam("OLYMPUS CORPORATION", "E-M10MarkII", "");
    let n = by.len() as u32;
    Some((orf("OLYMPUS CORPORATION", "E-M10MarkII", w, h, vec![n], by, OrfWb::Img2(450, 380), 1, false), Exp::cam(&cam, w, h, s.to_vec(), orf_wb(&OrfWb::Img2(450, 380)))))
}
/// A calm tail keeps the file smaller than packed samples, which is how the decoder tells the formats apart.
fn orf_case(ctx: &mut Ctx, w: usize, h: usize, top: &[u16], esc: &dyn Fn(usize, usize) -> bool, what: &dyn Fn() -> String) -> bool {
    let th = top.len() / w;
    let mut s = top.to_vec();
    for r in th..h { for c in 0..w { let x = s[(r - 2) * w + c]; s.push(x); } }
    let b = match orf_scan(w, h, &s, esc) { Some(b) => b, None => return false };
    match orf_doc(w, h, &s, &b) { Some((d, e)) => { check(ctx, &d, &e, what); true } None => false }
}
fn orf_jobs(v: &mut Vec<Job>) {
    for (w, th) in [(2usize, 3usize), (4, 3), (6, 4), (4, 5)] { v.push(job(format!("Olympus {}x{}: differences at every position", w, th), move |ctx: &mut Ctx| {
        let alt = [1i64, -1, 5, -37, 30, 70, -130, 700, -1500, 4095];
        let mut skipped = 0u64;
        ctx.explore(q(2, 3), |c, ctx| {
            let mut s: Vec<u16> = Vec::new();
            let start = [2000i64, 0, 4095][c.choose(3)];
            let e = c.dev(w * th + 1);
            for n in 0..w * th {
                let (r, k) = (n / w, n % w);
                let p = if r < 2 && k < 2 { start } else if r < 2 { s[n - 2] as i64 } else { s[n - 2 * w] as i64 };
                let x = c.dev(alt.len() + 1);
                let d = if x == 0 { 0 } else { alt[x - 1] };
                s.push((p + d).max(0).min(4095) as u16);
            }
            let ch = c.choices();
            // many calm rows follow
            if !orf_case(ctx, w, th + 60, &s, &|r, k| e > 0 && r * w + k == e - 1, &|| format!("Olympus {}x{} choices {:?}", w, th, ch)) { skipped += 1; }
        });
        assert!(skipped == 0, "{} cases did not fit", skipped);
    })); }
    // the predictor over all orders and distances of its three neighbours
    for part in 0..8usize { v.push(job(format!("Olympus prediction from three neighbours, part {}", part), move |ctx: &mut Ctx| {
        let base = 1000i64;
        let ds: Vec<i64> = q(vec![-200, -34, -33, -32, -31, -17, -2, -1, 0, 1, 2, 16, 31, 32, 33, 34, 200], (-40..=40).chain(vec![-900, -200, -100, 100, 200, 900]).collect());
        let xs = [-900i64, -100, -33, -1, 0, 1, 2, 3, 40, 100, 1200];
        let mut n = 0usize;
        for &l in &ds { for &u in &ds { n += 1; if n % 8 != part { continue; }
            // rows 0..2 carry nw and u, rows 2..4 carry l and the sample; both parities
            let mut rows: Vec<u16> = Vec::new();
            let w = 4 * xs.len();
            let mut r2 = Vec::new();
            for &x in &xs { rows.extend([base as u16, base as u16, (base + u) as u16, (base + u) as u16]); r2.extend([(base + l) as u16, (base + l) as u16, (base + x).max(0) as u16, (base - x).max(0) as u16]); }
            let mut s = rows.clone(); s.extend(&rows); s.extend(&r2); s.extend(&r2);
            assert!(orf_case(ctx, w, 60, &s, &|_, _| false, &|| format!("Olympus left {} above {}", l, u)));
        } }
    })); }
    v.push(job("Olympus: every difference", |ctx: &mut Ctx| {
        // columns far apart, one jump each, in rows that follow calm rows: every difference from -4095 to 4095
        let w = 64;
        for d0 in (-4095i64..4096).step_by(16) {
            let mut s: Vec<u16> = Vec::new();
            for r in 0..8usize { for k in 0..w { let d = d0 + ((r / 2) * 4 + k / 16) as i64; let v = if d > 0 { if k % 16 >= 8 { d.min(4095) } else { 0 } } else { if k % 16 >= 8 { 0 } else { -d.max(-4095) } }; s.push(v as u16); } }
            for esc in 0..2 { assert!(orf_case(ctx, w, 80, &s, &|r, k| esc == 1 && (r * w + k) % 5 == 0 && r < 8, &|| format!("Olympus jump {} escapes {}", d0, esc))); }
        }
    }));
    v.push(job("Olympus: sizes", |ctx: &mut Ctx| {
        for w in (2..=q(40usize, 80)).step_by(2) { for h in 24..q(40usize, 80) { let s: Vec<u16> = (0..w * 4).map(|n| (mix(n, w, h) & 63) as u16).collect(); if !orf_case(ctx, w, h, &s, &|_, _| false, &|| format!("Olympus {}x{}", w, h)) { panic!("does not fit {}x{}", w, h); } } }
    }));
}

// ------------------------------------------------------------------ Panasonic
fn pana_doc(w: usize, h: usize, split: bool, groups: &[[u8; 16]], data: Vec<u16>, tail: usize) -> (Doc, Exp) {
    let cam = Db::load().cam("Panasonic", "DMC-FZ1000", pana_mode(w, h));
    let mut by = pana_layout(groups, split);
    by.extend(vec![0xee; tail]);
    (rw2("Panasonic", "DMC-FZ1000", w, h, split, by, PanaWb::Rb(500, 400), 1, false), Exp::cam(&cam, w, h, data, pana_wb(&PanaWb::Rb(500, 400))))
}
fn pana_jobs(v: &mut Vec<Job>) {
    // one group, up to k unusual fields
    v.push(job("Panasonic: fields at every position", |ctx: &mut Ctx| {
        let vals = [0u32, 1, 127, 129, 255];
        let (w, h) = (14 * 64, 40);
        let mut batch: Vec<([u8; 16], [u16; 14])> = Vec::new();
        let mut n = 0;
        let mut flush = |ctx: &mut Ctx, b: &mut Vec<([u8; 16], [u16; 14])>, n: usize, split: bool| {
            let pad = b.last().cloned();
            while b.len() < w / 14 * h { b.push(pad.unwrap()); }
            let g: Vec<[u8; 16]> = b.iter().map(|x| x.0).collect();
            let data: Vec<u16> = b.iter().flat_map(|x| x.1.iter().cloned()).collect();
            let (d, e) = pana_doc(w, h, split, &g, data, 4);
            check(ctx, &d, &e, &|| format!("Panasonic groups up to {} split {}", n, split));
        };
        harness::ex::explore(q(3, 4), 50_000_000, |c| {
            let base = c.choose(2);
            let g = pana_group(&mut |_, kind| match kind {
                0 => { let x = c.dev(4); [0u32, 1, 2, 3][x] }
                1 => { let x = c.dev(vals.len() + 1); if x == 0 { if base == 0 { 128 } else { 131 } } else { vals[x - 1] } }
                _ => { let x = c.dev(3); [8u32, 0, 15][x] }
            });
            batch.push(g);
            n += 1;
            if batch.len() == w / 14 * h { flush(ctx, &mut batch, n, true); batch.truncate(w / 14 * h); flush(ctx, &mut batch, n, false); batch.clear(); }
        });
        if !batch.is_empty() { flush(ctx, &mut batch, n, true); flush(ctx, &mut batch, n, false); }
        ctx.states += n as u64;
    }));
    // every value at every position under every shift, from low and high predictors
    for sh in 0..4u32 { v.push(job(format!("Panasonic: every value at every position, shift {}", sh), move |ctx: &mut Ctx| {
        let (w, h) = (14 * 32, 32);
        let mut gs: Vec<([u8; 16], [u16; 14])> = Vec::new();
        for first in [1u32, 8, 30, 128, 200, 255] { for at in 0..14usize { for val in 0..256u32 {
            gs.push(pana_group(&mut |i, k| match k { 0 => sh, 1 => if i == at { val } else if i < 2 { first } else { 128 }, _ => (val + i as u32) & 15 }));
        } } }
        // all zero up to any position, then everything
        for upto in 0..14usize { for val in 0..256u32 { gs.push(pana_group(&mut |i, k| match k { 0 => (val + i as u32) & 3, 1 => if i < upto { 0 } else { val ^ i as u32 }, _ => val & 15 })); } }
        for (n, b) in gs.chunks(w / 14 * h).enumerate() {
            let mut b = b.to_vec();
            while b.len() < w / 14 * h { let x = b[0]; b.push(x); }
            let g: Vec<[u8; 16]> = b.iter().map(|x| x.0).collect();
            let data: Vec<u16> = b.iter().flat_map(|x| x.1.iter().cloned()).collect();
            for split in [false, true] { let (d, e) = pana_doc(w, h, split, &g, data.clone(), 4); check(ctx, &d, &e, &|| format!("Panasonic shift {} batch {} split {}", sh, n, split)); }
        }
    })); }
    // all alignments of rows and row groups with the 16 KiB blocks, and the end of the file
    for split in [false, true] { v.push(job(format!("Panasonic: rows against blocks, split {}", split), move |ctx: &mut Ctx| {
        for k in 1..=q(70usize, 330) { let w = 14 * k; for h in [1usize, 4, 5, 6, 11, 1024 / k, 1024 / k + 1, 2 * 1024 / k + 1, 3 * 1024 / k] { if h == 0 || !split && k * h < 8 { continue; }
            let mut g = Vec::new(); let mut data = Vec::new();
            for n in 0..k * h { let (a, b) = pana_group(&mut |i, kd| match kd { 0 => mix(n, i, 1) & 3, 1 => mix(n, i, 2) & 255, _ => mix(n, i, 3) & 15 }); g.push(a); data.extend(b); }
            for tail in [0usize, 1] {
                // an unsplit file this long would be another format
                let (d, e) = pana_doc(w, h, split, &g, data.clone(), tail);
                check(ctx, &d, &e, &|| format!("Panasonic {}x{} split {} tail {}", w, h, split, tail));
            }
        } }
    })); }
}

// ------------------------------------------------------------------ Samsung, first generation
fn srw1_doc(w: usize, h: usize, rows: &[Bits], mut data: Vec<u16>, order: u8) -> (Doc, Exp) {
    srw1_swap(&mut data, w, h);
    let mut by = vec![0u8; 8];
    let mut off = vec![0u32; h];
    let idx: Vec<usize> = if order == 0 { (0..h).collect() } else { (0..h).rev().collect() };
    for r in idx { off[r] = by.len() as u32; by.extend(rows[r].msb32()); by.extend(vec![0; if order == 2 { 3 } else { 0 }]); }
    by.extend([0; 8]);
    let table: Vec<u8> = off.iter().flat_map(|x| x.to_le_bytes()).collect();
    let cam = Db::load().cam("SAMSUNG", "NX1000", "");
    (srw("NX1000", w, h, 32770, 12, by, Some(table), [500, 256, 256, 400], [0; 4], 1, false), Exp::cam(&cam, w, h, data, srw_wb([500, 256, 256, 400], [0; 4])))
}
fn srw1_jobs(v: &mut Vec<Job>) {
    // every adjustment of every length
    v.push(job("Samsung blocks: every length and adjustment", |ctx: &mut Ctx| {
        for len in 0..16u32 { for up in [false, true] {
            let vals: Vec<i32> = if len == 0 { vec![0] } else { (-(1 << (len - 1))..1 << (len - 1)).collect() };
            let mut at = 0;
            let w = 16 * 64;
            while at < vals.len() {
                let h = 66;
                let mut o = vec![0u16; w * h];
                let mut rows = Vec::new();
                for r in 0..h {
                    let bl: Vec<Srw1Block> = (0..w / 16).map(|n| {
                        let mut adj = [0i32; 16];
                        let first = r < 2;
                        for c in 0..16 { adj[c] = if first { 0 } else { vals[(at + (((r - 2) * 64 + n) * 16 + c)) % vals.len()] }; }
                        Srw1Block { up: up && r >= 2, ops: [if n == 0 || n % 7 == 3 { (3, if first { 0 } else { len }) } else { (0, 0) }; 4], adj }
                    }).collect();
                    rows.push(srw1_row(&mut o, w, r, &bl).expect("fits"));
                }
                let (d, e) = srw1_doc(w, h, &rows, o, 0);
                check(ctx, &d, &e, &|| format!("Samsung blocks length {} up {} from {}", len, up, at));
                at += 64 * 64 * 16;
            }
        } }
    }));
    // lengths change in every way, predictions from everywhere
    for (w, h) in [(16usize, 4usize), (32, 4), (48, 2), (16, 6)] { v.push(job(format!("Samsung blocks {}x{}: lengths, directions and adjustments at every position", w, h), move |ctx: &mut Ctx| {
        let mut skipped = 0u64;
        ctx.explore(q(2, 3), |c, ctx| {
            let order = c.choose(3) as u8;
            let mut o = vec![0u16; w * h];
            let mut rows = Vec::new();
            let mut bad = false;
            for r in 0..h {
                let mut len = [if r < 2 { 7i32 } else { 4 }; 4];
                let bl: Vec<Srw1Block> = (0..w / 16).map(|n| {
                    let up = c.dev(2) == 1;
                    let mut ops = [(0u32, 0u32); 4];
                    for i in 0..4 { let x = c.dev(8); ops[i] = [(0, 0), (1, 0), (2, 0), (3, 0), (3, 1), (3, 9), (3, 12), (3, 15)][x]; match ops[i].0 { 1 => len[i] += 1, 2 => len[i] -= 1, 3 => len[i] = ops[i].1 as i32, _ => {} } }
                    let mut adj = [0i32; 16];
                    for k in 0..16 { let l = len[(k & 1) * 2 + (k >> 3)]; if l > 0 { let m = 1i32 << (l - 1); adj[k] = (mix(r * w + n * 16 + k, w, h) as i32 & (2 * m - 1).min(63)) - m.min(32); if adj[k] < 0 && r < 2 { adj[k] = -adj[k] - 1; } } }
                    let x = c.dev(17); if x > 0 { let l = len[((x - 1) & 1) * 2 + ((x - 1) >> 3)]; if l > 0 { adj[x - 1] = -(1 << (l - 1)); } }
                    Srw1Block { up, ops, adj }
                }).collect();
                match srw1_row(&mut o, w, r, &bl) { Some(b) => rows.push(b), None => { bad = true; break; } }
            }
            if bad { skipped += 1; return; }
            let ch = c.choices();
            let (d, e) = srw1_doc(w, h, &rows, o, order);
            check(ctx, &d, &e, &|| format!("Samsung blocks {}x{} choices {:?}", w, h, ch));
        });
        ctx.sample(format!("{} combinations are not valid files (prediction from above the image)", skipped));
    })); }
    v.push(job("Samsung blocks: sizes", |ctx: &mut Ctx| {
        for w in (16..=q(160usize, 400)).step_by(16) { for h in (2..=q(16usize, 30)).step_by(2) { for order in 0..3u8 {
            let mut o = vec![0u16; w * h];
            let rows: Vec<Bits> = (0..h).map(|r| { let bl: Vec<Srw1Block> = (0..w / 16).map(|n| { let x = mix(r, n, w); let mut adj = [0; 16]; for k in 0..16 { adj[k] = (mix(n, k, r) & 63) as i32 - 16; } Srw1Block { up: r >= 2 && x & 1 == 1, ops: [(3, 7 + (x >> 4 & 7)), (3, 7), (3, 8 + (x >> 8 & 3)), (3, 12)], adj } }).collect(); srw1_row(&mut o, w, r, &bl).expect("fits") }).collect();
            let (d, e) = srw1_doc(w, h, &rows, o, order);
            check(ctx, &d, &e, &|| format!("Samsung blocks {}x{} order {}", w, h, order));
        } } }
    }));
}

// ------------------------------------------------------------------ Samsung, third generation
fn srw3_doc(w: usize, h: usize, head: &Bits, rows: &[Bits], data: Vec<u16>) -> (Doc, Exp) {
    let cam = Db::load().cam("SAMSUNG", "NX1", "");
    (srw("NX1", w, h, 32773, 14, srw3_file(head, rows), None, [500, 256, 256, 400], [0; 4], 1, false), Exp::cam(&cam, w, h, data, srw_wb([500, 256, 256, 400], [0; 4])))
}
fn calm() -> Srw3Block { Srw3Block { scale: (0, 0), motion: None, skip: false, flags: [(0, 0); 4], diff: [0; 16] } }
fn srw3_jobs(v: &mut Vec<Job>) {
    for opt in 0..8u32 { v.push(job(format!("Samsung NX1, flags {}: every length and difference", opt), move |ctx: &mut Ctx| {
        for depth in [12u32, 14] { for len in 0..=depth + 1 {
            let vals: Vec<i32> = if len == 0 { vec![0] } else { (-(1 << (len - 1))..1 << (len - 1)).collect() };
            let w = 16 * 32;
            let h = 34;
            let init = 1 << (depth - 1);
            let mut at = 0;
            while at < vals.len() {
                let head = srw3_head(depth, opt, w, h, init);
                let mut o = vec![0u16; w * h];
                let mut rows = Vec::new();
                for r in 0..h {
                    let bl: Vec<Srw3Block> = (0..w / 16).map(|n| {
                        let mut b = calm();
                        b.flags = [(3, len); 4];
                        for i in 0..16 { b.diff[i] = vals[(at + (r * 32 + n) * 16 + i) % vals.len()]; }
                        if r >= 2 && n > 0 && n < w / 16 - 1 && n % 3 == 0 { b.motion = Some(3); } else { b.motion = Some(7); }
                        b
                    }).collect();
                    rows.push(srw3_row(&mut o, w, r, depth, opt, init, &bl).expect("fits"));
                }
                let (d, e) = srw3_doc(w, h, &head, &rows, o);
                check(ctx, &d, &e, &|| format!("NX1 depth {} flags {} length {} from {}", depth, opt, len, at));
                at += 34 * 32 * 16;
            }
        } }
    })); }
    for opt in 0..8u32 { for (w, h) in [(32usize, 4usize), (80, 3), (144, 3)] { v.push(job(format!("Samsung NX1 {}x{}, flags {}: scales, references, lengths at every position", w, h, opt), move |ctx: &mut Ctx| {
        let mut skipped = 0u64;
        ctx.explore(q(2, 3), |c, ctx| {
            let depth = 14;
            let init = 3000;
            let head = srw3_head(depth, opt, w, h, init);
            let mut o = vec![0u16; w * h];
            let mut rows = Vec::new();
            for r in 0..h {
                let mut bl = Vec::new();
                for n in 0..w / 16 {
                    let mut b = calm();
                    if opt & 4 == 0 && n % 4 == 0 { let x = c.dev(8); b.scale = [(0, 0), (1, 0), (2, 0), (3, 0), (3, 5), (3, 700), (3, 2049), (3, 4095)][x]; }
                    // motions of either definition
                    if opt & 2 != 0 { b.motion = Some(if c.dev(2) == 1 { 3 } else { 7 }); }
                    else { let x = c.dev(9); b.motion = if x == 0 { None } else { Some(x as u32 - 1) }; }
                    if opt & 1 == 0 { b.skip = c.dev(2) == 1; }
                    for i in 0..4 { let x = c.dev(7); b.flags[i] = [(0, 0), (1, 0), (2, 0), (3, 0), (3, 1), (3, 9), (3, 15)][x]; }
                    // small differences that fit every length but the smallest
                    for i in 0..16 { b.diff[i] = if b.skip || b.flags[i / 4] == (3, 0) { 0 } else if b.flags[i / 4] == (3, 1) { -((mix(r, n, i) & 1) as i32) } else { (mix(r * 64 + n, i, 7) & 3) as i32 - 2 }; }
                    bl.push(b);
                }
                // lengths below 2 reached by stepping down make differences not fit
                match srw3_row(&mut o, w, r, depth, opt, init, &bl) { Some(x) => rows.push(x), None => { skipped += 1; return; } }
            }
            let ch = c.choices();
            let (d, e) = srw3_doc(w, h, &head, &rows, o);
            check(ctx, &d, &e, &|| format!("NX1 {}x{} flags {} choices {:?}", w, h, opt, ch));
        });
        ctx.sample(format!("{} combinations are not valid files", skipped));
    })); } }
    v.push(job("Samsung NX1: line ends and sizes", |ctx: &mut Ctx| {
        for w in (16..=q(256usize, 512)).step_by(16) { for h in 1..=q(9usize, 20) {
            let head = srw3_head(14, 0, w, h, 100);
            let mut o = vec![0u16; w * h];
            let rows: Vec<Bits> = (0..h).map(|r| { let bl: Vec<Srw3Block> = (0..w / 16).map(|n| { let x = mix(r, n, w); let mut b = calm(); b.flags = [(3, x & 7), (3, 3 + (x >> 3 & 7)), (3, x >> 6 & 15), (3, 4)]; b.skip = x >> 20 & 7 == 0; for i in 0..16 { let l = if b.skip { 0 } else { b.flags[i / 4].1 }; b.diff[i] = if l == 0 { 0 } else { (mix(n, i, r) & ((1 << l) - 1)) as i32 - (1 << (l - 1)) }; }
                if r >= 2 && n > 0 && n < w / 16 - 1 { b.motion = Some(x >> 12 & 7); } else { b.motion = Some(7); } if n % 4 == 0 { b.scale = (x >> 16 & 3, x >> 24 & 7); } b }).collect(); srw3_row(&mut o, w, r, 14, 0, 100, &bl).expect("fits") }).collect();
            let (d, e) = srw3_doc(w, h, &head, &rows, o);
            check(ctx, &d, &e, &|| format!("NX1 {}x{}", w, h));
        } }
    }));
}

// ------------------------------------------------------------------ sizes of real cameras, and beyond 65535 columns or rows
const BIG: &[(usize, usize)] = &[(4352, 12), (32, 8300), (2400, 1604), (66_016, 4), (32, 66_000), (5280, 3456)];
fn large_jobs(v: &mut Vec<Job>) {
    for &(w, h) in BIG {
        v.push(job(format!("large: Sony blocks {}x{}", w, h), move |ctx: &mut Ctx| {
            ctx.states += 1;
            let w = w / 32 * 32;
            let rows: Vec<Vec<Arw2Block>> = (0..h).map(|r| (0..w / 16).map(|n| { let x = mix(r, n, w); let (a, b) = (x & 2047, x >> 11 & 2047); let mut vv = [0; 16]; for i in 0..16 { vv[i] = mix(r * w + n, i, 3) & 127; } Arw2Block { max: a.max(b), min: a.min(b), imax: (x >> 22 & 15) as usize, imin: ((x >> 22) as usize + 1 + (x >> 26) as usize % 15) & 15, v: vv } }).collect()).collect();
            let (d, e) = arw2_doc(w, &rows, LIN);
            check(ctx, &d, &e, &|| format!("Sony {}x{}", w, h));
        }));
        v.push(job(format!("large: Olympus {}x{}", w, h), move |ctx: &mut Ctx| {
            ctx.states += 1;
            let mut s: Vec<u16> = Vec::with_capacity(w * h);
            for i in 0..w * h { let (r, k) = (i / w, i % w); let p = if r < 2 && k < 2 { 2000 } else if r < 2 { s[i - 2] as i64 } else { s[i - 2 * w] as i64 }; let x = mix(r, k, 3); let d = match x % 40 { 0 => (x >> 10) as i64 % 200 - 100, _ => (x >> 10) as i64 % 9 - 4 }; s.push((p + d).clamp(0, 4095) as u16); }
            let b = orf_scan(w, h, &s, &|r, k| (r * w + k) % 1001 == 500).expect("expressible");
            let (d, e) = orf_doc(w, h, &s, &b).expect("smaller than packed");
            check(ctx, &d, &e, &|| format!("Olympus {}x{}", w, h));
        }));
        if w < 65536 { for split in [false, true] { v.push(job(format!("large: Panasonic {}x{} split {}", w, h, split), move |ctx: &mut Ctx| {
            ctx.states += 1;
            let w = w / 14 * 14; let h = h.min(65_535);
            let (mut g, mut data) = (Vec::new(), Vec::new());
            for n in 0..w / 14 * h { let (a, b) = pana_group(&mut |i, kd| match kd { 0 => mix(n, i, 1) & 3, 1 => mix(n, i, 2) & 255, _ => mix(n, i, 3) & 15 }); g.push(a); data.extend(b); }
            let (d, e) = pana_doc(w, h, split, &g, data, 4);
            check(ctx, &d, &e, &|| format!("Panasonic {}x{} split {}", w, h, split));
        })); } }
        v.push(job(format!("large: Samsung blocks {}x{}", w, h), move |ctx: &mut Ctx| for order in 0..2u8 { if order == 1 && w * h > 1 << 23 && !thorough() { continue; }
            ctx.states += 1;
            let mut o = vec![0u16; w * h];
            let rows: Vec<Bits> = (0..h).map(|r| { let bl: Vec<Srw1Block> = (0..w / 16).map(|n| { let x = mix(r, n, w); let mut adj = [0; 16]; for k in 0..16 { adj[k] = (mix(n, k, r) & 63) as i32 - 31; } Srw1Block { up: r >= 2 && x & 1 == 1, ops: [(3, 7 + (x >> 4 & 7)), (3, 7), (3, 8 + (x >> 8 & 3)), (3, 12)], adj } }).collect(); srw1_row(&mut o, w, r, &bl).expect("fits") }).collect();
            let (d, e) = srw1_doc(w, h, &rows, o, order);
            check(ctx, &d, &e, &|| format!("Samsung blocks {}x{} order {}", w, h, order));
        }));
        for opt in [0u32, 6, 7] { if opt != 0 && w * h > 1 << 23 && !thorough() { continue; } v.push(job(format!("large: Samsung NX1 {}x{} flags {}", w, h, opt), move |ctx: &mut Ctx| {
            ctx.states += 1;
            let head = srw3_head(14, opt, w & 0xffff, h & 0xffff, 3000);
            let mut o = vec![0u16; w * h];
            let rows: Vec<Bits> = (0..h).map(|r| { let bl: Vec<Srw3Block> = (0..w / 16).map(|n| { let x = mix(r, n, w); let mut b = calm(); b.flags = [(3, x & 7), (3, 3 + (x >> 3 & 7)), (3, x >> 6 & 15), (3, 4)]; b.skip = opt & 1 == 0 && x >> 20 & 7 == 0; for i in 0..16 { let l = if b.skip { 0 } else { b.flags[i / 4].1 }; b.diff[i] = if l == 0 { 0 } else { (mix(n, i, r) & ((1 << l) - 1)) as i32 - (1 << (l - 1)) }; }
                b.motion = Some(if r < 2 || n == 0 || n == w / 16 - 1 { 7 } else if opt & 2 != 0 { if x >> 12 & 1 == 0 { 3 } else { 7 } } else { x >> 12 & 7 }); if n % 4 == 0 && opt & 4 == 0 { b.scale = (x >> 16 & 3, x >> 24 & 7); } b }).collect(); srw3_row(&mut o, w, r, 14, opt, 3000, &bl).expect("fits") }).collect();
            let (d, e) = srw3_doc(w, h, &head, &rows, o);
            check(ctx, &d, &e, &|| format!("NX1 {}x{} flags {}", w, h, opt));
        })); }
    }
}

fn jobs() -> Vec<Job> { let mut v = Vec::new(); arw2_jobs(&mut v); orf_jobs(&mut v); pana_jobs(&mut v); srw1_jobs(&mut v); srw3_jobs(&mut v); large_jobs(&mut v); v }
fn main() {
    run_main(Spec::new("C06", "Sony: all maxima x all minima, all positions of the extremes, all codes, monotone curve knots; Olympus: up to 2 (thorough 3) unusual differences at every position with short and long forms, predictor neighbours around every threshold, every difference; Panasonic: up to 3 (thorough 4) unusual fields of a group, every value at every position under every shift, all alignments of rows with 16 KiB blocks, both orders, files that end with the data; Samsung blocks: every length x every adjustment, up to 2 (thorough 3) unusual operations; NX1: all 8 flag sets x every length x every difference, up to 2 (thorough 3) unusual operations; every format at camera sizes and beyond 65535 columns or rows",
        &["Sony blocks whose minimum exceeds their maximum, widths that are not whole blocks, and Samsung references outside the image are not valid files and not claimed", "Olympus files are recognised as compressed by being smaller than packed ones"]), jobs)
}
