//! C04: lossless-JPEG raws: all table shapes, categories, bit alignments, component counts, geometries, slice and tile layouts, against an encoder model.
use harness::{bits::*, camdb::*, fmt::*, lj::*, run::*};
use std::rc::Rc;

fn mix(a: usize, b: usize, s: usize) -> u32 { let mut x = (a as u32).wrapping_mul(0x9E3779B1) ^ (b as u32).wrapping_mul(0x85EBCA6B) ^ (s as u32).wrapping_mul(0xC2B2AE35); x ^= x >> 15; x = x.wrapping_mul(0x2C1B3C6D); x ^= x >> 12; x }
fn check(ctx: &mut Ctx, doc: &Doc, e: &Exp, what: &dyn Fn() -> String) {
    let bytes = doc.bytes();
    ctx.begin(|| (what(), bytes.clone()));
    ctx.transitions += e.data.len() as u64;
    match ctx.decode(&bytes) {
        Err(m) => ctx.fail("err", &what(), &bytes, &format!("decoding failed: {}", m.replace('\n', " "))),
        Ok(i) => { ctx.outcome(hash(&i.data)); if let Err(m) = cmp_data(&i, e) { ctx.fail("sample", &what(), &bytes, &m); } }
    }
}
/// samples from differences (predictor 1), so that the coded differences are exactly `d`
fn undiff(prec: u8, w: usize, cps: usize, d: &[i32]) -> Vec<u16> {
    let n = w * cps;
    let mut o: Vec<u16> = Vec::new();
    for (i, &x) in d.iter().enumerate() {
        let (r, k) = (i / n, i % n);
        let p = if k >= cps { o[i - cps] } else if r > 0 { o[i - n] } else { 1u16 << (prec - 1) };
        o.push(p.wrapping_add(x as u16));
    }
    o
}
/// an encoded frame inside a one-strip DNG
fn dng_strip(lj: &Lj, w: usize, h: usize, frame: &[u16]) -> Option<(Doc, Exp)> {
    let b = lj.encode(frame)?;
    let n = lj.w * lj.cps;
    let mut data = Vec::new();
    for r in 0..h { data.extend_from_slice(&frame[r * n..r * n + w]); }
    Some((dng_lj(w, h, 1, 16, b, false), dng_exp(w, h, 1, data)))
}
/// largest and smallest differences of a category, and some in between
fn extremes(c: u32) -> Vec<i32> { match c { 0 => vec![0], 16 => vec![-32768], n => { let (lo, hi) = (1i32 << (n - 1), (1i32 << n) - 1); let mut v = vec![lo, hi, -lo, -hi, lo + (hi - lo) / 3, -(lo + (hi - lo) * 2 / 3)]; v.sort(); v.dedup(); v } } }

/// every legal table of exactly `n` code words (lengths non-decreasing)
fn shapes(n: usize) -> Vec<Vec<u8>> {
    fn rec(n: usize, from: u8, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if cur.len() == n { if Huff::from(cur.iter().enumerate().map(|(i, &l)| (l, i as u8)).collect()).codes().is_some() { out.push(cur.clone()); } return; }
        for l in from..=16 { cur.push(l); rec(n, l, cur, out); cur.pop(); }
    }
    let mut o = Vec::new();
    rec(n, 1, &mut Vec::new(), &mut o);
    o
}
fn tables() -> Vec<(String, Huff)> {
    let mut v = Vec::new();
    for first in 1..=8u8 { v.push((format!("chain from {}", first), Huff::chain(first, 0))); }
    for l in 5..=16u8 { v.push((format!("flat {}", l), Huff::flat(l))); }
    for rot in 1..17 { v.push((format!("chain from 1 rotated {}", rot), Huff::chain(1, rot))); v.push((format!("chain from 2 rotated {}", rot), Huff::chain(2, rot))); }
    v.retain(|x| x.1.codes().is_some());
    // longest possible: one code of every length
    for rot in 0..16 { v.push((format!("one code per length, rotated {}", rot), Huff::from((0..16u8).map(|i| (i + 1, ((i as usize + rot) % 17) as u8)).collect()))); }
    v.retain(|x| x.1.codes().is_some());
    v
}

fn jobs() -> Vec<Job> {
    let mut v = Vec::new();
    // 1. all table shapes with up to 3 (thorough 4) code words, three assignments of categories
    for n in 1..=q(3usize, 4) {
        let all = Rc::new(shapes(n));
        for part in 0..8 { let all = all.clone(); v.push(job(format!("all Huffman tables with {} codes, part {}", n, part), move |ctx: &mut Ctx| {
            for (si, lens) in all.iter().enumerate() { if si % 8 != part { continue; }
                for cats in [[0u8, 5, 16, 12], [16, 0, 13, 3], [8, 15, 0, 16], [1, 2, 16, 14]] {
                    ctx.states += 1;
                    let t = Huff::from(lens.iter().enumerate().map(|(i, &l)| (l, cats[i])).collect());
                    let ds: Vec<i32> = (0..n).flat_map(|i| extremes(cats[i] as u32)).collect();
                    let (w, h) = (8usize, 5usize);
                    let d: Vec<i32> = (0..w * h).map(|i| ds[(i * 7 + i / 5) % ds.len()]).collect();
                    let lj = Lj::new(16, w / 2, h, 2, t.clone());
                    let f = undiff(16, w / 2, 2, &d);
                    let (doc, e) = dng_strip(&lj, w, h, &f).unwrap();
                    check(ctx, &doc, &e, &|| format!("table {:?}", t));
                }
            }
        })); }
    }
    // 2. every difference value with every table of a family
    for (name, t) in tables() { v.push(job(format!("all differences, table {}", name), move |ctx: &mut Ctx| {
        let codes = t.codes().unwrap();
        let all: Vec<i32> = (-32768..32768).filter(|&d| codes[cat(d) as usize].is_some()).collect();
        for step in q(vec![1usize], vec![1, 3, 7, 11]) {
            ctx.states += all.len() as u64;
            let w = 256;
            let d: Vec<i32> = (0..all.len().next_multiple_of(w)).map(|i| all[(i * step) % all.len()]).collect();
            let lj = Lj::new(16, w / 2, d.len() / w, 2, t.clone());
            let f = undiff(16, w / 2, 2, &d);
            let (doc, e) = dng_strip(&lj, w, d.len() / w, &f).unwrap();
            check(ctx, &doc, &e, &|| format!("{} all differences in steps of {}", t.vals.len(), step));
        }
    })); }
    // 3. every category at every bit alignment, after a prefix of k one-bit codes
    v.push(job("categories at every bit alignment", |ctx: &mut Ctx| {
        for rot in 0..17 { let t = Huff::chain(1, rot); let codes = t.codes().unwrap();
            for c in 0..17u32 { if codes[c as usize].is_none() { continue; } for x in extremes(c) { for k in 0..q(40usize, 72) {
                // the symbol with the 1-bit code, used as filler
                let fill = (0..17u32).find(|&s| codes[s as usize].map_or(false, |y| y.1 == 1)).unwrap();
                if fill != 0 && k >= 34 { continue; }
                ctx.states += 1;
                let fd = extremes(fill)[0];
                let mut d = vec![fd; k]; d.push(x); d.push(-x); d.push(x); if -x == 32768 { d[k + 1] = x; }
                let n = d.len().next_multiple_of(4).max(8); d.resize(n, fd);
                let lj = Lj::new(14, n / 2, 1, 2, t.clone());
                let f = undiff(14, n / 2, 2, &d);
                let (doc, e) = dng_strip(&lj, n, 1, &f).unwrap();
                check(ctx, &doc, &e, &|| format!("rotation {} category {} difference {} after {} fillers", rot, c, x, k));
            } } }
        }
    }));
    // 4. runs of one bits (stuffed bytes) at every alignment and length
    v.push(job("stuffed 0xff bytes", |ctx: &mut Ctx| {
        let t = Huff::from(vec![(1, 0), (2, 15), (3, 14), (4, 8), (5, 16)]);
        for k in 0..64usize { for run in 1..q(6usize, 12) { for c in [8u32, 14, 15] {
            ctx.states += 1;
            let mut d = vec![0; k];
            for _ in 0..run { d.push((1 << c) - 1); }
            let n = d.len().next_multiple_of(2).max(4) + 4; d.resize(n, 0);
            let lj = Lj::new(16, n / 2, 1, 2, t.clone());
            let f = undiff(16, n / 2, 2, &d);
            let (doc, e) = dng_strip(&lj, n, 1, &f).unwrap();
            check(ctx, &doc, &e, &|| format!("{} category {} all-ones differences after {} zero bits", run, c, k));
        } } }
    }));
    // 5. sequences of differences with bounded deviations
    for cps in 2..=4usize { for prec in [12u8, 14, 16] { v.push(job(format!("difference sequences, {} components, {} bits", cps, prec), move |ctx: &mut Ctx| {
        let t = Huff::chain(2, 3);
        ctx.explore(q(2, 3), |ch, ctx| {
            let (fw, h) = (2usize, q(3usize, 3));
            let d: Vec<i32> = (0..fw * cps * h).map(|_| ch.dev_of(&[0, 1, -1, 255, -256, 32767, -32767, -32768])).collect();
            let lj = Lj::new(prec, fw, h, cps, t.clone());
            let f = undiff(prec, fw, cps, &d);
            let (doc, e) = dng_strip(&lj, fw * cps, h, &f).unwrap();
            check(ctx, &doc, &e, &|| format!("{:?}", d));
        });
    })); } }
    // 6. geometry: components, coded frame wider and taller than the image, precision, header variants
    for cps in 2..=4usize { v.push(job(format!("geometry, {} components", cps), move |ctx: &mut Ctx| {
        ctx.explore(1, |ch, ctx| {
            let fw = 1 + ch.choose(q(5, 8));
            let fh = 1 + ch.choose(q(4, 6));
            let dw = ch.choose(q(3 * cps, 4 * cps).min(fw * cps));
            let dh = ch.choose(3.min(fh));
            let (w, h) = (fw * cps - dw, fh - dh);
            let prec = [16u8, 12, 13, 14, 15][ch.dev(5)];
            let hv = ch.dev(9);
            let two = ch.dev(3);
            let mut lj = Lj::new(prec, fw, fh, cps, Huff::chain(2, 0));
            match two {
                1 => { lj.tables = vec![(0, Huff::chain(2, 5)), (1, Huff::flat(6)), (2, Huff::chain(3, 11)), (3, Huff::flat(16))]; lj.sel = (0..cps as u8).collect(); }
                2 => { lj.tables = vec![(3, Huff::chain(1, 2)), (1, Huff::flat(5))]; lj.sel = (0..cps).map(|c| if c % 2 == 0 { 3 } else { 1 }).collect(); }
                _ => {}
            }
            match hv { 1 => lj.one_dht = true, 2 => lj.sof_first = false, 3 => lj.app = true, 4 => lj.ids = vec![0, 1, 2, 3], 5 => lj.ids = vec![0, 64, 128, 192], 6 => { lj.one_dht = true; lj.sof_first = false; } 7 => lj.ids = vec![255, 3, 7, 8],
                8 => { // an earlier table with the same identifier is replaced
                    let id = lj.tables[0].0; lj.tables.insert(0, (id, Huff::flat(9))); }
                _ => {} }
            let f: Vec<u16> = (0..fw * cps * fh).map(|i| (mix(i, 5, fw) & ((1u32 << prec) - 1)) as u16).collect();
            // the first table entry with an identifier is the replaced one
            let enc = if hv == 8 { let mut l2 = lj.clone(); l2.tables.remove(0); let mut o = lj.head(); o.extend(l2.scan(&f).unwrap().jpeg()); o.extend([0xff, 0xd9]); o } else { lj.encode(&f).unwrap() };
            let n = fw * cps;
            let mut data = Vec::new();
            for r in 0..h { data.extend_from_slice(&f[r * n..r * n + w]); }
            check(ctx, &dng_lj(w, h, 1, 16, enc, ch.trace.len() % 2 == 0), &dng_exp(w, h, 1, data), &|| format!("{} components, frame {}x{}, image {}x{}, precision {}, header variant {}, tables {}", cps, fw, fh, w, h, prec, hv, two));
        });
    })); }
    // 7. DNG tiles
    for cps in 2..=4usize { for cpp in [1usize, 3] { if cpp == 3 && cps != 3 { continue; }
        v.push(job(format!("DNG tiles, {} components, {} per pixel", cps, cpp), move |ctx: &mut Ctx| {
            ctx.explore(1, |ch, ctx| {
                let tw = ch.of(&[cps, 2 * cps, 3 * cps]);
                let tw = if cpp == 3 { tw / 3 } else { tw };
                let tl = 1 + ch.choose(3);
                let w = 1 + ch.choose(q(3, 4) * tw);
                let h = 1 + ch.choose(q(7, 9));
                let big = ch.dev(2) == 1;
                let extra = ch.dev(2);
                let (ct, rt) = ((w + tw - 1) / tw, (h + tl - 1) / tl);
                let px = |r: usize, c: usize| (mix(r, c, 9) & 0x3fff) as u16;
                let mut tiles = Vec::new();
                for tr in 0..rt { for tc in 0..ct {
                    // some writers code more lines or columns than the tile has
                    let fw = (tw * cpp) / cps + extra;
                    let lj = Lj::new(14, fw, tl + extra, cps, Huff::chain(2, tr + tc));
                    let f: Vec<u16> = (0..fw * cps * (tl + extra)).map(|i| { let (r, c) = (i / (fw * cps), i % (fw * cps)); if r < tl && c < tw * cpp && tr * tl + r < h && tc * tw * cpp + c < w * cpp { px(tr * tl + r, tc * tw * cpp + c) } else { (mix(r, c, 77) & 0x3fff) as u16 } }).collect();
                    tiles.push(lj.encode(&f).unwrap());
                } }
                let data: Vec<u16> = (0..w * cpp * h).map(|i| px(i / (w * cpp), i % (w * cpp))).collect();
                check(ctx, &dng_tiles(w, h, cpp as u16, 16, tw, tl, tiles, big), &dng_exp(w, h, cpp, data), &|| format!("{}x{} image of {}x{} tiles, {} extra coded", w, h, tw, tl, extra));
            });
        })); } }
    // 8. linear DNG strips
    v.push(job("linear DNG strips", |ctx: &mut Ctx| {
        for w in 1..q(9usize, 20) { for h in 1..q(5usize, 9) { for fw in w..w + 3 {
            ctx.states += 1;
            let lj = Lj::new(16, fw, h, 3, Huff::chain(3, 1));
            let f: Vec<u16> = (0..fw * 3 * h).map(|i| mix(i, 4, w) as u16).collect();
            let mut data = Vec::new();
            for r in 0..h { data.extend_from_slice(&f[r * fw * 3..r * fw * 3 + w * 3]); }
            check(ctx, &dng_lj(w, h, 3, 16, lj.encode(&f).unwrap(), false), &dng_exp(w, h, 3, data), &|| format!("{}x{} of a {} wide frame", w, h, fw));
        } } }
    }));
    let db = Rc::new(Db::load());
    // sizes of real cameras
    for (n, (fw, h, cps)) in [(4144usize, 5usize, 2usize), (2, 8301, 2), (2072, 6, 4), (1736, 1200, 3), (1872, 1200, 2), (32_700, 2, 2), (16_000, 3, 4), (1, 65_535, 2)].iter().cloned().enumerate() { v.push(job(format!("large frames {}", n), move |ctx: &mut Ctx| {
        let w = fw * cps; ctx.states += 1;
        let f: Vec<u16> = (0..w * h).map(|i| (mix(i / w, i % w, n) & 0x3fff) as u16).collect();
        check(ctx, &dng_lj(w, h, 1, 16, Lj::new(14, fw, h, cps, Huff::chain(2, n)).encode(&f).unwrap(), n % 2 == 0), &dng_exp(w, h, 1, f.clone()), &|| format!("a frame of {}x{} with {} components", fw, h, cps));
        if cps == 3 { check(ctx, &dng_lj(fw, h, 3, 16, Lj::new(14, fw, h, cps, Huff::chain(2, n)).encode(&f).unwrap(), n % 2 == 0), &dng_exp(fw, h, 3, f.clone()), &|| format!("a linear frame of {}x{}", fw, h)); }
    })); }
    for (n, (w, h, tw, tl, cpp)) in [(4150usize, 900usize, 256usize, 256usize, 1usize), (700, 500, 16, 16, 1), (8300, 40, 1024, 16, 1), (30, 8300, 16, 256, 1), (900, 700, 256, 128, 3), (66_000, 20, 512, 16, 1), (20, 66_000, 32, 4096, 1)].iter().cloned().enumerate() { v.push(job(format!("large tiled images {}", n), move |ctx: &mut Ctx| {
        ctx.states += 1;
        let px = |r: usize, c: usize| (mix(r, c, 9) & 0x3fff) as u16;
        let cps = if cpp == 3 { 3 } else { 2 };
        let mut tiles = Vec::new();
        for tr in 0..(h + tl - 1) / tl { for tc in 0..(w + tw - 1) / tw {
            let lj = Lj::new(14, tw * cpp / cps, tl, cps, Huff::chain(2, tr + tc));
            tiles.push(lj.encode(&(0..tw * cpp * tl).map(|i| px(tr * tl + i / (tw * cpp), tc * tw * cpp + i % (tw * cpp))).collect::<Vec<_>>()).unwrap());
        } }
        let data: Vec<u16> = (0..w * cpp * h).map(|i| px(i / (w * cpp), i % (w * cpp))).collect();
        check(ctx, &dng_tiles(w, h, cpp as u16, 16, tw, tl, tiles, n % 2 == 0), &dng_exp(w, h, cpp, data), &|| format!("{}x{} image of {}x{} tiles", w, h, tw, tl));
    })); }
    for (n, (model, cps, st, h)) in [("Canon EOS 450D", 2usize, [2usize, 1432, 1430], 900usize), ("Canon EOS 450D", 4, [1, 2800, 2816], 500), ("Canon EOS 450D", 4, [3, 2000, 2288], 60), ("Canon EOS 450D", 2, [0, 0, 3400], 900), ("Canon EOS-1D", 2, [0, 0, 2500], 1662), ("Canon EOS-1DS", 2, [0, 0, 4080], 400), ("Canon EOS 450D", 4, [2, 300, 420], 4000)].iter().cloned().enumerate() { let db = db.clone(); v.push(job(format!("large Canon frames {}", n), move |ctx: &mut Ctx| {
        ctx.states += 1;
        let mut c = db.cam("Canon", model, ""); c.areah = (0, 0); c.areav = (0, 0);
        let total = st[0] * st[1] + st[2];
        let fh = if c.hint("double_line") { h / 2 } else { h };
        let data: Vec<u16> = (0..total * h).map(|i| (mix(i / total, i % total, 3) & 0x3fff) as u16).collect();
        let mut s = Vec::new();
        if st[0] == 0 { s = data.clone(); } else { let mut x = 0; for f in (0..st[0]).map(|_| st[1]).chain(Some(st[2])) { for r in 0..h { s.extend_from_slice(&data[r * total + x..r * total + x + f]); } x += f; } }
        let lj = Lj::new(14, total * h / fh / cps, fh, cps, Huff::chain(2, 0));
        check(ctx, &cr2("Canon", model, Cr2Kind::Id, lj.encode(&s).unwrap(), Some((total, h)), Some([st[0] as u16, st[1] as u16, st[2] as u16]), &Cr2Wb::Color(vec![1024; 200]), None, 0, false), &Exp::cam(&c, total, h, data, [NAN; 4]), &|| format!("{} {}x{} stripes {:?}", model, total, h, st));
    })); }
    // 9. Canon vertical stripes
    for (model, make) in [("Canon EOS 450D", "Canon"), ("Canon EOS-1D", "Canon"), ("Canon EOS-1DS", "Canon")] { for cps in [2usize, 4] {
        let db = db.clone();
        v.push(job(format!("CR2 stripes {} {} components", model, cps), move |ctx: &mut Ctx| {
            let mut c = db.cam(make, model, ""); c.areah = (0, 0); c.areav = (0, 0);
            let dbl = c.hint("double_line");
            ctx.explore(1, |ch, ctx| {
                let n = ch.choose(4);
                let w1 = 1 + ch.choose(q(5, 7));
                let w2 = 1 + ch.choose(q(6, 9));
                let total = n * w1 + w2;
                let h = (1 + ch.choose(q(4, 6))) * if dbl { 2 } else { 1 };
                let fh = if dbl { h / 2 } else { h };
                let fwidth = total * h / fh;
                if fwidth % cps != 0 { return; }
                let kind = ch.dev_of(&[Cr2Kind::Id, Cr2Kind::Cfa, Cr2Kind::Old]);
                let big = ch.dev(2) == 1;
                let absent = n == 0 && ch.dev(2) == 1;
                let data: Vec<u16> = (0..total * h).map(|i| (mix(i / total, i % total, 3) & 0x3fff) as u16).collect();
                let mut s = Vec::new();
                if n == 0 { s = data.clone(); } else {
                    let mut x = 0;
                    for f in (0..n).map(|_| w1).chain(Some(w2)) { for r in 0..h { s.extend_from_slice(&data[r * total + x..r * total + x + f]); } x += f; }
                }
                let lj = Lj::new(14, fwidth / cps, fh, cps, Huff::chain(2, 0));
                let doc = cr2(make, model, kind, lj.encode(&s).unwrap(), if n % 2 == 0 { Some((total, h)) } else { None }, if absent { None } else { Some([n as u16, w1 as u16, w2 as u16]) }, &Cr2Wb::Color(vec![1024; 200]), None, 0, big);
                let e = Exp::cam(&c, total, h, data, [NAN; 4]);
                check(ctx, &doc, &e, &|| format!("stripes {} x {} + {}, {} rows, kind {}", n, w1, w2, h, kind as u8));
            });
        }));
    } }
    // 10. Canon sRAW
    for (model, v2) in [("Canon EOS 450D", false), ("Canon EOS 450D", true), ("Canon EOS 40D", false), ("Canon EOS 40D", true)] {
        let db = db.clone();
        let c0 = db.cam("Canon", model, "");
        let wbo = if c0.wb_offset != 0 { c0.wb_offset } else { 63 };
        let yoff = if c0.hint("40d_yuv") { 512 } else { 0 };
        let mk = Rc::new(move |ctx: &mut Ctx, w: usize, h: usize, yy: &dyn Fn(usize, usize) -> u16, cc: &dyn Fn(usize, usize) -> (u16, u16), stripes: Option<[u16; 3]>, turned: bool, tags: bool, lv: [u16; 4]| {
            let ypg = if v2 { 4 } else { 2 };
            let gh = if v2 { 2 } else { 1 };
            // destination pixels in coding order: field by field, row (pair) by row (pair)
            let mut order: Vec<(usize, usize)> = Vec::new();
            let fields: Vec<usize> = match stripes { Some(s) if s[0] > 0 => { let k = if v2 { 3 } else { 2 }; (0..s[0]).map(|_| s[1] as usize / k).chain(Some(s[2] as usize / k)).collect() } _ => vec![w] };
            let mut x = 0;
            for f in fields { for r in (0..h).step_by(gh) { for c in (x..x + f).step_by(2) { order.push((r, c)); } } x += f; }
            assert!(x == w);
            let (fw, fh) = if turned { (h, w) } else { (w, h) };
            let groups: Vec<(Vec<u16>, u16, u16)> = order.iter().map(|&(r, c)| {
                let ys = if v2 { vec![yy(r, c), yy(r, c + 1), yy(r + 1, c), yy(r + 1, c + 1)] } else { vec![yy(r, c), yy(r, c + 1)] };
                let (cb, cr) = cc(r, c);
                (ys, cb, cr)
            }).collect();
            let rows: Vec<Vec<_>> = groups.chunks(fw / 2).map(|x| x.to_vec()).collect();
            let mut lj = Lj::new(15, fw, fh, 3, Huff::chain(2, 0));
            lj.samp = if v2 { 0x22 } else { 0x21 };
            let mut b = lj.head(); b.extend(sraw(&lj, ypg, &rows).unwrap().jpeg()); b.extend([0xff, 0xd9]);
            let mut data = vec![0u16; w * h * 3];
            for r in 0..h { for c in 0..w { let (cb, cr) = cc(r / gh * gh, c & !1); data[(r * w + c) * 3..][..3].copy_from_slice(&sraw_rgb(yy(r, c), cb, cr, lv, yoff)); } }
            let mut cd = vec![7u16; wbo]; cd.extend(lv); cd.extend([9; 40]);
            let doc = cr2("Canon", model, Cr2Kind::Id, b, if tags { Some((w, h)) } else { None }, stripes, &Cr2Wb::Color(cd), None, 0, false);
            let mut e = Exp::cam(&c0, w, h, data, [NAN; 4]); e.cpp = 3;
            check(ctx, &doc, &e, &|| format!("sRAW {}x{} stripes {:?} turned={} tags={} levels {:?}", w, h, stripes, turned, tags, lv));
        });
        { let mk = mk.clone(); v.push(job(format!("CR2 sRAW geometry {} vertical subsampling={}", model, v2), move |ctx: &mut Ctx| {
            ctx.explore(0, |ch, ctx| {
                let k = if v2 { 3 } else { 2 };
                let n = ch.choose(3);
                // images no narrower than the masked area of the camera
                let least = if yoff > 0 { 4 } else { 0 };
                let w1 = 2 * (1 + least + ch.choose(3)); let w2 = 2 * (1 + least + ch.choose(3));
                let w = n * w1 + w2;
                let h = (1 + ch.choose(q(3, 5))) * 2;
                let turned = ch.flag(); let tags = ch.flag();
                // (a turned frame only occurs with stripes)
                if turned && (h == w || v2 && n == 0) { return; }
                // without size tags the longer side is the width
                if !tags && (if turned { w <= h } else { w < h }) { return; }
                let stripes = if n == 0 && ch.flag() { None } else { Some([n as u16, (w1 * k) as u16, (w2 * k) as u16]) };
                mk(ctx, w, h, &|r, c| (mix(r, c, 1) & 0x3fff) as u16 + 512, &|r, c| ((mix(r, c, 2) & 0x1fff) as u16 + 12000, (mix(r, c, 3) & 0x1fff) as u16 + 12000), stripes, turned, tags, [1024, 1024, 1024, 1024]);
            });
        })); }
        { let mk = mk.clone(); v.push(job(format!("CR2 sRAW large {} vertical subsampling={}", model, v2), move |ctx: &mut Ctx| {
            let k = if v2 { 3 } else { 2 };
            for (w, h, n, w1) in [(2808usize, 600usize, 0usize, 0usize), (1944, 400, 2, 640), (5600, 8, 3, 1400), (400, 3000, 0, 0)].iter().cloned() {
                ctx.states += 1;
                let st = if n == 0 { None } else { Some([n as u16, (w1 * k) as u16, ((w - n * w1) * k) as u16]) };
                mk(ctx, w, h, &|r, c| (mix(r, c, 1) & 0x3fff) as u16 + 512, &|r, c| ((mix(r, c, 2) & 0x1fff) as u16 + 12000, (mix(r, c, 3) & 0x1fff) as u16 + 12000), st, false, true, [1024, 1024, 1024, 1024]);
            }
        })); }
        { let mk = mk.clone(); v.push(job(format!("CR2 sRAW values {} vertical subsampling={}", model, v2), move |ctx: &mut Ctx| {
            for lv in [[1024u16, 1024, 1024, 1024], [2048, 1024, 1024, 1500], [500, 900, 900, 3000], [65535, 1, 1, 65535]] {
                let vals = q(vec![0u16, 1, 511, 512, 513, 8192, 16382, 16383, 16384, 32767], (0..64).map(|i| (i * 520) as u16).chain([1, 511, 512, 513, 16382, 16383, 16384, 32767]).collect::<Vec<_>>());
                let n = vals.len();
                ctx.states += (n * n * n) as u64;
                let (w, h) = (2 * n, 2 * n);
                for k in 0..(n + 1) / 2 {
                    let vv = vals.clone(); let v3 = vals.clone();
                    mk(ctx, w, h, &|r, c| vv[(r % 2 + 2 * k + c % 2 * 3) % n], &|r, c| (v3[c / 2 % n], v3[r / 2 % n]), None, false, true, lv);
                    let vv = vals.clone(); let v3 = vals.clone();
                    mk(ctx, w, h, &|r, c| vv[(r / 2 + c % 2) % n], &|_, c| (v3[c / 2 % n], v3[(k * 2 + c / 2) % n]), None, false, true, lv);
                }
            }
        })); }
    }
    // 11. Canon linearisation table
    for (make, model) in [("Canon", "EOS D2000C"), ("Kodak", "DCS560C")] { let db = db.clone(); v.push(job(format!("CR2 linearisation {}", model), move |ctx: &mut Ctx| {
        let mut c = db.cam(make, model, ""); c.areah = (0, 0); c.areav = (0, 0);
        for shape in 0..5 { for seed in 0..q(4, 16) {
            ctx.states += 1;
            let t: Vec<u16> = (0..4096u32).map(|x| match shape { 0 => x as u16, 1 => (x * 16) as u16, 2 => (x * x / 256) as u16, 3 => if x < 100 { 0 } else { 65535 }, _ => (mix(x as usize, 1, 1) & 0xffff) as u16 }).collect();
            let (w, h) = (64, 64);
            let raw: Vec<u16> = (0..w * h).map(|i| if seed == 0 { i as u16 & 4095 } else { (mix(i, seed, 8) & 4095) as u16 }).collect();
            let cv = Curve { t: t.clone() };
            let mut rnd = raw[0] as u32;
            let data = raw.iter().map(|&x| cv.get(x as usize, &mut rnd)).collect();
            let lj = Lj::new(12, w / 2, h, 2, Huff::chain(2, 0));
            check(ctx, &cr2(make, model, Cr2Kind::Cfa, lj.encode(&raw).unwrap(), None, None, &Cr2Wb::None, Some(&t), 0, seed % 2 == 1), &Exp::cam(&c, w, h, data, [NAN; 4]), &|| format!("table {} set {}", shape, seed));
        } }
    })); }
    // 12. Hasselblad
    let hass = |lj: &Lj, d: &[i32], w: usize| -> Option<(Vec<u8>, Vec<u16>)> {
        let codes = lj.code(0);
        let mut b = Bits::new();
        let mut o = Vec::new();
        for row in d.chunks(w) {
            let mut p = [0x8000u16; 2];
            for g in row.chunks(2) {
                for &x in g { let (c, l) = codes[cat(x) as usize]?; b.put(c, l); }
                for &x in g { let (m, n) = mag(x); b.put(m, n); if cat(x) == 16 { b.put(0x1234, 16); } }
                for i in 0..2 { p[i] = p[i].wrapping_add(g[i] as u16); o.push(p[i]); }
            }
        }
        let mut e = lj.head(); e.extend(b.msb32()); e.extend([0; 8]);
        Some((e, o))
    };
    { let db = db.clone(); v.push(job("Hasselblad: differences", move |ctx: &mut Ctx| {
        let c = db.cam("Hasselblad", "Hasselblad H3D", "");
        for (name, t) in tables() { for step in q(vec![1usize], vec![1, 3, 9]) {
            let codes = t.codes().unwrap();
            let all: Vec<i32> = (-32768..32768).filter(|&d| codes[cat(d) as usize].is_some()).collect();
            ctx.states += all.len() as u64;
            let w = 64;
            let n = all.len().next_multiple_of(w);
            let d: Vec<i32> = (0..n).map(|i| all[i * step % all.len()]).collect();
            let mut lj = Lj::new(16, w, n / w, 1, t.clone()); lj.pred = 8;
            let (e, o) = hass(&lj, &d, w).unwrap();
            check(ctx, &tfr("Hasselblad H3D", w, n / w, e, [(1, 2), (1, 1), (2, 3)], 0, n % 3 == 0), &Exp::cam(&c, w, n / w, o, [NAN; 4]), &|| format!("table {} step {}", name, step));
        } }
    })); }
    { let db = db.clone(); v.push(job("Hasselblad: sequences", move |ctx: &mut Ctx| {
        let c = db.cam("Hasselblad", "Hasselblad H3D", "");
        let t = Huff::chain(2, 3);
        for w in [2usize, 4, 6] { for h in 1..4usize { ctx.explore(2, |ch, ctx| {
            let d: Vec<i32> = (0..w * h).map(|_| ch.dev_of(&[0, 1, -1, 300, -32767, 32767, -32768])).collect();
            let mut lj = Lj::new(16, w, h, 1, t.clone()); lj.pred = 8;
            let (e, o) = hass(&lj, &d, w).unwrap();
            check(ctx, &tfr("Hasselblad H3D", w, h, e, [(1, 2), (1, 1), (2, 3)], 0, false), &Exp::cam(&c, w, h, o, [NAN; 4]), &|| format!("{}x{} {:?}", w, h, d));
        }); } }
    })); }
    { let db = db.clone(); v.push(job("Hasselblad: large", move |ctx: &mut Ctx| {
        let c = db.cam("Hasselblad", "Hasselblad H3D", "");
        for (w, h) in [(7264usize, 300usize), (4, 8000), (60_000, 3)].iter().cloned() {
            ctx.states += 1;
            let d: Vec<i32> = (0..w * h).map(|i| (mix(i, 3, 1) & 0x1ff) as i32 - 256).collect();
            let mut lj = Lj::new(16, w, h, 1, Huff::chain(2, 3)); lj.pred = 8;
            let (e, o) = hass(&lj, &d, w).unwrap();
            check(ctx, &tfr("Hasselblad H3D", w, h, e, [(1, 2), (1, 1), (2, 3)], 0, false), &Exp::cam(&c, w, h, o, [NAN; 4]), &|| format!("Hasselblad {}x{}", w, h));
        }
    })); }
    // 13. Leaf: strips of eight lines, restart at every strip
    let leaf = |t1: &Huff, t2: &Huff, prec: u8, w: usize, h: usize, s: &[u16], bad_ids: bool, sep: usize| -> Vec<u8> {
        let mut lj = Lj::new(prec, w / 2, h, 2, t1.clone());
        lj.tables = vec![(0, t1.clone()), (1, t2.clone())]; lj.sel = vec![0, 1]; lj.bug16 = true;
        lj.ids = vec![0, 1];
        if bad_ids { lj.sos_ids = Some(vec![5, 5]); }
        let mut o = lj.head();
        for (i, st) in s.chunks(w * 8).enumerate() {
            if i > 0 { o.extend([0xff, 0xd0 + (((i - 1) % 8) as u8)]); }
            let mut l2 = lj.clone(); l2.h = st.len() / w;
            o.extend(l2.scan(st).unwrap().jpeg());
            for _ in 0..sep { o.push(0); }
        }
        o.extend([0xff, 0xd9]);
        o
    };
    for model in ["Leaf Aptus 75", "Leaf Aptus-II 12"] { let db = db.clone(); v.push(job(format!("Leaf geometry {}", model), move |ctx: &mut Ctx| {
        let c = db.cam("Leaf", model, "");
        ctx.explore(1, |ch, ctx| {
            let w = 2 * (1 + ch.choose(q(4, 8)));
            let h = 1 + ch.choose(q(26, 42));
            let comp = ch.dev_of(&[99u16, 7]);
            let big = ch.dev(2) == 1;
            let bad = ch.dev(2) == 1;
            let sep = ch.dev(3);
            let prec = ch.dev_of(&[16u8, 12, 14]);
            let s: Vec<u16> = (0..w * h).map(|i| (mix(i / w, i % w, 5) & ((1u32 << prec) - 1)) as u16).collect();
            let b = leaf(&Huff::chain(2, 0), &Huff::flat(5), prec, w, h, &s, bad, sep);
            let mut data = s.clone();
            if c.hint("interlaced") { for r in 0..h { let o = if r % 2 == 1 { h - 1 - r / 2 } else { r / 2 }; data[o * w..(o + 1) * w].copy_from_slice(&s[r * w..(r + 1) * w]); } }
            check(ctx, &mos("Leaf", model, w, h, comp, b, Some([100, 50, 100, 80]), big), &Exp::cam(&c, w, h, data, [NAN; 4]), &|| format!("{}x{} compression {}", w, h, comp));
        });
    })); }
    for model in ["Leaf Aptus 75", "Leaf Aptus-II 12"] { let db = db.clone(); v.push(job(format!("Leaf large {}", model), move |ctx: &mut Ctx| {
        let c = db.cam("Leaf", model, "");
        for (w, h) in [(6726usize, 200usize), (8, 7812), (5, 3000), (30_000, 9)].iter().cloned() { let w = w / 2 * 2;
            ctx.states += 1;
            let s: Vec<u16> = (0..w * h).map(|i| (mix(i / w, i % w, 5) & 0x3fff) as u16).collect();
            let b = leaf(&Huff::chain(2, 0), &Huff::flat(5), 14, w, h, &s, false, 0);
            let mut data = s.clone();
            if c.hint("interlaced") { for r in 0..h { let o = if r % 2 == 1 { h - 1 - r / 2 } else { r / 2 }; data[o * w..(o + 1) * w].copy_from_slice(&s[r * w..(r + 1) * w]); } }
            check(ctx, &mos("Leaf", model, w, h, 99, b, Some([100, 50, 100, 80]), false), &Exp::cam(&c, w, h, data, [NAN; 4]), &|| format!("Leaf {}x{}", w, h));
        }
    })); }
    { let db = db.clone(); v.push(job("Leaf differences", move |ctx: &mut Ctx| {
        let c = db.cam("Leaf", "Leaf Aptus 75", "");
        for (name, t) in tables() { if (0..17).any(|x| t.codes().unwrap()[x].is_none()) { continue; }
            ctx.states += 65536;
            let w = 512;
            // every strip starts from the middle again, so the differences are those of each strip
            let mut s = Vec::new();
            for st in 0..16usize { s.extend(undiff(16, w / 2, 2, &(0..w * 8).map(|i| (i * 16 + st) as u16 as i16 as i32).collect::<Vec<_>>())); }
            let b = leaf(&t, &Huff::chain(1, 4), 16, w, 128, &s, false, 0);
            check(ctx, &mos("Leaf", "Leaf Aptus 75", w, 128, 99, b, None, true), &Exp::cam(&c, w, 128, s, [NAN; 4]), &|| format!("table {}", name));
        }
    })); }
    v
}
fn main() {
    run_main(Spec::new("C04", "every legal Huffman table with up to 3 (thorough 4) code words; 60 tables over all 17 categories with every one of the 65536 differences; every category at every bit alignment; stuffed bytes at every alignment; difference sequences with 2 (3) deviations; all small frame/image/tile/stripe geometries; sRAW value grids; Hasselblad and Leaf variants; frames, tiles, stripes, sRAW, Hasselblad and Leaf images of camera size and beyond 65535 columns or rows",
        &["no point transform, prediction selector 1 (or Hasselblad's own), as raw files have", "marker segments before the frame hold no byte pair that looks like a marker"]), jobs)
}
