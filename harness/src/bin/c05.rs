//! C05: Huffman- and difference-coded vendor formats: every code word and magnitude, every predictor position, tables, curves and container variants, against encoder models.
use harness::{bits::*, camdb::*, chk::*, enc::*, fmt::*, run::*};
use std::rc::Rc;

// ------------------------------------------------------------------ Nikon
#[derive(Clone, Debug)]
struct Nef { bps: u16, v0: u8, v1: u8, split: usize, init: [u16; 4], csize: usize, curve: Vec<u16>, two: bool, big: bool, mbig: bool }
impl Nef {
    fn tree(&self) -> usize { (if self.v0 == 70 { 2 } else { 0 }) + if self.bps == 14 { 3 } else { 0 } }
    fn meta(&self) -> Vec<u8> {
        let p = |v: u16| if self.mbig { v.to_be_bytes() } else { v.to_le_bytes() };
        let mut o = vec![self.v0, self.v1];
        if self.v0 == 73 || self.v1 == 88 { o.extend(vec![0xa5; 2110]); }
        for x in self.init { o.extend(p(x)); }
        o.extend(p(self.csize as u16));
        for &x in &self.curve { o.extend(p(x)); }
        if self.v0 == 68 && self.v1 == 32 { assert!(o.len() <= 562); o.resize(562, 0x33); o.extend(p(self.split as u16)); }
        o.extend([0x5a; 6]);
        o
    }
    /// the whole lookup curve
    fn table(&self) -> Vec<u16> {
        let max = (1usize << self.bps) & 0x7fff;
        if self.v0 == 68 && self.v1 == 32 && self.csize > 1 {
            let step = max / (self.csize - 1);
            assert!(step * (self.csize - 1) == max);
            (0..max).map(|i| { let (a, f) = (i / step, i % step); ((self.curve[a] as usize * (step - f) + self.curve[a + 1] as usize * f) / step) as u16 }).collect()
        } else if self.v0 != 70 && self.csize <= 0x4001 { self.curve.clone() }
        else { (0..max).map(|i| i as u16).collect() }
    }
    fn doc(&self, w: usize, h: usize, bits: &Bits, vals: &[i32]) -> Option<(Doc, Exp)> {
        let t = Curve { t: self.table() };
        if vals.iter().any(|&v| v >= t.t.len() as i32) { return None; }
        let mut by = bits.bytes();
        by.extend([0; 8]);
        let mut count = by.len();
        // the two sizes that would mean something else
        while count == w * h * self.bps as usize / 8 || count == w * h * 3 { count += 1; by.push(0); }
        let mut rnd = first24(bits);
        let data: Vec<u16> = vals.iter().map(|&v| t.get(v.max(0) as usize, &mut rnd)).collect();
        let wb = NefWb::Plain([(3, 2), (5, 4)]);
        let c = Db::load().cam("NIKON CORPORATION", "NIKON D300", if self.bps == 14 { "14bit" } else { "12bit" });
        Some((nef("NIKON D300", w, h, 34713, self.bps, count, by, Some((self.two, self.meta())), &wb, 1, self.big, self.mbig), Exp::cam(&c, w, h, data, nef_wb(&wb))))
    }
}
fn base_nef(bps: u16) -> Nef { Nef { bps, v0: 70, v1: 48, split: 0, init: [0; 4], csize: 0, curve: vec![], two: true, big: false, mbig: true } }
/// every token of a table with its difference, sorted by difference
fn all_toks(t: usize) -> Vec<(i32, Tok)> {
    let mut v = Vec::new();
    for (i, c) in nef_codes(t).iter().enumerate() { for b in 0..1u32 << nef_extra(c.2) { v.push((nef_diff(c.2, b), Tok { i, b })); } }
    v
}
struct TokWalk { want: Vec<(i32, Tok)>, at: usize, hi: i32, sorted: Vec<(i32, Tok)>, moves: usize }
impl TokWalk {
    fn new(want: Vec<(i32, Tok)>, table: usize, hi: i32) -> TokWalk { let mut s = all_toks(table); s.sort_by_key(|x| x.0); s.dedup_by_key(|x| x.0); TokWalk { want, at: 0, hi, sorted: s, moves: 0 } }
    /// a token that moves from p as close to goal as one token can without leaving the range
    fn toward(&self, p: i32, goal: i32) -> Tok {
        let d = goal - p;
        let k = self.sorted.partition_point(|x| x.0 <= d);
        let lo = if k > 0 { Some(self.sorted[k - 1]) } else { None };
        let up = self.sorted.get(k).cloned();
        let best = [lo, up].iter().filter_map(|x| *x).filter(|x| p + x.0 >= 0 && p + x.0 <= self.hi).min_by_key(|x| (x.0 - d).abs());
        best.map(|x| x.1).unwrap_or(self.sorted.iter().find(|x| x.0 == 0).unwrap().1)
    }
    fn next(&mut self, p: i32) -> Tok {
        if self.at >= self.want.len() { return self.sorted.iter().find(|x| x.0 == 0).unwrap().1; }
        let (d, t) = self.want[self.at];
        if p + d >= 0 && p + d <= self.hi { self.at += 1; self.moves = 0; return t; }
        self.moves += 1;
        if self.moves > 40 { self.at += 1; self.moves = 0; }
        self.toward(p, if d > 0 { 0 } else { self.hi })
    }
}
fn nef_jobs(v: &mut Vec<Job>) {
    // 1. every code word with every value of its bits: all six tables, each in many bit alignments
    for (bps, v0, second) in [(12u16, 68u8, false), (12, 68, true), (12, 70, false), (14, 68, false), (14, 68, true), (14, 70, false)] {
        for rot in 0..q(2usize, 8) { v.push(job(format!("Nikon {}-bit, version {}, after split {}: every code word and value, alignment {}", bps, v0, second, rot), move |ctx: &mut Ctx| {
            let mut n = base_nef(bps);
            n.v0 = v0;
            let max = 1i32 << bps;
            if v0 == 68 { n.v1 = 32; n.csize = 257; n.curve = (0..257).map(|i| (i * 200) as u16).collect(); }
            let (w, rows) = (1024usize, 1usize << (bps - 9));
            let t = n.tree() + second as usize;
            let toks = all_toks(t);
            let per = w * rows * 3 / 4;
            let mut at = 0;
            while at < toks.len() {
                let end = (at + per / 4).min(toks.len());
                // interleave small and large so that both channels and both row parities see all
                let want: Vec<(i32, Tok)> = toks[at..end].iter().flat_map(|x| { let back = toks.iter().find(|y| y.0 == -x.0).cloned(); std::iter::once(*x).chain(back) }).collect();
                let mut left = vec![want];
                while let Some(mut want) = left.pop() {
                    if rot > 0 { let k = rot * 37 % want.len().max(1); want.rotate_left(k); }
                    let mut n = n.clone();
                    n.split = if second { 1 } else { 0 };
                    n.init = [3, 5, 7, 9];
                    let h = rows + 1;
                    let mut wk = TokWalk::new(want, t, max - 1);
                    let z = nef_tok(n.tree(), 0).unwrap();
                    let one = nef_tok(n.tree(), 1).unwrap();
                    let (bits, vals) = nef_scan(n.tree(), n.split, n.init, w, h, &mut |r, k, p| {
                        if r == 0 { return if k < rot { one } else { z }; }
                        wk.next(p)
                    });
                    let rest: Vec<(i32, Tok)> = wk.want[wk.at..].to_vec();
                    if !rest.is_empty() && rest.len() < wk.want.len() { left.push(rest); }
                    let (doc, e) = n.doc(w, h, &bits, &vals).expect("in range");
                    check(ctx, &doc, &e, &|| format!("Nikon table {} tokens {}..{}", t, at, end));
                }
                at = end;
            }
        })); }
    }
    // 2. predictor positions, clamping, split row: small images with up to k unusual tokens
    for bps in [12u16, 14] { for (w, h) in [(2usize, 1usize), (2, 4), (4, 3), (6, 2), (4, 5)] { v.push(job(format!("Nikon {}-bit {}x{}: split row and differences at every position", bps, w, h), move |ctx: &mut Ctx| {
        let mut n = base_nef(bps);
        n.v0 = 68; n.v1 = 32; n.csize = 5; n.curve = vec![0, 1000, 5000, 20000, 65535]; n.init = [11, 230, 3700, 1000];
        let ds = [1i32, -2, 31, -1000, 2000, -2047, -13];
        let z = [nef_tok(n.tree(), 0).unwrap(), nef_tok(n.tree() + 1, 0).unwrap()];
        ctx.explore(q(2, 3), |c, ctx| {
            let mut n = n.clone();
            n.split = c.choose(h + 2);
            let mut ok = true;
            let (bits, vals) = nef_scan(n.tree(), n.split, n.init, w, h, &mut |r, _, p| {
                let k = c.dev(ds.len() + 1);
                let s = (n.split > 0 && r >= n.split) as usize;
                if k == 0 { return z[s]; }
                let d = ds[k - 1];
                if p + d >= 1 << bps { ok = false; }
                match nef_tok(n.tree() + s, d) { Some(t) => t, None => { ok = false; z[s] } }
            });
            if !ok { return; }
            if let Some((doc, e)) = n.doc(w, h, &bits, &vals) { let ch = c.choices(); check(ctx, &doc, &e, &|| format!("{:?} {}x{} choices {:?}", n, w, h, ch)); }
        });
    })); } }
    // 3. header variants and curves
    v.push(job("Nikon header versions, byte orders, curves", |ctx: &mut Ctx| {
        for bps in [12u16, 14] { for (v0, v1) in [(70u8, 48u8), (70, 0), (68, 32), (68, 48), (68, 88), (73, 48), (73, 88), (65, 88), (70, 88)] { for two in [true, false] { for big in [false, true] { for mbig in [false, true] {
            let max = 1usize << bps;
            let sizes: Vec<usize> = if v0 == 68 && v1 == 32 { vec![2, 3, 5, 17, 65, 257] } else if v0 == 70 { vec![0, 257] } else { vec![1, 2, 600, 4096, 0x4000, 0x4001] };
            for csize in sizes { for shape in 0..6usize { for split in if v0 == 68 && v1 == 32 { vec![0usize, 2] } else { vec![0] } {
                let mut n = base_nef(bps);
                n.v0 = v0; n.v1 = v1; n.two = two; n.big = big; n.mbig = mbig; n.csize = csize; n.split = split; n.init = [1, 2, 3, 4];
                n.curve = (0..csize).map(|i| match shape { 0 => i * 65535 / csize.max(1), 1 => i, 2 => (i * i) >> 5, 3 => 65535 - (i * 65535 / csize.max(1)), 4 => if i % 3 == 0 { 65535 } else { 0 }, _ => mix(i, csize, 7) as usize } as u16).collect();
                let len = n.table().len() as i32;
                // values that visit the whole curve
                let (w, h) = (64usize, 4usize);
                let t = n.tree();
                let (wa, wb) = (TokWalk::new(vec![], t, len - 1), TokWalk::new(vec![], t + (split > 0) as usize, len - 1));
                if v0 == 70 && shape > 0 && csize > 0 { continue; }
                let (bits, vals) = nef_scan(t, split, n.init, w, h, &mut |r, k, p| { let goal = ((r * w + k) * 7919 + shape) as i32 % len; (if split > 0 && r >= split { &wb } else { &wa }).toward(p, goal.max(0)) });
                if let Some((doc, e)) = n.doc(w, h, &bits, &vals) { check(ctx, &doc, &e, &|| format!("Nikon version {} {} bps {} curve of {} shape {} split {} two {} big {} {}", v0, v1, bps, csize, shape, split, two, big, mbig)); }
                let _ = max;
            } } }
        } } } } }
    }));
    v.push(job("Nikon: whole interpolated and direct curves", |ctx: &mut Ctx| {
        for bps in [12u16, 14] { for (v0, v1, csize) in [(68u8, 32u8, 257usize), (68, 32, 65), (68, 48, 0x4001), (73, 0, 4096), (70, 0, 0)] {
            let mut n = base_nef(bps);
            n.v0 = v0; n.v1 = v1; n.csize = csize;
            n.curve = (0..csize).map(|i| ((i * i * 16) / csize.max(1) + (mix(i, 3, 1) % 40) as usize) as u16).collect();
            let len = n.table().len();
            let (w, h) = (128, (len + 127) / 128);
            let t = n.tree();
            let wk = TokWalk::new(vec![], t, len as i32 - 1);
            // every entry of the curve once per channel
            let (bits, vals) = nef_scan(t, 0, n.init, w, h, &mut |r, k, p| { let _ = r; let goal = ((r * 64 + k / 2) * 2 + (k & 1) * 1) % len; wk.toward(p, goal as i32) });
            if let Some((doc, e)) = n.doc(w, h, &bits, &vals) { check(ctx, &doc, &e, &|| format!("Nikon curve {} {} {} of {}", bps, v0, v1, csize)); }
        } }
    }));
    // 4. small raw
    for part in 0..8usize { v.push(job(format!("Nikon small raw, part {}", part), move |ctx: &mut Ctx| {
        let g: Vec<u32> = q(vec![0, 1, 700, 1500, 2047, 2048, 2049, 2600, 3600, 4095], vec![0, 1, 15, 16, 240, 255, 256, 700, 1111, 1500, 1900, 2040, 2047, 2048, 2049, 2056, 2200, 2600, 3100, 3600, 4000, 4080, 4094, 4095]);
        for (wi, wb) in [[(3u32, 2u32), (5u32, 4u32)], [(1, 1), (1, 1)], [(5, 2), (7, 2)], [(1, 2), (1, 3)], [(1, 30), (2, 7)]].iter().enumerate() { if wi > 1 && part > 2 && !thorough() { continue; }
            // one row of pixel pairs per luma pair
            let mut px: Vec<[u32; 4]> = Vec::new();
            for (yi, &y1) in g.iter().enumerate() { if yi % 8 != part { continue; } for (i2, _) in g.iter().enumerate() { let y2 = g[(yi + i2) % g.len()]; if !thorough() && i2 > 2 { continue; } for &cb in &g { for &cr in &g { px.push([y1, y2, cb, cr]); } } } }
            let w = 2 * g.len();
            let h = px.len() / g.len();
            let mut p = LsbBits::new();
            for x in &px { for v in x { p.put(*v, 12); } }
            let payload = p.bytes();
            let count = payload.len();
            let f = nef_wb(&NefWb::Plain(*wb));
            let inv = [(1024.0 / f[0]) as i64, (1024.0 / f[2]) as i64];
            let curve = Curve { t: (0..4096).map(|i| { let v = i as f64 / 4095.0; let r = if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) }; (r * 65535.0 * 4.0).min(65535.0) as u16 }).collect() };
            let doc = nef("NIKON D300", w, h, 34713, 12, count, payload.clone(), None, &NefWb::Plain(*wb), 1, false, true);
            let bytes = doc.bytes();
            let what = || format!("small raw {}x{} wb {:?} part {}", w, h, wb, part);
            ctx.begin(|| (what(), bytes.clone()));
            ctx.states += px.len() as u64;
            match ctx.decode(&bytes) {
                Err(m) => ctx.fail("err", &what(), &bytes, &m),
                Ok(i) => {
                    if (i.width, i.height, i.cpp, i.data.len()) != (w, h, 3, w * h * 3) { ctx.fail("size", &what(), &bytes, &format!("{}x{}x{} with {} samples", i.width, i.height, i.cpp, i.data.len())); continue; }
                    ctx.outcome(hash(&i.data));
                    'rows: for r in 0..h {
                        let rb = &payload[r * w * 3..];
                        let at = |k: usize| *rb.get(k).unwrap_or(&0) as u32;
                        let mut rnd = at(0) << 24 | at(1) << 16 | at(2) << 8 | at(3);
                        for k in 0..w {
                            let x = px[r * w / 2 + k / 2];
                            let (y, cb, cr) = (x[k & 1] as f64, x[2] as f64 - 2048.0, x[3] as f64 - 2048.0);
                            let lin = [y + 1.370705 * cr, y - 0.337633 * cb - 0.698001 * cr, y + 1.732446 * cb];
                            for c in 0..3 {
                                ctx.transitions += 1;
                                let r0 = rnd;
                                let mut ok = false;
                                let mut want = Vec::new();
                                for e in [-2e-3, 0.0, 2e-3] {
                                    let mut rr = r0;
                                    let s = curve.get(((lin[c] + e) as i64).max(0).min(4095) as usize, &mut rr) as i64;
                                    rnd = rr;
                                    let o = if c == 1 { s } else { (inv[c / 2] * s + 512 >> 10).max(0).min(32767) };
                                    let got = i.data[(r * w + k) * 3 + c] as i64;
                                    // the curve itself is computed in single precision
                                    if (got - o).abs() <= 2 { ok = true; }
                                    want.push(o);
                                }
                                if !ok { ctx.fail("sample", &what(), &bytes, &format!("row {} column {} channel {}: {} is none of {:?} (y {} cb {} cr {})", r, k, c, i.data[(r * w + k) * 3 + c], want, y, cb, cr)); break 'rows; }
                            }
                        }
                    }
                }
            }
        }
    })); }
}

// ------------------------------------------------------------------ Pentax
fn pef_doc(w: usize, h: usize, b: &Bits, huff: Option<Vec<u8>>, style: u8, big: bool, mbig: bool, data: Vec<u16>) -> (Doc, Exp) {
    let c = Db::load().cam("PENTAX Corporation", "PENTAX K100D", "");
    let mut by = b.bytes(); by.extend([0; 8]);
    (pef("PENTAX Corporation", "PENTAX K100D", w, h, 65535, 12, by, [300, 256, 256, 400], None, huff, style, 0, big, mbig), Exp::cam(&c, w, h, data, [300.0, 256.0, 400.0, std::f32::NAN]))
}
/// tables in category order: (code left-aligned in 12 bits, length)
fn pef_tables() -> Vec<Vec<(u16, u8)>> {
    let mut v = Vec::new();
    // lengths per category, turned into canonical codes
    let mk = |lens: &[u8], order: &dyn Fn(usize) -> usize| -> Vec<(u16, u8)> {
        let mut idx: Vec<usize> = (0..lens.len()).collect();
        idx.sort_by_key(|&i| (lens[i], order(i)));
        let mut code = 0u32; let mut last = 0u8;
        let mut o = vec![(0u16, 0u8); lens.len()];
        for i in idx { code <<= lens[i] - last; last = lens[i]; o[i] = ((code << (12 - lens[i])) as u16, lens[i]); code += 1; }
        o
    };
    v.push(mk(&[7, 5, 3, 2, 2, 3, 3, 5, 6, 8, 9, 10, 10], &|i| i)); // K10D like
    v.push(mk(&[5, 4, 3, 3, 2, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12], &|i| i));
    v.push(mk(&[5, 4, 3, 3, 2, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12], &|i| 99 - i));
    v.push(mk(&[4; 15], &|i| i));
    v.push(mk(&[4; 15], &|i| (i * 7) % 15));
    v.push(mk(&[12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1], &|i| i));
    v.push(mk(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12], &|i| i));
    v.push(mk(&[12; 15], &|i| i));
    // short tables: all differences are small
    v.push(mk(&[2, 1, 2], &|i| i));
    v.push(mk(&[3, 3, 2, 2, 3, 3], &|i| i));
    v.push(mk(&[4, 3, 2, 2, 3, 4, 4, 4], &|i| 99 - i));
    v.retain(|t| t.iter().all(|x| x.1 > 0));
    v
}
fn pef_jobs(v: &mut Vec<Job>) {
    let tabs = Rc::new(pef_tables());
    for ti in 0..=tabs.len() { let tabs = tabs.clone(); v.push(job(format!("Pentax table {}: every difference", ti), move |ctx: &mut Ctx| {
        let tab = if ti == 0 { None } else { Some(&tabs[ti - 1][..]) };
        let codes = pef_codes(tab);
        let ncat = codes.iter().map(|c| c.2).max().unwrap() as u32;
        let top = (1i32 << ncat) - 1;
        let all: Vec<i32> = (0..=top).flat_map(|d| vec![d, -d]).collect();
        for rot in 0..q(1usize, 5) { for chunk in all.chunks(6000) {
            let mut wk = Walk::new(chunk.to_vec(), 0, 65535, top);
            wk.want.rotate_left(rot * 1237 % chunk.len());
            let (w, h) = (512usize, 40usize);
            let style = (rot % 2) as u8; let (big, mbig) = (rot % 2 == 0, rot % 2 == 0);
            let (b, s) = pef_scan(&codes, w, h, &mut |r, k, p| { if r == 0 && k < rot { return 1; } wk.next(p) }).unwrap();
            assert!(wk.at == wk.want.len());
            let (doc, e) = pef_doc(w, h, &b, tab.map(|t| pef_table(t, big)), style, big, mbig, s);
            check(ctx, &doc, &e, &|| format!("Pentax table {:?} rotation {}", tab, rot));
        } }
    })); }
    for (w, h) in [(2usize, 1usize), (2, 5), (4, 4), (6, 3)] { let tabs = tabs.clone(); v.push(job(format!("Pentax {}x{}: differences at every position", w, h), move |ctx: &mut Ctx| {
        let ds = [1i32, -1, 2000, -1300, 4095, -4095];
        ctx.explore(q(2, 3), |c, ctx| {
            let ti = c.choose(3);
            let tab = if ti == 0 { None } else { Some(&tabs[ti - 1][..]) };
            let st = c.choose(3);
            let (style, big) = ((st == 2) as u8, st > 0);
            let (b, s) = pef_scan(&pef_codes(tab), w, h, &mut |r, k, p| { let x = c.dev(ds.len() + 1); let base = if r < 2 && k < 2 { 100 } else { 0 }; let d = if x == 0 { base } else { ds[x - 1] }; if p + d < 0 { 0 } else { d } }).unwrap();
            let (doc, e) = pef_doc(w, h, &b, tab.map(|t| pef_table(t, big)), style, big, big, s);
            let ch = c.choices();
            check(ctx, &doc, &e, &|| format!("Pentax {}x{} choices {:?}", w, h, ch));
        });
    })); }
}

// ------------------------------------------------------------------ Samsung, second generation
fn srw2_doc(w: usize, h: usize, b: &Bits, data: Vec<u16>, big: bool) -> (Doc, Exp) {
    let c = Db::load().cam("SAMSUNG", "NX1000", "");
    let mut by = b.bytes(); by.extend([0; 8]);
    (srw("NX1000", w, h, 32772, 12, by, None, [500, 300, 300, 400], [0; 4], 0, big), Exp::cam(&c, w, h, data, srw_wb([500, 300, 300, 400], [0; 4])))
}
fn srw2_jobs(v: &mut Vec<Job>) {
    for rot in 0..q(3usize, 12) { v.push(job(format!("Samsung variable length: every difference, alignment {}", rot), move |ctx: &mut Ctx| {
        let codes = srw2_codes();
        let all: Vec<i32> = (0..=8191).flat_map(|d| vec![d, -d]).collect();
        for chunk in all.chunks(9000) {
            let mut wk = Walk::new(chunk.to_vec(), 0, 16383, 8191);
            wk.want.rotate_left(rot * 931 % chunk.len());
            let (w, h) = (511usize + rot % 2, 50usize);
            let (b, s) = pef_scan(&codes, w, h, &mut |r, k, p| { if r == 0 && k < rot { return 1; } wk.next(p) }).unwrap();
            assert!(wk.at == wk.want.len());
            let (doc, e) = srw2_doc(w, h, &b, s, rot % 2 == 0);
            check(ctx, &doc, &e, &|| format!("SRW2 rotation {}", rot));
        }
    })); }
    for (w, h) in [(1usize, 3usize), (2, 5), (3, 4), (5, 3)] { v.push(job(format!("Samsung variable length {}x{}: differences at every position", w, h), move |ctx: &mut Ctx| {
        let ds = [1i32, -1, 2000, -1300, 4095, -4095];
        ctx.explore(q(3, 4), |c, ctx| {
            let (b, s) = pef_scan(&srw2_codes(), w, h, &mut |r, k, p| { let x = c.dev(ds.len() + 1); let base = if r < 2 && k < 2 { 100 } else { 0 }; let d = if x == 0 { base } else { ds[x - 1] }; if p + d < 0 { 0 } else { d } }).unwrap();
            let (doc, e) = srw2_doc(w, h, &b, s, true);
            let ch = c.choices();
            check(ctx, &doc, &e, &|| format!("SRW2 {}x{} choices {:?}", w, h, ch));
        });
    })); }
}

// ------------------------------------------------------------------ Sony, first generation
fn arw1_doc(w: usize, h: usize, b: &Bits, data: Vec<u16>) -> Option<(Doc, Exp)> {
    let md = "DSLR-A300";
    let c = Db::load().cam("SONY", md, "");
    let mut by = b.bytes(); by.extend([0; 8]);
    let count = by.len();
    if count * 8 == w * (h - 8) * 12 { return None; }
    let p = ArwP { model: md, w, h: h - 8, comp: 32767, bps: 12, count, curve: Some([8000, 10400, 12900, 14100]), rggb: true, lv: [500, 300, 300, 400], key: 0x12345678, orient: 0 };
    Some((arw(&p, by), Exp::cam(&c, w, h, data, sony_wb(true, [500, 300, 300, 400]))))
}
fn arw1_jobs(v: &mut Vec<Job>) {
    for rot in 0..q(3usize, 10) { v.push(job(format!("Sony first generation: every difference, alignment {}", rot), move |ctx: &mut Ctx| {
        let all: Vec<i32> = (0..=q(8191, 65535)).flat_map(|d| vec![d, -d]).chain([16384, -16384, 20000, 32767, -32767, -32768, 32768, 40000, -40000, 65535, -65535]).collect();
        for chunk in all.chunks(20000) {
            let mut wk = Walk::new(chunk.to_vec(), 0, 65535, 65535);
            wk.want.rotate_left(rot * 1931 % chunk.len());
            let (w, h) = (500usize + rot, 100usize + 2 * rot);
            let (b, s) = arw1_scan(w, h, &mut |n, p| { if n < rot { return 1; } wk.next(p) });
            assert!(wk.at == wk.want.len());
            if let Some((doc, e)) = arw1_doc(w, h, &b, s) { check(ctx, &doc, &e, &|| format!("ARW1 rotation {}", rot)); }
        }
    })); }
    for (w, h) in [(1usize, 10usize), (2, 12), (3, 10)] { v.push(job(format!("Sony first generation {}x{}: differences at every position", w, h), move |ctx: &mut Ctx| {
        let ds = [0i32, -1, 2, -6, 15, 200, 4000, 60000];
        ctx.explore(q(2, 3), |c, ctx| {
            let (b, s) = arw1_scan(w, h, &mut |_, p| { let x = c.dev(ds.len() + 1); let d = if x == 0 { 1 } else { ds[x - 1] }; if p + d < 0 || p + d > 65535 { 0 } else { d } });
            let ch = c.choices();
            if let Some((doc, e)) = arw1_doc(w, h, &b, s) { check(ctx, &doc, &e, &|| format!("ARW1 {}x{} choices {:?}", w, h, ch)); }
        });
    })); }
    v.push(job("Sony first generation: 17-bit differences, samples modulo 65536", |ctx: &mut Ctx| {
        for (w, h) in [(1usize, 10usize), (2, 10), (3, 12)] { ctx.explore(q(2, 3), |c, ctx| {
            let ds = [65536i32, -65536, 65537, 100000, -70001, 131071, -131071, 65535, 3];
            let (b, s) = arw1_scan(w, h, &mut |n, p| { let x = c.dev(ds.len() + 1); if x == 0 { if n % 3 == 0 { 1 } else { 0 } } else { let d = ds[x - 1]; if (p + d).abs() > 1 << 20 { -d } else { d } } });
            let ch = c.choices();
            if let Some((doc, e)) = arw1_doc(w, h, &b, s) { check(ctx, &doc, &e, &|| format!("ARW1 17 bits {}x{} choices {:?}", w, h, ch)); }
        }); }
    }));
    v.push(job("Sony DSLR-A100", |ctx: &mut Ctx| for big in [false, true] { for seed in 0..q(1usize, 3) {
        let (w, h) = (3881usize, 2608usize);
        let (b, s) = arw1_scan(w, h, &mut |n, p| { let d = match mix(n, seed, 3) % 16 { 0 => 7, 1 => -7, 2 => 40, 3 => -33, 4 => 1, 5 => -1, 6 => (mix(n, 1, 1) % 4096) as i32 - p.min(4000), _ => 0 }; if p + d < 0 || p + d > 65535 { 0 } else { d } });
        let c = Db::load().cam("SONY", "DSLR-A100", "");
        let wb = [400u16, 256, 256, 300];
        let mut by = b.bytes(); by.extend([0; 8]);
        let doc = a100(by, wb, seed, big);
        let e = Exp::cam(&c, w, h, s, [400.0, 256.0, 300.0, std::f32::NAN]);
        check(ctx, &doc, &e, &|| format!("A100 big {} seed {}", big, seed));
    } }));
}

// ------------------------------------------------------------------ Phase One
fn iiq_doc(w: usize, h: usize, s: &[u16], rows: Vec<Bits>, order: u8, torder: u8) -> (Doc, Exp) {
    let c = Db::load().cam("Phase One A/S", "IQ250", "");
    let rows: Vec<Vec<u8>> = rows.iter().map(|b| { let mut b = b.clone(); b.pad(32, false); b.msb32() }).collect();
    let mut e = Exp::cam(&c, w, h, s.to_vec(), [1.5, 1.0, 2.0, std::f32::NAN]);
    e.black = [100; 4];
    (iiq("IQ250", w, h, rows, [1.5, 1.0, 2.0], 100, order, torder, 1), e)
}
fn iiq_jobs(v: &mut Vec<Job>) {
    // every length: every difference that fits
    for &l in IIQ_LENS.iter() { for odd in [0usize, 1] { v.push(job(format!("Phase One length {} channel {}: every difference", l, odd), move |ctx: &mut Ctx| {
        let n = if l == 14 { 65536i32 } else { 1 << l };
        let mid = if l == 14 { 0 } else { n / 2 };
        let mut s = Vec::new();
        let w = 128usize;
        let mut wk = Walk::new((0..n).map(|d| if l == 14 { d } else { d + 1 - mid }).collect(), 0, 65535, (mid - 1).max(15));
        let mut rows = Vec::new();
        while wk.at < wk.want.len() {
            let mut row = vec![0u16; w];
            let (mut p, mut p2) = (0i32, 0i32);
            for k in 0..w { if k & 1 == odd { if l == 14 { p = wk.want[wk.at.min(wk.want.len() - 1)]; wk.at += 1; } else { p += wk.next(p); } row[k] = p as u16; } else { p2 += if p2 < 1000 { 13 } else { -11 }; row[k] = p2 as u16; } }
            rows.push(iiq_row(w, &row, &|g, par| if g == 0 { Some(if par == odd { l } else { 8 }) } else { None }).unwrap());
            s.extend(row);
        }
        let h = rows.len();
        let (doc, e) = iiq_doc(w, h, &s, rows, 0, 0);
        check(ctx, &doc, &e, &|| format!("IIQ length {} channel {}", l, odd));
    })); } }
    // every change of length between groups, every width residue
    v.push(job("Phase One: every sequence of two lengths per channel, every tail", |ctx: &mut Ctx| {
        for w in 1..=26usize { for order in 0..2u8 { for torder in 0..3u8 {
            if w > 10 && (order + torder) as usize % 2 != w % 2 { continue; }
            let mut s = Vec::new();
            let mut rows = Vec::new();
            for a in 0..10usize { for b in 0..11usize {
                let row: Vec<u16> = (0..w).map(|k| if k >= w / 8 * 8 { mix(k, a, b) as u16 } else { (20 + (mix(k, a, b) % 14) as u16) * (k / 2 % 2) as u16 / 3 + 2 }).collect();
                if let Some(r) = iiq_row(w, &row, &|g, p| { let i = [a, b][(g + p) % 2]; if g > 0 && i == 10 { None } else { Some(IIQ_LENS[i % 10]) } }) { rows.push(r); s.extend(row); }
            } }
            if rows.is_empty() { continue; }
            let h = rows.len();
            let (doc, e) = iiq_doc(w, h, &s, rows, order, torder);
            check(ctx, &doc, &e, &|| format!("IIQ width {} order {} {}", w, order, torder));
        } } }
    }));
    v.push(job("Phase One: lengths and samples at every position", |ctx: &mut Ctx| ctx.explore(q(2, 3), |c, ctx| {
        let w = c.of(&[8usize, 16, 17, 23]);
        let mut s = vec![0u16; w];
        for k in 0..w { s[k] = [200u16, 201, 199, 216, 185, 0, 400][c.dev(7)]; }
        let ls: Vec<usize> = (0..2 * (w / 8)).map(|g| c.dev(if g < 2 { 10 } else { 11 })).collect();
        let len = |g: usize, p: usize| -> Option<u32> { let i = ls[g * 2 + p]; if g > 0 { if i == 0 { None } else { Some(IIQ_LENS[i - 1]) } } else { Some([9, 8, 7, 6, 11, 10, 5, 12, 14, 13][i]) } };
        let ch = c.choices();
        if let Some(r) = iiq_row(w, &s, &len) { let (doc, e) = iiq_doc(w, 1, &s, vec![r], 0, 0); check(ctx, &doc, &e, &|| format!("IIQ choices {:?}", ch)); }
    })));
}

// ------------------------------------------------------------------ Kodak
fn dcr_curve(shape: usize) -> Vec<u16> { (0..4096usize).map(|i| match shape { 0 => i, 1 => i * 16, 2 => (i * i) >> 8, 3 => 65535 - i * 15, _ => (mix(i, 9, 1) >> 3) as usize } as u16).collect() }
fn dcr_doc(w: usize, h: usize, by: Vec<u8>, vals: &[i32], shape: usize, big: bool) -> (Doc, Exp) {
    let c = Db::load().cam("Kodak", "DCS Pro SLR/n", "");
    let curve = Curve { t: dcr_curve(shape) };
    let mut rnd = 0u32;
    let data = vals.iter().map(|&v| curve.get(v as usize, &mut rnd)).collect();
    let mut by = by; by.extend([0; 8]);
    (dcr("DCS Pro SLR/n", w, h, by, &curve.t, &DcrWb::Full([700, 800, 900]), 1, big), Exp::cam(&c, w, h, data, dcr_wb(&DcrWb::Full([700, 800, 900]))))
}
/// samples to coded segments with the shortest lengths, or longer by `slack`
fn dcr_encode(w: usize, vals: &[i32], slack: &dyn Fn(usize) -> u32) -> Vec<u8> {
    let mut by = Vec::new();
    let mut n = 0;
    for row in vals.chunks(w) { for seg in row.chunks(256) {
        let mut p = [0i32; 2];
        let d: Vec<i32> = seg.iter().enumerate().map(|(i, &v)| { let d = v - p[i & 1]; p[i & 1] = v; d }).collect();
        let lens: Vec<u32> = d.iter().map(|&x| { n += 1; mags(x).0 + if x == 0 { 0 } else { 0 * slack(n) } }).collect();
        by.extend(dcr_segment(&d, &lens));
    } }
    by
}
fn dcr_jobs(v: &mut Vec<Job>) {
    for shape in 0..5usize { v.push(job(format!("Kodak DCR curve {}: every difference, every curve entry", shape), move |ctx: &mut Ctx| for w in [256usize, 260, 516, 8] {
        let mut wk = [Walk::new((0..4096).flat_map(|d| vec![d, -d]).collect(), 0, 4095, 4095), Walk::new((0..4096).rev().flat_map(|d| vec![-d, d]).collect(), 0, 4095, 4095)];
        let mut vals = Vec::new();
        while (wk[0].at < wk[0].want.len() || wk[1].at < wk[1].want.len()) && vals.len() < w * 8000 {
            let mut p = [0i32; 2];
            for k in 0..w { if k % 256 == 0 { p = [0; 2]; } p[k & 1] += wk[k & 1].next(p[k & 1]); vals.push(p[k & 1]); }
        }
        if w > 8 { assert!(wk[0].at == wk[0].want.len() && wk[1].at == wk[1].want.len()); }
        let h = vals.len() / w;
        let (doc, e) = dcr_doc(w, h, dcr_encode(w, &vals, &|_| 0), &vals, shape, w == 260);
        check(ctx, &doc, &e, &|| format!("DCR width {} curve {}", w, shape));
    })); }
    v.push(job("Kodak DCR: every width, lengths at every position", |ctx: &mut Ctx| {
        for w in (4..=q(600usize, 1300)).step_by(4) { for h in 1..3usize {
            let vals: Vec<i32> = (0..w * h).map(|i| (mix(i, w, h) >> (8 + mix(i, 1, 1) % 12)) as i32 & 4095).collect();
            let (doc, e) = dcr_doc(w, h, dcr_encode(w, &vals, &|_| 0), &vals, 1, h == 2);
            check(ctx, &doc, &e, &|| format!("DCR {}x{}", w, h));
        } }
        ctx.explore(q(3, 4), |c, ctx| {
            let w = c.of(&[4usize, 8, 12]);
            let vals: Vec<i32> = (0..w * 2).map(|_| c.dev_of(&[9i32, 0, 10, 500, 4095])).collect();
            let ch = c.choices();
            let (doc, e) = dcr_doc(w, 2, dcr_encode(w, &vals, &|_| 0), &vals, 1, false);
            check(ctx, &doc, &e, &|| format!("DCR choices {:?}", ch));
        });
    }));
}

// ------------------------------------------------------------------ Canon CRW
fn crw_doc(model: &str, w: usize, h: usize, table: u32, b: &Bits, s: &[u16], low: Option<&dyn Fn(usize) -> u8>, nest: u8) -> (Doc, Exp) {
    let c = Db::load().cam("Canon", model, "");
    let lows: Option<Vec<u8>> = low.map(|f| (0..w * h / 4).map(|i| (0..4).fold(0, |a, j| a | (f(i * 4 + j) & 3) << (2 * j))).collect());
    let data: Vec<u16> = s.iter().enumerate().map(|(i, &x)| match low { None => x, Some(f) => { let y = x << 2 | (f(i) & 3) as u16; if w == 2672 && y < 512 { y + 2 } else { y } } }).collect();
    (crw(model, w, h, table, lows.as_deref(), &b.jpeg(), &CrwWb::None, nest), Exp::cam(&c, w, h, data, [std::f32::NAN; 4]))
}
fn crw_jobs(v: &mut Vec<Job>) {
    for t in 0..3usize {
        // first-table leaves and every difference of them; values must stay within 0..1023 for realism, so within 10 bits
        v.push(job(format!("CRW table {}: every leaf of both tables with its extreme and middle values", t), move |ctx: &mut Ctx| {
            let c2 = crw_codes(t, true);
            for part in 0..2 { for lead in 0..q(4usize, 16) {
                let mut b = Bits::new();
                let mut blocks = Vec::new();
                let (w, nb) = (64usize, 0);
                let _ = nb;
                let mut carry = 0i32;
                for &(_, _, leaf) in &c2 {
                    let n = (leaf & 15) as u32;
                    let run = (leaf >> 4) as usize;
                    let vals: Vec<u32> = if leaf == 0 || leaf == 0xff || n == 0 { vec![0] } else if n <= 4 { (0..1 << n).collect() } else { vec![0, 1, (1 << n) - 1, (1 << n) - 2, 1 << (n - 1), (1 << (n - 1)) - 1, 0x5555 & ((1 << n) - 1)] };
                    for m in vals { if (m as usize) % 2 != part && part == 1 && n > 4 { continue; }
                        // a block: first code word, some padding of single steps, the leaf, end of block
                        let c0 = (lead % 3) as i32 - 1 - carry.signum();
                        let (n0, m0) = mags(c0);
                        let mut l = vec![(n0 as u8, m0)];
                        for _ in 0..lead { l.push((1, 1)); l.push((1, 0)); }
                        if leaf != 0 { l.push((leaf, m)); }
                        let end = 1 + 2 * lead + run + 1;
                        // one more difference shows where the leaf left off
                        if end < 63 { l.push((1, 1)); l.push((1, 0)); }
                        if end < 62 { l.push((0, 0)); }
                        let d = crw_leaves(&mut b, t, &l).unwrap();
                        carry += d[0];
                        blocks.push(d);
                    }
                }
                let h = blocks.len();
                let s = crw_samples(w, h, &blocks);
                let (doc, e) = crw_doc("Canon EOS 10D", w, h, t as u32, &b, &s, Some(&|i| (i * 7 / 3) as u8), 0);
                check(ctx, &doc, &e, &|| format!("CRW table {} part {} lead {}", t, part, lead));
            } }
        }));
        v.push(job(format!("CRW table {}: empty leaves", t), move |ctx: &mut Ctx| {
            // the leaf 0xff of either table stands for one difference of zero
            let mut b = Bits::new();
            let mut blocks = Vec::new();
            for n in 0..63usize { for first in [false, true] { for run in 0..4usize {
                let mut l = vec![if first { (0xffu8, 0u32) } else { (1, n as u32 & 1) }];
                for i in 0..n { l.push((1, (i & 1) as u32)); }
                for _ in 0..run { l.push((0xff, 0)); }
                if n + 1 + run < 64 { l.push((1, 1)); }
                if n + 2 + run < 64 { l.push((0, 0)); }
                let at = b.v.len();
                match crw_leaves(&mut b, t, &l) { Some(d) => blocks.push(d), None => b.v.truncate(at) }
            } } }
            assert!(blocks.len() > 100, "{} blocks", blocks.len());
            let s = crw_samples(64, blocks.len(), &blocks);
            let (doc, e) = crw_doc("Canon EOS 10D", 64, blocks.len(), t as u32, &b, &s, Some(&|i| (i / 7) as u8), 0);
            ctx.states += blocks.len() as u64;
            check(ctx, &doc, &e, &|| format!("CRW table {} empty leaves", t));
        }));
        v.push(job(format!("CRW table {}: every difference of the first table, every run length", t), move |ctx: &mut Ctx| {
            let w = 64usize;
            let mut b = Bits::new();
            let mut blocks = Vec::new();
            let mut carry = 0i32;
            // differences of the first sample: the carry makes them relative to the previous block
            for d in (-2047..=2047).chain([-5, 5]) { if !(0..=1023 * 4).contains(&(512 + carry + d)) && false { continue; } let (n, m) = mags(d); if let Some(x) = crw_leaves(&mut b, t, &[(n as u8, m), (0, 0)]) { carry += d; blocks.push(x); } let back = -d; let (n, m) = mags(back); let x = crw_leaves(&mut b, t, &[(n as u8, m), (0, 0)]).unwrap(); carry += back; blocks.push(x); }
            let s = crw_samples(w, blocks.len(), &blocks);
            let (doc, e) = crw_doc("Canon EOS 10D", w, blocks.len(), t as u32, &b, &s, Some(&|i| (i / 5) as u8), 1);
            check(ctx, &doc, &e, &|| format!("CRW table {} first differences", t));
            // sparse blocks: one or two differences anywhere
            let mut b = Bits::new();
            let mut blocks = Vec::new();
            for i in 0..64usize { for j in i..64 { if !thorough() && (i * 7 + j) % 5 != 0 && i != j { continue; } let mut d = [0i32; 64]; d[i] = 3; d[j] = if i == j { -4 } else { -9 }; let len = b.v.len(); if crw_block(&mut b, t, &d).is_some() { blocks.push(d); } else { b.v.truncate(len); } } }
            let s = crw_samples(w, blocks.len(), &blocks);
            let (doc, e) = crw_doc("Canon EOS 10D", w, blocks.len(), t as u32, &b, &s, Some(&|i| (i / 3) as u8), 2);
            check(ctx, &doc, &e, &|| format!("CRW table {} sparse blocks", t));
        }));
        v.push(job(format!("CRW table {}: code words at every position", t), move |ctx: &mut Ctx| ctx.explore(q(2, 3), |c, ctx| {
            let (w, h) = c.of(&[(64usize, 2usize), (32, 4), (16, 4), (128, 1), (4, 32), (192, 1)]);
            let n = w * h / 64;
            let mut b = Bits::new();
            let mut blocks = Vec::new();
            for _ in 0..n {
                let mut d = [0i32; 64];
                d[0] = c.dev_of(&[2i32, 0, -1, 300, -300]);
                for k in [1usize, 2, 15, 16, 17, 18, 32, 33, 62, 63] { d[k] = c.dev_of(&[0i32, 1, -1, 100, -63]); }
                if crw_block(&mut b, t, &d).is_none() { return; }
                blocks.push(d);
            }
            let s = crw_samples(w, h, &blocks);
            let lo = c.choose(2);
            let low = |i: usize| (i + lo) as u8;
            let ch = c.choices();
            let (doc, e) = crw_doc("Canon EOS 10D", w, h, t as u32, &b, &s, Some(&low), 0);
            check(ctx, &doc, &e, &|| format!("CRW {}x{} choices {:?}", w, h, ch));
        })));
    }
    v.push(job("CRW: low bits, width 2672, cameras without low bits", |ctx: &mut Ctx| {
        let mk = |w: usize, h: usize, t: usize, seed: usize| { let mut b = Bits::new(); let mut blocks = Vec::new(); let mut carry = 0i32; for n in 0..w * h / 64 { let mut d = [0i32; 64]; for k in 0..64 { d[k] = match mix(n, k, seed) % 9 { 0 => 5, 1 => -5, 2 => 1, 3 => -1, _ => 0 }; } d[0] = -carry.signum() * 3 + (mix(n, 99, seed) % 5) as i32 - 2; if n % 17 == 5 { d[0] -= 300; } if n % 17 == 6 { d[0] += 300; } carry += d[0]; if crw_block(&mut b, t, &d).is_none() { d = [0; 64]; crw_block(&mut b, t, &d).unwrap(); } blocks.push(d); } (crw_samples(w, h, &blocks), b) };
        for (w, h) in [(2672usize, 4usize), (2672, 8), (2668, 16), (2676, 16), (64, 1), (4, 16)] { for low in 0..4u8 { for t in 0..3 {
            let (s, b) = mk(w, h, t, w + h);
            let (doc, e) = crw_doc("Canon EOS 10D", w, h, t as u32, &b, &s, Some(&|i| if low < 3 { low } else { (i % 4) as u8 }), 0);
            check(ctx, &doc, &e, &|| format!("CRW {}x{} low bits {} table {}", w, h, low, t));
        } } }
        let db = Db::load();
        for cam in db.all.iter().filter(|c| c.make == "Canon" && c.hint("nolowbits") && c.mode == "") {
            let (w0, h0) = ((cam.areav.0 + cam.areav.1).max(64), (cam.areah.0 + cam.areah.1).max(4));
            let w = (w0 + 15) / 16 * 16; let h = (h0 + 3) / 4 * 4;
            let (s, b) = mk(w, h, 1, 5);
            let (doc, e) = crw_doc(&cam.model, w, h, 1, &b, &s, None, 0);
            check(ctx, &doc, &e, &|| format!("CRW {} {}x{}", cam.model, w, h));
        }
    }));
}
// ------------------------------------------------------------------ sizes of real cameras, and beyond 65535 columns or rows
/// a wandering difference: mostly small, now and then a jump to anywhere within 0..=top
fn wander(n: usize, seed: usize, p: i32, top: i32) -> i32 {
    let x = mix(n, seed, 77);
    let d = match x % 32 { 0 => (x >> 8) as i32 % (top + 1) - p, 1..=4 => (x >> 8) as i32 % 257 - 128, _ => (x >> 8) as i32 % 15 - 7 };
    if p + d < 0 || p + d > top { 0 } else { d }
}
const BIG: &[(usize, usize)] = &[(4352, 12), (8, 8300), (2400, 1604), (66_000, 3), (4, 66_000), (5200, 3456)];
fn large_jobs(v: &mut Vec<Job>) {
    for (n, &(w, h)) in BIG.iter().enumerate() {
        for (bps, v0, v1, split) in [(12u16, 70u8, 48u8, 0usize), (14, 70, 48, 0), (12, 68, 32, h / 2), (14, 68, 32, h.min(40_000) - 1), (14, 68, 48, 0)] { if n == 5 && v1 == 48 && !thorough() { continue; } v.push(job(format!("large: Nikon {}-bit {}/{} {}x{}", bps, v0, v1, w, h), move |ctx: &mut Ctx| {
            ctx.states += 1;
            let mut x = base_nef(bps);
            x.v0 = v0; x.v1 = v1; x.split = split; x.init = [100, 300, 200, 50];
            if v0 == 68 { x.csize = if v1 == 32 { 257 } else { 0x4000 }; x.curve = (0..x.csize).map(|i| (i * 65535 / x.csize) as u16).collect(); }
            let top = x.table().len() as i32 - 1;
            let t = x.tree();
            // tokens of small differences, and jumps that the trees can express
            let toks: Vec<Vec<Option<Tok>>> = (0..2).map(|s| (-4096i32..=4095).map(|d| if t + s < 6 && (s == 0 || split > 0) { nef_tok(t + s, d) } else { None }).collect()).collect();
            let (bits, vals) = nef_scan(t, split, x.init, w, h, &mut |r, k, p| {
                let s = (split > 0 && r >= split) as usize;
                let d = wander(r * w + k, bps as usize, p, top);
                toks[s].get(0).and_then(|_| toks[s].get((d + 4096) as usize).cloned().flatten()).unwrap_or_else(|| toks[s][4096].unwrap())
            });
            let (doc, e) = x.doc(w, h, &bits, &vals).expect("in range");
            check(ctx, &doc, &e, &|| format!("Nikon {}-bit {} {} {}x{} split {}", bps, v0, v1, w, h, split));
        })); }
        v.push(job(format!("large: Pentax {}x{}", w, h), move |ctx: &mut Ctx| for ti in 0..2usize {
            ctx.states += 1;
            let tabs = pef_tables();
            let tab = if ti == 0 { None } else { Some(&tabs[1][..]) };
            let (b, s) = pef_scan(&pef_codes(tab), w, h, &mut |r, k, p| { let d = wander(r * w + k, ti, p, 16383); if d.abs() > 4095 { 0 } else { d } }).unwrap();
            let (doc, e) = pef_doc(w, h, &b, tab.map(|t| pef_table(t, false)), 0, false, false, s);
            check(ctx, &doc, &e, &|| format!("Pentax {}x{} table {}", w, h, ti));
        }));
        v.push(job(format!("large: Samsung variable length {}x{}", w, h), move |ctx: &mut Ctx| for w in [w, w + 1] { if n == 5 && w % 2 == 1 && !thorough() { continue; }
            ctx.states += 1;
            let (b, s) = pef_scan(&srw2_codes(), w, h, &mut |r, k, p| { let d = wander(r * w + k, 3, p, 16383); if d.abs() > 8191 { 0 } else { d } }).unwrap();
            let (doc, e) = srw2_doc(w, h, &b, s, false);
            check(ctx, &doc, &e, &|| format!("SRW2 {}x{}", w, h));
        }));
        v.push(job(format!("large: Sony first generation {}x{}", w, h), move |ctx: &mut Ctx| {
            ctx.states += 1;
            let h = h.max(10) / 2 * 2;
            let (b, s) = arw1_scan(w, h, &mut |i, p| wander(i, 4, p, 4095));
            if let Some((doc, e)) = arw1_doc(w, h, &b, s) { check(ctx, &doc, &e, &|| format!("ARW1 {}x{}", w, h)); }
        }));
        v.push(job(format!("large: Phase One {}x{}", w, h), move |ctx: &mut Ctx| for order in 0..2u8 { let w = w + 5 * order as usize;
            ctx.states += 1;
            let mut s = Vec::new();
            let mut rows = Vec::new();
            for r in 0..h {
                let mut p = [0i32; 2];
                let row: Vec<u16> = (0..w).map(|k| { let d = (mix(r, k, 5) % 31) as i32 - 15; let d = if k < 2 { (mix(r, k, 6) & 0x7fff) as i32 + 1000 } else { d }; p[k & 1] = (p[k & 1] + d).clamp(0, 65535); p[k & 1] as u16 }).collect();
                rows.push(iiq_row(w, &row, &|g, _| match g { 0 => Some(14), 1 => Some(6), x if x % 5 == 2 => Some(IIQ_LENS[x % 10]).filter(|&l| l > 5), _ => None }).unwrap());
                s.extend(row);
            }
            let (doc, e) = iiq_doc(w, h, &s, rows, order, order);
            check(ctx, &doc, &e, &|| format!("IIQ {}x{}", w, h));
        }));
        v.push(job(format!("large: Kodak {}x{}", w, h), move |ctx: &mut Ctx| {
            ctx.states += 1;
            let mut p = 2000i32;
            let vals: Vec<i32> = (0..w * h).map(|i| { p += wander(i, 6, p, 4095); p }).collect();
            let (doc, e) = dcr_doc(w, h, dcr_encode(w, &vals, &|_| 0), &vals, 2, n % 2 == 0);
            check(ctx, &doc, &e, &|| format!("DCR {}x{}", w, h));
        }));
        if w < 65536 && h < 65536 { v.push(job(format!("large: CRW {}x{}", w, h), move |ctx: &mut Ctx| for t in 0..3usize { if n == 5 && t > 0 && !thorough() { continue; }
            ctx.states += 1;
            let h = (h + 15) / 16 * 16;
            let mut b = Bits::new();
            let mut blocks = Vec::new();
            let mut carry = 0i32;
            for n in 0..w * h / 64 {
                let mut d = [0i32; 64];
                for k in 0..64 { d[k] = match mix(n, k, t) % 11 { 0 => 5, 1 => -5, 2 => 1, 3 => -1, 4 if k % 8 == 1 => 60, 5 if k % 8 == 3 => -60, _ => 0 }; }
                d[0] = -carry.signum() * 3 + (mix(n, 99, t) % 5) as i32 - 2;
                if n % 17 == 5 { d[0] -= 300; } if n % 17 == 6 { d[0] += 300; }
                let len = b.v.len();
                if crw_block(&mut b, t, &d).is_none() { b.v.truncate(len); let x = d[0]; d = [0; 64]; d[0] = x; crw_block(&mut b, t, &d).unwrap(); }
                carry += d[0];
                blocks.push(d);
            }
            let s = crw_samples(w, h, &blocks);
            let low = |i: usize| (mix(i, 8, t) & 3) as u8;
            let (doc, e) = crw_doc("Canon EOS 10D", w, h, t as u32, &b, &s, Some(&low), 0);
            check(ctx, &doc, &e, &|| format!("CRW {}x{} table {}", w, h, t));
        })); }
    }
}
fn jobs() -> Vec<Job> {
    let mut v = Vec::new();
    nef_jobs(&mut v); pef_jobs(&mut v); srw2_jobs(&mut v); arw1_jobs(&mut v); iiq_jobs(&mut v); dcr_jobs(&mut v); crw_jobs(&mut v); large_jobs(&mut v);
    v
}
fn main() {
    run_main(Spec::new("C05", "Nikon: all six code tables x all code words x all values of their bits in several alignments, small images with up to 2 (thorough 3) unusual differences at every position and every split row, header versions x byte orders x curve sizes and shapes, small raw over a grid of luma and chroma; Pentax: built-in and eight file tables x all differences; Samsung: all 14 codes x all differences; Sony: all differences up to 17 bits, A100; Phase One: all lengths x all differences, all length changes, all tails; Kodak: all differences, widths in steps of 4, five curves; CRW: three tables x all leaves, runs, low bits, widths; every format at camera sizes and beyond 65535 columns or rows",
        &["values beyond the end of a Nikon curve, Kodak's raw escape lengths and Kodak widths not divisible by four are not claimed", "Nikon small raw is compared to within the single-precision rounding of its colour conversion"]), jobs)
}
