//! Models of the entropy-, block- and context-coded vendor formats: token streams to bits and to samples.
//! Written from the published descriptions of the formats; each model produces the coded bits and the samples they stand for.
use crate::bits::*;
use crate::nikon::TREE;

/// prefix codes in canonical order: (code, length, value)
pub fn canon(bits: &[u8], vals: &[u8]) -> Vec<(u32, u32, u8)> {
    let mut o = Vec::new();
    let (mut code, mut k) = (0u32, 0);
    for l in 1..=16u32 { for _ in 0..bits[l as usize - 1] { o.push((code, l, vals[k])); code += 1; k += 1; } code <<= 1; }
    o
}
/// JPEG-style value of n magnitude bits
pub fn ext(n: u32, b: u32) -> i32 { if n == 0 { 0 } else if b >> (n - 1) & 1 == 1 { b as i32 } else { b as i32 - (1 << n) + 1 } }
/// magnitude bits of d in n bits
pub fn mags(d: i32) -> (u32, u32) { let n = 32 - d.unsigned_abs().leading_zeros(); if d >= 0 { (n, d as u32) } else { (n, (d + (1 << n) - 1) as u32) } }

// ---------------------------------------------------------------- Nikon
/// a code word by its position in the table, and the bits that follow it
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tok { pub i: usize, pub b: u32 }
pub fn nef_codes(t: usize) -> Vec<(u32, u32, u8)> { canon(&TREE[t][..16], &TREE[t][16..]) }
/// difference of a code word: low nibble the length, high nibble how many low bits are left out
pub fn nef_diff(v: u8, b: u32) -> i32 {
    let (len, shl) = ((v & 15) as i32, (v >> 4) as i32);
    if len == 0 { return 0; }
    let mut d = (((b as i32) << 1) + 1) << shl >> 1;
    if d & (1 << (len - 1)) == 0 { d -= (1 << len) - (shl == 0) as i32; }
    d
}
pub fn nef_extra(v: u8) -> u32 { (v & 15) as u32 - (v >> 4) as u32 }
/// the first code word of table t that stands for d
pub fn nef_tok(t: usize, d: i32) -> Option<Tok> {
    for (i, c) in nef_codes(t).iter().enumerate() {
        let (len, shl) = ((c.2 & 15) as u32, (c.2 >> 4) as u32);
        if len == 0 { if d == 0 { return Some(Tok { i, b: 0 }); } continue; }
        let u = if d > 0 { d } else if shl == 0 { d + (1 << len) - 1 } else { d + (1 << len) };
        if u < 0 || u >= 1 << len { continue; }
        let b = (u >> shl) as u32;
        if nef_diff(c.2, b) == d { return Some(Tok { i, b }); }
    }
    None
}
/// bits and raw values (before clamping and curve); tables change at `split`
pub fn nef_scan(tree: usize, split: usize, init: [u16; 4], w: usize, h: usize, tok: &mut dyn FnMut(usize, usize, i32) -> Tok) -> (Bits, Vec<i32>) {
    let (a, s) = (nef_codes(tree), if split > 0 { nef_codes(tree + 1) } else { vec![] });
    let mut up = [[init[0] as i32, init[2] as i32], [init[1] as i32, init[3] as i32]]; // [row parity][column parity]
    let mut b = Bits::new();
    let mut o = Vec::new();
    for r in 0..h { let mut left = [0i32; 2]; for k in 0..w {
        let c = if split > 0 && r >= split { &s } else { &a };
        let t = tok(r, k, if k < 2 { up[r & 1][k] } else { left[k & 1] });
        let (code, len, v) = c[t.i];
        b.put(code, len);
        b.put(t.b, nef_extra(v));
        let d = nef_diff(v, t.b);
        if k < 2 { up[r & 1][k] += d; left[k] = up[r & 1][k]; } else { left[k & 1] += d; }
        o.push(left[k & 1]);
    } }
    (b, o)
}
pub fn first24(b: &Bits) -> u32 { (0..24).fold(0, |a, i| a << 1 | *b.v.get(i).unwrap_or(&false) as u32) }

// ---------------------------------------------------------------- Pentax
pub const PEF_TREE: [u8; 29] = [0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12];
/// codes by category; `tab` (category order): (code left-aligned in 12 bits, length)
pub fn pef_codes(tab: Option<&[(u16, u8)]>) -> Vec<(u32, u32, u8)> {
    match tab {
        None => canon(&PEF_TREE[..16], &PEF_TREE[16..]),
        Some(t) => t.iter().enumerate().map(|(i, x)| ((x.0 >> (12 - x.1)) as u32, x.1 as u32, i as u8)).collect(),
    }
}
/// the makernote table: number of categories, their codes and lengths
pub fn pef_table(t: &[(u16, u8)], big: bool) -> Vec<u8> {
    let p = |v: u16| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let mut o = p((t.len() as u16 + 4) & 15).to_vec();
    o.extend([0x77; 12]);
    for x in t { o.extend(p(x.0)); }
    for x in t { o.push(x.1); }
    o.extend(crate::bits::slack(8));
    o
}
pub fn pef_scan(codes: &[(u32, u32, u8)], w: usize, h: usize, diff: &mut dyn FnMut(usize, usize, i32) -> i32) -> Option<(Bits, Vec<u16>)> {
    let mut up = [[0i32; 2]; 2];
    let mut b = Bits::new();
    let mut o = Vec::new();
    for r in 0..h { let mut left = [0i32; 2]; for k in 0..w {
        let d = diff(r, k, if k < 2 { up[r & 1][k] } else { left[k & 1] });
        let (n, m) = mags(d);
        let c = codes.iter().find(|c| c.2 as u32 == n)?;
        b.put(c.0, c.1); b.put(m, n);
        if k < 2 { up[r & 1][k] += d; left[k] = up[r & 1][k]; } else { left[k & 1] += d; }
        o.push(left[k & 1] as u16);
    } }
    Some((b, o))
}

// ---------------------------------------------------------------- Samsung variable length (second generation)
/// (code length, difference length) in code order
pub const SRW2: [(u32, u32); 14] = [(3, 4), (3, 7), (2, 6), (2, 5), (4, 3), (6, 0), (7, 9), (8, 10), (9, 11), (10, 12), (10, 13), (5, 1), (4, 8), (4, 2)];
pub fn srw2_codes() -> Vec<(u32, u32, u8)> {
    let mut n = 0u32;
    SRW2.iter().map(|&(l, d)| { let c = n >> (10 - l); n += 1024 >> l; (c, l, d as u8) }).collect()
}

// ---------------------------------------------------------------- Sony first generation
/// columns right to left, even rows first
pub fn arw1_scan(w: usize, h: usize, diff: &mut dyn FnMut(usize, i32) -> i32) -> (Bits, Vec<u16>) {
    let mut b = Bits::new();
    let mut o = vec![0u16; w * h];
    let (mut sum, mut n) = (0i32, 0);
    for x in 0..w { for f in 0..2 { let mut r = f; while r < h {
        let d = diff(n, sum); n += 1;
        let (l, m) = mags(d);
        match l { 0 => b.put(0b011, 3), 1 => b.put(0b11, 2), 2 => b.put(0b10, 2), 3 => b.put(0b010, 3),
            l if l < 17 => { b.put(0b00, 2); let z = l - 4; b.put(0, z); b.put(1, 1); }
            _ => b.put(0, 15) }
        b.put(m, l);
        sum += d;
        o[r * w + w - 1 - x] = sum as u16;
        r += 2;
    } } }
    (b, o)
}

// ---------------------------------------------------------------- Phase One
pub const IIQ_LENS: [u32; 10] = [8, 7, 6, 9, 11, 10, 5, 12, 14, 13];
/// One row. `len(group, parity)`: None keeps the previous length. Returns None when a sample does not fit the given lengths.
pub fn iiq_row(w: usize, s: &[u16], len: &dyn Fn(usize, usize) -> Option<u32>) -> Option<Bits> {
    let mut b = Bits::new();
    let (mut ln, mut pred) = ([0u32; 2], [0i64; 2]);
    for k in 0..w {
        if k >= w / 8 * 8 { ln = [14; 2]; }
        else if k % 8 == 0 { for p in 0..2 { match len(k / 8, p) {
            None => { if ln[p] == 0 { return None; } b.put(1, 1); }
            Some(l) => { let i = IIQ_LENS.iter().position(|&x| x == l)?; let z = i as u32 / 2 + 1; b.put(0, z); if z < 5 { b.put(1, 1); } b.put(i as u32 & 1, 1); ln[p] = l; }
        } } }
        let l = ln[k & 1];
        if l == 14 { b.put(s[k] as u32, 16); }
        else {
            let d = s[k] as i64 - pred[k & 1] - 1 + (1 << (l - 1));
            if d < 0 || d >= 1 << l { return None; }
            b.put(d as u32, l);
        }
        pred[k & 1] = s[k] as i64;
    }
    Some(b)
}

// ---------------------------------------------------------------- Kodak DCR
/// differences of one segment (at most 256, even)
pub fn dcr_segment(d: &[i32], lens: &[u32]) -> Vec<u8> {
    let n = d.len();
    let mut o: Vec<u8> = (0..n / 2).map(|i| (lens[2 * i] | lens[2 * i + 1] << 4) as u8).collect();
    let mut l = LsbBits::new();
    for i in 0..n { let v = if lens[i] == 0 { 0 } else if d[i] > 0 { d[i] as u32 } else { (d[i] + (1 << lens[i]) - 1) as u32 }; l.put(v, lens[i]); }
    // bits are consumed from 16-bit big-endian words; each refill is two words, the first one alone when n % 8 == 4
    // a reader asks for 32 more bits only when it has too few
    let (mut have, mut need) = (if n % 8 == 4 { 16usize } else { 0 }, 0usize);
    for i in 0..n { need += lens[i] as usize; if have < need { have += 32; } }
    while l.v.len() < have { l.v.push(false); }
    let by = l.bytes();
    for c in by.chunks(2) { o.push(c[1]); o.push(c[0]); }
    o
}

// ---------------------------------------------------------------- Canon CRW
pub const CRW1: [[u8; 29]; 3] = [
    [0, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 3, 5, 6, 2, 7, 1, 8, 9, 0, 10, 11, 255],
    [0, 2, 2, 3, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 3, 2, 4, 1, 5, 0, 6, 7, 9, 8, 10, 11, 255],
    [0, 0, 6, 3, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 5, 7, 4, 8, 3, 9, 2, 0, 10, 1, 11, 255],
];
include!("crw_tables.rs");
pub fn crw_codes(t: usize, second: bool) -> Vec<(u32, u32, u8)> { if second { canon(&CRW2[t][..16], &CRW2[t][16..]) } else { canon(&CRW1[t][..16], &CRW1[t][16..]) } }
/// One block of 64 differences as code words: (run of zeros skipped, difference). Returns None when a needed leaf does not exist.
pub fn crw_block(b: &mut Bits, t: usize, d: &[i32; 64]) -> Option<()> {
    let (c1, c2) = (crw_codes(t, false), crw_codes(t, true));
    let put = |b: &mut Bits, c: &Vec<(u32, u32, u8)>, leaf: u8| -> Option<()> { let x = c.iter().find(|x| x.2 == leaf)?; b.put(x.0, x.1); Some(()) };
    let (n, m) = mags(d[0]);
    put(b, &c1, n as u8)?; b.put(m, n);
    let mut i = 1;
    while i < 64 {
        match (i..64).find(|&k| d[k] != 0) {
            None => { put(b, &c2, 0)?; break; }
            Some(mut k) => {
                while k - i > 15 { put(b, &c2, 0xf0)?; i += 16; }
                if k < i { k = i; }
                let (n, m) = mags(d[k]);
                put(b, &c2, ((k - i) as u8) << 4 | n as u8)?;
                b.put(m, n);
                i = k + 1;
            }
        }
    }
    Some(())
}
/// raw code words: (leaf, bits) until the block is complete; the leaf meanings follow the format
pub fn crw_leaves(b: &mut Bits, t: usize, leaves: &[(u8, u32)]) -> Option<[i32; 64]> {
    let (c1, c2) = (crw_codes(t, false), crw_codes(t, true));
    let mut d = [0i32; 64];
    let mut i = 0;
    let mut it = leaves.iter();
    while i < 64 {
        let &(leaf, m) = it.next()?;
        let c = if i > 0 { &c2 } else { &c1 };
        let x = c.iter().find(|x| x.2 == leaf)?;
        b.put(x.0, x.1);
        if leaf == 0 && i > 0 { break; }
        if leaf == 0xff { i += 1; continue; }
        i += (leaf >> 4) as usize;
        let n = (leaf & 15) as u32;
        if n == 0 { i += 1; continue; }
        b.put(m & ((1 << n) - 1), n);
        if i < 64 { d[i] = ext(n, m & ((1 << n) - 1)); }
        i += 1;
    }
    Some(d)
}
/// samples (before low bits) from blocks of differences
pub fn crw_samples(w: usize, h: usize, blocks: &[[i32; 64]]) -> Vec<u16> {
    let (mut carry, mut base) = (0i32, [0i32; 2]);
    let mut o = Vec::new();
    for b in blocks { for i in 0..64 {
        let mut d = b[i];
        if i == 0 { d += carry; carry = d; }
        if o.len() % w == 0 { base = [512; 2]; }
        base[i & 1] += d;
        o.push(base[i & 1] as u16);
    } }
    assert!(o.len() == w * h);
    o
}

// ---------------------------------------------------------------- Sony 16-pixel blocks
#[derive(Clone, Debug)]
pub struct Arw2Block { pub max: u32, pub min: u32, pub imax: usize, pub imin: usize, pub v: [u32; 16] }
pub fn arw2_curve(c: [u16; 4]) -> Vec<u16> {
    let mut knots = vec![0usize];
    for x in c { knots.push((x >> 2 & 0xfff) as usize); }
    knots.push(4095);
    let mut o = vec![0u16; 4096];
    for i in 0..5 { for j in knots[i] + 1..=knots[i + 1] { o[j] = o[j - 1] + (1 << i); } }
    o
}
/// rows of w/16 blocks (even and odd columns of 32-pixel groups alternate); samples before the curve
pub fn arw2_row(blocks: &[Arw2Block]) -> (Vec<u8>, Vec<u32>) {
    let mut b = LsbBits::new();
    let mut o = vec![0u32; blocks.len() * 16];
    for (n, k) in blocks.iter().enumerate() {
        b.put(k.max, 11); b.put(k.min, 11); b.put(k.imax as u32, 4); b.put(k.imin as u32, 4);
        let mut sh = 0; while (k.max - k.min) >> (sh + 7) > 0 { sh += 1; }
        for i in 0..16 {
            let v = if i == k.imax { k.max } else if i == k.imin { k.min } else { b.put(k.v[i], 7); ((k.v[i] << sh) + k.min).min(0x7ff) };
            o[n / 2 * 32 + n % 2 + 2 * i] = v << 1;
        }
    }
    (b.bytes(), o)
}

// ---------------------------------------------------------------- Olympus
/// `esc(row, col)`: use the long form even where the short one would do
pub fn orf_scan(w: usize, h: usize, s: &[u16], esc: &dyn Fn(usize, usize) -> bool) -> Option<Bits> {
    let mut b = Bits::new();
    for r in 0..h {
        let mut carry = [[0i64; 3]; 2];
        for k in 0..w {
            let c = &mut carry[k & 1];
            let i = if c[2] < 3 { 2 } else { 0 };
            let mut nbits = 2 + i;
            while (c[0] as u16 as u32) >> (nbits + i) != 0 { nbits += 1; }
            let at = |r: usize, k: usize| s[r * w + k] as i64;
            let pred = if r < 2 && k < 2 { 0 } else if r < 2 { at(r, k - 2) } else if k < 2 { at(r - 2, k) } else {
                let (l, u, nw) = (at(r, k - 2), at(r - 2, k), at(r - 2, k - 2));
                if (l < nw && nw < u) || (u < nw && nw < l) { if (l - nw).abs() > 32 || (u - nw).abs() > 32 { l + u - nw } else { (l + u) >> 1 } }
                else if (l - nw).abs() > (u - nw).abs() { l } else { u }
            };
            let delta = at(r, k) - pred;
            let (low, diff) = ((delta & 3) as u32, delta >> 2);
            let x = diff - c[1];
            let (sign, mag) = if x >= 0 { (0, x) } else { (1, !x) };
            let high = mag >> nbits;
            b.put(sign, 1); b.put(low, 2);
            if high < 12 && !esc(r, k) { b.put(0, high as u32); b.put(1, 1); }
            else { if high >= 1 << (15 - nbits) { return None; } b.put(0, 12); b.put((high as u32) << 1 | (k as u32 & 1), 16 - nbits); }
            b.put(mag as u32 & ((1 << nbits) - 1), nbits);
            c[0] = mag;
            c[1] = (diff * 3 + c[1]) >> 5;
            c[2] = if mag > 16 { 0 } else { c[2] + 1 };
        }
    }
    Some(b)
}

// ---------------------------------------------------------------- Panasonic
/// 16 bytes of one group of 14 pixels: fields in reading order come from `next(pixel, kind)`; kind 0 shift (2 bits), 1 value (8), 2 low bits (4)
pub fn pana_group(next: &mut dyn FnMut(usize, u8) -> u32) -> ([u8; 16], [u16; 14]) {
    let mut b = Bits::new();
    let mut o = [0u16; 14];
    let (mut pred, mut seen, mut sh) = ([0i32; 2], [false; 2], 0);
    for i in 0..14 {
        let p = i & 1;
        if i % 3 == 2 { let c = next(i, 0) & 3; b.put(c, 2); sh = [0, 1, 2, 4][c as usize]; }
        let j = next(i, 1) & 255;
        b.put(j, 8);
        if seen[p] {
            if j != 0 {
                pred[p] -= 0x80 << sh;
                if pred[p] < 0 || sh == 4 { pred[p] &= (1 << sh) - 1; }
                pred[p] += (j as i32) << sh;
            }
        } else {
            seen[p] = j != 0;
            if j != 0 || i > 11 { let l = next(i, 2) & 15; b.put(l, 4); pred[p] = (j << 4 | l) as i32; }
        }
        o[i] = pred[p] as u16;
    }
    // the stream is read from the last byte of the group to the first, high bits first
    let by = b.bytes();
    assert!(b.len() == 128);
    let mut g = [0u8; 16];
    for i in 0..16 { g[15 - i] = by[i]; }
    (g, o)
}
/// groups of 16 bytes laid out in blocks of 0x4000, optionally with the two parts of each block swapped
pub fn pana_layout(groups: &[[u8; 16]], split: bool) -> Vec<u8> {
    let mut o: Vec<u8> = groups.iter().flat_map(|g| g.iter().cloned()).collect();
    if split {
        o.resize((o.len() + 0x3fff) / 0x4000 * 0x4000, 0);
        for c in o.chunks_mut(0x4000) { c.rotate_left(0x2008); }
    }
    o
}

// ---------------------------------------------------------------- Samsung blocks (first generation)
pub struct Srw1Block { pub up: bool, pub ops: [(u32, u32); 4], pub adj: [i32; 16] }
/// Returns the bits of a row; fills the row. None when an adjustment does not fit its length or the length leaves its range.
pub fn srw1_row(o: &mut Vec<u16>, w: usize, row: usize, blocks: &[Srw1Block]) -> Option<Bits> {
    let mut b = Bits::new();
    let mut len = [if row < 2 { 7i32 } else { 4 }; 4];
    for (n, k) in blocks.iter().enumerate() {
        let col = n * 16;
        b.put(k.up as u32, 1);
        for x in k.ops { b.put(x.0, 2); }
        for i in 0..4 { match k.ops[i].0 { 3 => { b.put(k.ops[i].1, 4); len[i] = k.ops[i].1 as i32; } 2 => len[i] -= 1, 1 => len[i] += 1, _ => {} } if len[i] < 0 || len[i] > 16 { return None; } }
        for odd in 0..2 { for c in (odd..16).step_by(2) {
            let l = len[odd * 2 + (c >> 3)];
            let a = k.adj[c];
            if l == 0 && a != 0 || l > 0 && (a < -(1 << (l - 1)) || a >= 1 << (l - 1)) { return None; }
            b.put(a as u32, l as u32);
            let p = if k.up { let back = if odd == 0 { 1 } else { 2 }; if row >= back { o[(row - back) * w + col + c] } else { return None } }
                else if col == 0 { 128 } else { o[row * w + col - 2 + odd] };
            o[row * w + col + c] = (p as i32 + a) as u16;
        } }
    }
    Some(b)
}
/// red and blue trade places
pub fn srw1_swap(o: &mut [u16], w: usize, h: usize) { for r in (0..h).step_by(2) { for c in (0..w).step_by(2) { o.swap(r * w + c + 1, (r + 1) * w + c); } } }

// ---------------------------------------------------------------- Samsung NX1
#[derive(Clone, Debug)]
pub struct Srw3Block { pub scale: (u32, u32), pub motion: Option<u32>, pub skip: bool, pub flags: [(u32, u32); 4], pub diff: [i32; 16] }
pub fn srw3_head(depth: u32, opt: u32, w: usize, h: usize, init: u32) -> Bits {
    let mut b = Bits::new();
    for (v, n) in [(0x1234, 16), (5, 4), (depth - 1, 4), (9, 4), (3, 4), (w as u32, 16), (h as u32, 16), (w as u32, 16), (6, 4), (opt, 4), (0x55, 8), (0xaa, 8), (0x33, 8), (2, 2), (init, 14)] { b.put(v, n); }
    b
}
/// One line; `o` holds the lines above. None when something is out of range.
pub fn srw3_row(o: &mut Vec<u16>, w: usize, row: usize, depth: u32, opt: u32, init: u32, blocks: &[Srw3Block]) -> Option<Bits> {
    let mut b = Bits::new();
    let (mut motion, mut scale) = (7u32, 0i32);
    let mut mode = [[if row < 2 { 7i32 } else { 4 }; 2]; 3];
    for (n, k) in blocks.iter().enumerate() {
        let col = n * 16;
        if opt & 4 == 0 && col % 64 == 0 { b.put(k.scale.0, 2); match k.scale.0 { 0 => {} 1 => scale -= 2, 2 => scale += 2, _ => { b.put(k.scale.1, 12); scale = k.scale.1 as i32; } } }
        if opt & 2 != 0 { let m = k.motion.unwrap_or(7); if m != 3 && m != 7 { return None; } b.put((m == 3) as u32, 1); motion = m; }
        else { match k.motion { None => b.put(1, 1), Some(m) => { b.put(0, 1); b.put(m, 3); motion = m; } } }
        if row < 2 && motion != 7 { return None; }
        let mut pred = [0i64; 16];
        for i in 0..16 {
            pred[i] = if motion == 7 { if col == 0 { init as i64 } else { o[row * w + col - 2 + (i & 1)] as i64 } } else {
                let off = [-4i64, -2, -2, 0, 0, 2, 4][motion as usize];
                // green is on odd columns of odd rows and even columns of even rows: from the line above, one pixel aside; the others from two lines above
                let (rr, x) = if (row + i) & 1 == 1 { (row - 2, (col + i) as i64) } else { (row - 1, if i & 1 == 1 { (col + i) as i64 - 1 } else { (col + i) as i64 + 1 }) };
                let at = |x: i64| -> Option<i64> { if x < 0 || x >= w as i64 { None } else { Some(o[rr * w + x as usize] as i64) } };
                let a = at(x + off)?;
                if motion == 2 || motion == 4 { (a + at(x + off + 2)? + 1) >> 1 } else { a }
            };
        }
        let mut bits = [0i32; 4];
        if opt & 1 == 0 { b.put(k.skip as u32, 1); } else if k.skip { return None; }
        if !k.skip {
            for x in k.flags { b.put(x.0, 2); }
            for i in 0..4 {
                let c = if row & 1 == 1 { i / 2 } else { (i / 2 + 2) % 3 };
                bits[i] = match k.flags[i].0 { 0 => mode[c][0], 1 => mode[c][0] + 1, 2 => mode[c][0] - 1, _ => { b.put(k.flags[i].1, 4); k.flags[i].1 as i32 } };
                mode[c][0] = mode[c][1];
                mode[c][1] = bits[i];
                if bits[i] < 0 || bits[i] > depth as i32 + 1 { return None; }
            }
        }
        for i in 0..16 {
            let l = bits[i / 4];
            let d = k.diff[i];
            if l == 0 && d != 0 || l > 0 && (d < -(1 << (l - 1)) || d >= 1 << (l - 1)) { return None; }
            b.put(d as u32, l as u32);
            let x = ((i & 7) << 1) + if row & 1 == 1 { 1 - (i >> 3) } else { i >> 3 };
            let v = pred[x] + d as i64 * (scale as i64 * 2 + 1) + scale as i64;
            o[row * w + col + x] = v.max(0).min((1 << depth) - 1) as u16;
        }
    }
    Some(b)
}
/// header and lines, each line starting at a multiple of 16 bytes
pub fn srw3_file(head: &Bits, rows: &[Bits]) -> Vec<u8> {
    let mut o = head.msb32();
    for r in rows { while o.len() % 16 != 0 { o.push(0); } o.extend(r.msb32()); }
    o.extend(crate::bits::slack(32));
    o
}

// ---------------------------------------------------------------- sequences that visit every difference
/// Hands out the wanted differences one after the other; where the predictor has no room for the next one it first moves away.
pub struct Walk { pub want: Vec<i32>, pub at: usize, pub lo: i32, pub hi: i32, pub step: i32 }
impl Walk {
    pub fn new(want: Vec<i32>, lo: i32, hi: i32, step: i32) -> Walk { Walk { want, at: 0, lo, hi, step } }
    pub fn next(&mut self, p: i32) -> i32 {
        if self.at >= self.want.len() { return 0; }
        let d = self.want[self.at];
        if p + d >= self.lo && p + d <= self.hi { self.at += 1; return d; }
        let goal = if d > 0 { self.lo } else { self.hi };
        (goal - p).max(-self.step).min(self.step)
    }
}
