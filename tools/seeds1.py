HEAD='''extern crate rawloader;
use rawloader::CFA;
use std::io::Write;
'''
def u16s(vs): return b''.join(bytes([v&255,v>>8]) for v in vs)
# a tiny little-endian DNG with any number of extra tags, built by the demo itself
MKDNG='''
fn dng(w: u16, h: u16, orient: u16, data: &[u16]) -> Vec<u8> {
    let mut e: Vec<(u16, u16, u32, Vec<u8>)> = Vec::new();
    let s = |v: u16| v.to_le_bytes().to_vec();
    let l = |v: u32| v.to_le_bytes().to_vec();
    e.push((0xfe, 4, 1, l(0))); e.push((0x100, 3, 1, s(w))); e.push((0x101, 3, 1, s(h))); e.push((0x102, 3, 1, s(16))); e.push((0x103, 3, 1, s(1))); e.push((0x106, 3, 1, s(32803)));
    e.push((0x10f, 2, 4, b"Foo\\0".to_vec())); e.push((0x110, 2, 4, b"Bar\\0".to_vec())); e.push((0x111, 4, 1, l(0))); e.push((0x112, 3, 1, s(orient))); e.push((0x115, 3, 1, s(1)));
    e.push((0x828e, 1, 4, vec![0, 1, 1, 2])); e.push((0xc612, 1, 4, vec![1, 4, 0, 0])); e.push((0xc61a, 3, 1, s(0))); e.push((0xc61d, 3, 1, s(16000)));
    let n = e.len();
    let off = 8 + 2 + n * 12 + 4;
    let mut o = vec![0x49, 0x49, 42, 0, 8, 0, 0, 0];
    o.extend((n as u16).to_le_bytes());
    for (t, ty, c, mut v) in e { if t == 0x111 { v = (off as u32).to_le_bytes().to_vec(); } v.resize(4, 0); o.extend(t.to_le_bytes()); o.extend(ty.to_le_bytes()); o.extend(c.to_le_bytes()); o.extend(v); }
    o.extend([0, 0, 0, 0]);
    for v in data { o.extend(v.to_le_bytes()); }
    o
}
fn open(w: u16, h: u16, orient: u16, data: &[u16]) -> rawloader::RawImage {
    let p = std::path::Path::new(&std::env::args().nth(2).unwrap()).join("t.dng");
    std::fs::File::create(&p).unwrap().write_all(&dng(w, h, orient, data)).unwrap();
    rawloader::decode(p.to_str().unwrap()).unwrap()
}
'''
seeds=[
dict(id='orf-field-align',property='C03',edits=[('src/decoders/packed.rs','let second_field_offset = ((half*width*3/2 >> 11) + 1) << 11;','let second_field_offset = (half*width*3/2 + 2047) >> 11 << 11;')],
 needs='an Olympus interlaced file whose first field is an exact multiple of 2048 bytes',breaks='odd rows are read 2048 bytes too early',raw='/tmp/fx/orf_2048'),
dict(id='huff-16bit-code',property='C04',edits=[('src/decoders/ljpeg/huffman.rs','if l > 16 || self.valptr[l] == 0xff {','if l > 15 || self.valptr[l] == 0xff {')],
 needs='a lossless JPEG whose table has a code word of the maximum length 16 which actually occurs',breaks='such files are rejected',raw='/tmp/fx/lj16'),
dict(id='cfa-shift-height',property='C09',edits=[('src/decoders/cfa.rs','pattern[row][col] = self.color_at(row+y,col+x);','pattern[row][col] = self.color_at(row+y%6,col+x%6);')],
 needs='a pattern whose height is not a divisor of 6 (2x8 or 12x12) and an offset of at least 6',breaks='shifted pattern shows the wrong colours',
 rs=HEAD+'''fn main() {
    let c = CFA::new("RGGBRGGBGRBGGRBG");
    for y in 0..30 { let s = c.shift(0, y); for r in 0..16 { for k in 0..4 { if s.color_at(r, k) != c.color_at(r + y, k) { eprintln!("shift {} wrong at {},{}", y, r, k); std::process::exit(1); } } } }
}'''),
dict(id='black-corner',property='C19',edits=[('src/decoders/image.rs',"""      for row in 0..height {
        for col in camera.blackareav.0""","""      for row in camera.blackareah.0 .. height {
        for col in camera.blackareav.0""")],
 needs='a camera whose masked row band starts below row 0 and which also has a masked column band, with different values above the band',breaks='masked columns above the masked rows are left out of the mean',
 rs="""extern crate rawloader;
use rawloader::decoders::*;
fn main() {
    // Canon EOS 50D: rows [6, 42], columns [6, 52], pattern GBRG (data/cameras/canon/50d.toml)
    let l = RawLoader::new();
    let cam = l.check_supported_with_everything("Canon", "Canon EOS 50D", "").unwrap();
    let (h0, hn, v0, vn) = (2usize, 46usize, 0usize, 60usize);
    let (w, h) = (80usize, 60usize);
    let data: Vec<u16> = (0..w * h).map(|i| ((i * 37) % 101 + 900 / (1 + i / w)) as u16).collect();
    let (mut s, mut n) = ([0f64; 4], [0f64; 4]);
    let col = |r: usize, c: usize| [[1, 2], [0, 1]][r % 2][c % 2];
    for r in h0..h0 + hn { for c in 0..w { let k = col(r, c); s[k] += data[r * w + c] as f64; n[k] += 1.0; } }
    for r in 0..h { for c in v0..v0 + vn { let k = col(r, c); s[k] += data[r * w + c] as f64; n[k] += 1.0; } }
    let img = RawImage::new(cam, w, h, [1.0; 4], data);
    for k in 0..3 { if img.blacklevels[k] != (s[k] / n[k]) as u16 { eprintln!("colour {}: {} not {}", k, img.blacklevels[k], s[k] / n[k]); std::process::exit(1); } }
}"""),
dict(id='fit-height',property='C10',edits=[('src/imageops/demosaic.rs','if yscale > xscale {','if yscale > xscale && buf.height >= buf.width {')],
 needs='a landscape image with a box that is even flatter than the image',breaks='the output is taller than the requested box',
 rs=HEAD+MKDNG+'''fn main() {
    let i = open(60, 40, 1, &(0..2400).map(|x| (x * 7 % 15000) as u16).collect::<Vec<_>>());
    for (mw, mh) in [(50usize, 10usize), (10, 50), (20, 20), (59, 3), (60, 40), (100, 5)] {
        let o = i.to_linear_rgb(mw, mh).unwrap();
        if o.width > mw || o.height > mh || o.width == 0 || o.height == 0 { eprintln!("{}x{} for box {}x{}", o.width, o.height, mw, mh); std::process::exit(1); }
    }
}'''),
dict(id='flip-wide',property='C11',edits=[('src/imageops/transform.rs','(true, true, true) => flip_vertical(&flip_horizontal(&transpose(buf))),','(true, true, true) => if buf.width == buf.height { transpose(&flip_vertical(buf)) } else { flip_vertical(&flip_horizontal(&transpose(buf))) },')],
 needs='a square image with orientation 7 (transverse)',breaks='square transverse images are rotated instead of mirrored along the anti-diagonal',
 rs=HEAD+MKDNG+'''fn main() {
    for (w, h) in [(8u16, 8u16), (10, 6)] {
        let d: Vec<u16> = (0..w * h).map(|x| (x * 211) % 15000).collect();
        let a = open(w, h, 1, &d).to_linear_rgb(0, 0).unwrap();
        let b = open(w, h, 7, &d).to_linear_rgb(0, 0).unwrap();
        if (b.width, b.height) != (a.height, a.width) { std::process::exit(1); }
        for r in 0..b.height { for c in 0..b.width { for k in 0..3 {
            let (sr, sc) = (a.height - 1 - c, a.width - 1 - r);
            if b.data[(r * b.width + c) * 3 + k] != a.data[(sr * a.width + sc) * 3 + k] { eprintln!("{}x{} wrong at {},{}", w, h, r, c); std::process::exit(1); }
        } } }
    }
}'''),
dict(id='demosaic-right-edge',property='C12',edits=[('src/imageops/demosaic.rs','for x in (cmp::max(0,(col as isize)-1) as usize) .. cmp::min(buf.width, col+2) {','for x in (cmp::max(0,(col as isize)-1) as usize) .. cmp::min(buf.width & !1, col+2) {')],
 needs='an odd output width (a crop that leaves an odd number of columns)',breaks='the last column does not take part in the interpolation of its neighbours',
 rs=HEAD+MKDNG+'''fn main() {
    let (w, h) = (7u16, 6u16);
    let mut last = None;
    for v in [100u16, 9000] {
        let d: Vec<u16> = (0..w * h).map(|i| if i % w == 6 { v } else { 3000 }).collect();
        let o = open(w, h, 1, &d).to_linear_rgb(0, 0).unwrap();
        let px = o.data[(2 * 7 + 5) * 3..(2 * 7 + 5) * 3 + 3].to_vec();
        if let Some(p) = last { if p == px { eprintln!("last column has no influence on its neighbour"); std::process::exit(1); } }
        last = Some(px);
    }
}'''),
dict(id='wb-fallback',property='C13',edits=[('src/imageops/level.rs','            !img.wb_coeffs[2].is_normal() {','            img.wb_coeffs[2].is_nan() {')],
 needs='a file whose stored blue multiplier is zero or infinite (not NaN)',breaks='the neutral white balance is not used and blue collapses',
 rs=HEAD+MKDNG+'''fn main() {
    let mut i = open(8, 8, 1, &vec![5000u16; 64]);
    i.wb_coeffs = [f32::NAN; 4];
    let a = i.to_linear_rgb(0, 0).unwrap();
    for bad in [[2.0f32, 1.0, 0.0, 1.0], [2.0, 1.0, f32::INFINITY, 1.0], [0.0, 1.0, 2.0, 1.0], [2.0, f32::NAN, 2.0, 1.0]] {
        i.wb_coeffs = bad;
        let b = i.to_linear_rgb(0, 0).unwrap();
        if a.data.iter().zip(b.data.iter()).any(|(x, y)| (x - y).abs() > 1e-4) { eprintln!("{:?} is not replaced by the neutral balance", bad); std::process::exit(1); }
    }
}'''),
]
