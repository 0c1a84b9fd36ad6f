//! Reference model of the development pipeline, in f64.
use rawloader::{RawImage, CFA};
use rawloader::decoders::Orientation;
use crate::camdb::pat_color;

pub const RGB_XYZ: [[f64; 3]; 3] = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227]];
pub const D65: [f64; 3] = [0.9547, 1.0, 1.08883];

pub fn inv3(m: [[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let mut a = [[0.0f64; 6]; 3];
    for i in 0..3 { for j in 0..3 { a[i][j] = m[i][j]; } a[i][i + 3] = 1.0; }
    for i in 0..3 {
        let p = (i..3).max_by(|&x, &y| a[x][i].abs().partial_cmp(&a[y][i].abs()).unwrap()).unwrap();
        a.swap(i, p);
        let d = a[i][i];
        for j in 0..6 { a[i][j] /= d; }
        for k in 0..3 { if k != i { let f = a[k][i]; for j in 0..6 { a[k][j] -= f * a[i][j]; } } }
    }
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 { for j in 0..3 { o[i][j] = a[i][j + 3]; } }
    o
}
/// (cam to normalised XYZ, neutral multipliers before division by green)
pub fn matrices(xyz_to_cam: &[[f32; 3]; 4]) -> ([[f64; 4]; 3], [f64; 4]) {
    let mut rc = [[0.0f64; 3]; 4];
    let mut nw = [0.0f64; 4];
    for i in 0..4 {
        for j in 0..3 { for k in 0..3 { rc[i][j] += xyz_to_cam[i][k] as f64 * RGB_XYZ[k][j]; } }
        let s: f64 = rc[i].iter().sum();
        for j in 0..3 { rc[i][j] = if s == 0.0 { 0.0 } else { rc[i][j] / s }; }
        nw[i] = 1.0 / s;
    }
    // least squares inverse: (A^T A)^-1 A^T
    let mut ata = [[0.0; 3]; 3];
    for i in 0..3 { for j in 0..3 { for k in 0..4 { ata[i][j] += rc[k][i] * rc[k][j]; } } }
    let iv = inv3(ata);
    let mut cr = [[0.0f64; 4]; 3];
    for i in 0..3 { for j in 0..4 { for k in 0..3 { cr[i][j] += iv[i][k] * rc[j][k]; } } }
    let mut cx = [[0.0f64; 4]; 3];
    for i in 0..3 { for j in 0..4 { for k in 0..3 { cx[i][j] += RGB_XYZ[i][k] * cr[k][j] / D65[i]; } } }
    (cx, nw)
}
fn f(v: f64) -> f64 { let e: f64 = 6.0 / 29.0; if v > e * e * e { v.cbrt() } else { v / (3.0 * e * e) + 4.0 / 29.0 } }
fn fi(v: f64) -> f64 { let e: f64 = 6.0 / 29.0; if v > e { v * v * v } else { 3.0 * e * e * (v - 4.0 / 29.0) } }

/// the base curve: monotone cubic through (0,0) (.3,.25) (.5,.5) (.7,.75) (1,1), in Lab lightness
pub fn base_curve(x: f64) -> f64 {
    let xs = [0.0, 0.30, 0.5, 0.70, 1.0];
    let ys = [0.0, 0.25, 0.5, 0.75, 1.0];
    if x >= 1.0 { return 1.0; }
    let sl: Vec<f64> = (0..4).map(|i| (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])).collect();
    let mut m = vec![sl[0]];
    for i in 0..3 {
        let (a, b) = (xs[i + 1] - xs[i], xs[i + 2] - xs[i + 1]);
        let c = a + b;
        m.push(3.0 * c / ((c + b) / sl[i] + (c + a) / sl[i + 1]));
    }
    m.push(sl[3]);
    let i = if x < 0.3 { 0 } else if x < 0.5 { 1 } else if x < 0.7 { 2 } else { 3 };
    let h = xs[i + 1] - xs[i];
    let d = x - xs[i];
    let c3 = (m[i] + m[i + 1] - 2.0 * sl[i]) / (h * h);
    let c2 = (3.0 * sl[i] - 2.0 * m[i] - m[i + 1]) / h;
    ys[i] + d * (m[i] + d * (c2 + d * c3))
}
pub fn inv_curve(y: f64) -> f64 {
    let (mut lo, mut hi) = (-1.0, 1.0);
    for _ in 0..60 { let m = (lo + hi) / 2.0; if base_curve(m) < y { lo = m } else { hi = m } }
    (lo + hi) / 2.0
}
pub fn gamma(v: f64) -> f64 { let v = v.max(0.0).min(1.0); if v <= 0.018 { 4.5 * v } else { 1.099 * v.powf(0.45) - 0.099 } }

/// white balance multipliers that the pipeline applies
pub fn multipliers(img: &RawImage) -> [f64; 4] {
    let mono = img.cpp == 1 && img.cfa.width == 0;
    let w = img.wb_coeffs;
    let c: [f32; 4] = if mono { [1.0; 4] }
        else if w[0..3].iter().any(|x| !x.is_normal()) { let (_, n) = matrices(&img.xyz_to_cam); let mut r = [0f32; 4]; for i in 0..4 { r[i] = (n[i] / n[1]) as f32; } r }
        else { w };
    let mut r = [0.0; 4];
    for i in 0..4 { r[i] = if c[i].is_normal() { c[i] as f64 / c[1] as f64 } else { 1.0 }; }
    r
}
/// levels, white balance, matrix, Lab curve, to linear sRGB for one 4-channel sensor value
pub fn develop(img: &RawImage, cx: &[[f64; 4]; 3], mul: &[f64; 4], inv: &[[f64; 3]; 3], px: [f64; 4]) -> [f64; 3] {
    let mut c = [0.0; 4];
    for i in 0..4 {
        let (b, w) = (img.blacklevels[i] as f64, img.whitelevels[i] as f64);
        c[i] = ((px[i] - b) / (w - b) * mul[i]).min(1.0);
    }
    let mut x = [0.0; 3];
    for i in 0..3 { for j in 0..4 { x[i] += c[j] * cx[i][j]; } }
    let (fx, fy, fz) = (f(x[0]), f(x[1]), f(x[2]));
    let l = base_curve((116.0 * fy - 16.0) / 100.0) * 100.0;
    let (a, b) = (500.0 * (fx - fy), 200.0 * (fy - fz));
    let y = (l + 16.0) / 116.0;
    let o = [D65[0] * fi(y + a / 500.0), D65[1] * fi(y), D65[2] * fi(y - b / 200.0)];
    let mut r = [0.0; 3];
    for i in 0..3 { for j in 0..3 { r[i] += inv[i][j] * o[j]; } }
    r
}
/// as `develop`, with the largest error that single precision and cube roots looked up with 16 bits can cause
pub fn develop_exact(img: &RawImage, cx: &[[f64; 4]; 3], mul: &[f64; 4], inv: &[[f64; 3]; 3], px: [f64; 4]) -> ([f64; 3], [f64; 3]) {
    let mut c = [0.0; 4];
    for i in 0..4 {
        let (b, w) = (img.blacklevels[i] as f64, img.whitelevels[i] as f64);
        c[i] = ((px[i] - b) / (w - b) * mul[i]).min(1.0);
    }
    let (mut x, mut ex) = ([0.0f64; 3], [0.0f64; 3]);
    for i in 0..3 { for j in 0..4 { x[i] += c[j] * cx[i][j]; ex[i] += (c[j] * cx[i][j]).abs() * 1e-6 } }
    let tail = |x: [f64; 3], t: [f64; 3]| {
        let (fx, fy, fz) = (f(x[0]), f(x[1]), f(x[2]));
        let y = (base_curve((116.0 * fy - 16.0) / 100.0) * 100.0 + 16.0) / 116.0;
        let o = [D65[0] * fi(y + fx - fy + t[0]), D65[1] * fi(y + t[1]), D65[2] * fi(y - fy + fz + t[2])];
        let mut r = [0.0; 3];
        for i in 0..3 { for j in 0..3 { r[i] += inv[i][j] * o[j]; } }
        (r, o)
    };
    let (r, o) = tail(x, [0.0; 3]);
    let fs = x.iter().fold(2.0f64, |a, &y| a.max(f(y).abs()));
    let mut e = [0.0f64; 3];
    let mut add = |q: [f64; 3]| for k in 0..3 { e[k] += (q[k] - r[k]).abs(); };
    for i in 0..3 {
        let mut both = |d: f64| { let (mut u, mut v) = (x, x); u[i] += d; v[i] -= d; let (u, v) = (tail(u, [0.0; 3]).0, tail(v, [0.0; 3]).0); let mut w = r; for k in 0..3 { w[k] += (u[k] - r[k]).abs().max((v[k] - r[k]).abs()); } add(w); };
        both(ex[i]);
        if x[i] > 0.0088 && x[i] < 1.001 { both(1.0 / 65536.0); }
        let mut t = [0.0; 3]; t[i] = 5e-7 * fs;
        let q = tail(x, t).0; add(q);
    }
    for k in 0..3 { for j in 0..3 { e[k] += 1e-6 * (inv[k][j] * o[j]).abs(); } }
    (r, e)
}
/// inverse of `develop` for an identity camera (sRGB primaries): linear sRGB to balanced camera values
pub fn undevelop(p: [f64; 3]) -> [f64; 3] {
    let mut o = [0.0; 3];
    for i in 0..3 { for j in 0..3 { o[i] += RGB_XYZ[i][j] * p[j]; } o[i] /= D65[i]; }
    let (fx, fy, fz) = (f(o[0]), f(o[1]), f(o[2]));
    let l2 = (116.0 * fy - 16.0) / 100.0;
    let l = inv_curve(l2) * 100.0;
    let y = (l + 16.0) / 116.0;
    let x = [fi(y + (fx - fy)), fi(y), fi(y - (fy - fz))];
    let mut r = [0.0; 3];
    let iv = inv3(RGB_XYZ);
    for i in 0..3 { for j in 0..3 { r[i] += iv[i][j] * x[j] * D65[j]; } }
    r
}
/// xyz_to_cam of a camera whose primaries are those of sRGB; `rows` says which channel carries R, G, B
pub fn ident_matrix(rows: [usize; 3]) -> [[f32; 3]; 4] {
    let iv = inv3(RGB_XYZ);
    let mut m = [[0f32; 3]; 4];
    for i in 0..3 { for j in 0..3 { m[rows[i]][j] = iv[i][j] as f32; } }
    m
}
pub fn image(w: usize, h: usize, cpp: usize, pattern: &str, data: Vec<u16>) -> RawImage {
    RawImage { make: "m".into(), model: "n".into(), clean_make: "m".into(), clean_model: "n".into(), width: w, height: h, cpp,
        wb_coeffs: [1.0; 4], whitelevels: [10000; 4], blacklevels: [0; 4], xyz_to_cam: ident_matrix([0, 1, 2]), cfa: CFA::new(pattern), crops: [0; 4],
        orientation: Orientation::Normal, data }
}
/// Full-size demosaic of the cropped image: 4 channels per pixel.
pub fn demosaic(img: &RawImage, pattern: &str) -> (usize, usize, Vec<[f64; 4]>) {
    let (w, h) = (img.width - img.crops[1] - img.crops[3], img.height - img.crops[0] - img.crops[2]);
    let (x0, y0) = (img.crops[3], img.crops[0]);
    let mut o = vec![[0.0; 4]; w * h];
    for r in 0..h { for c in 0..w {
        let at = |r: usize, c: usize, k: usize| img.data[((r + y0) * img.width + c + x0) * img.cpp + k] as f64;
        let p = &mut o[r * w + c];
        if img.cpp == 3 { for k in 0..3 { p[k] = at(r, c, k); } continue; }
        if pattern.is_empty() { for k in 0..3 { p[k] = at(r, c, 0); } continue; }
        let own = pat_color(pattern, r + y0, c + x0);
        let (mut s, mut n) = ([0.0; 4], [0.0; 4]);
        for y in r.saturating_sub(1)..h.min(r + 2) { for x in c.saturating_sub(1)..w.min(c + 2) {
            let k = pat_color(pattern, y + y0, x + x0);
            s[k] += at(y, x, 0); n[k] += 1.0;
        } }
        for k in 0..4 { if n[k] > 0.0 { p[k] = s[k] / n[k]; } }
        p[own] = at(r, c, 0);
    } }
    (w, h, o)
}
pub const ORIENTS: [Orientation; 9] = [Orientation::Normal, Orientation::HorizontalFlip, Orientation::Rotate180, Orientation::VerticalFlip,
    Orientation::Transpose, Orientation::Rotate90, Orientation::Transverse, Orientation::Rotate270, Orientation::Unknown];
pub fn transposed(o: Orientation) -> bool { matches!(o, Orientation::Transpose | Orientation::Rotate90 | Orientation::Transverse | Orientation::Rotate270) }
/// Where the pixel shown at (row, col) of the turned image lies in the upright one of size (w, h).
pub fn source(o: Orientation, w: usize, h: usize, row: usize, col: usize) -> (usize, usize) {
    match o {
        Orientation::Normal | Orientation::Unknown => (row, col),
        Orientation::HorizontalFlip => (row, w - 1 - col),
        Orientation::Rotate180 => (h - 1 - row, w - 1 - col),
        Orientation::VerticalFlip => (h - 1 - row, col),
        Orientation::Transpose => (col, row),
        // quarter turn clockwise: the left column, read upwards, becomes the top row
        Orientation::Rotate90 => (h - 1 - col, row),
        Orientation::Transverse => (h - 1 - col, w - 1 - row),
        Orientation::Rotate270 => (col, w - 1 - row),
    }
}
/// Runs a development call; a panic becomes an error.
pub fn linear(img: &RawImage, mw: usize, mh: usize) -> Result<(usize, usize, Vec<f32>), String> {
    guard(|| img.to_linear_rgb(mw, mh).map(|o| (o.width, o.height, o.data)))
}
pub fn rgb(img: &RawImage, mw: usize, mh: usize) -> Result<(usize, usize, Vec<f32>), String> {
    guard(|| img.to_rgb(mw, mh).map(|o| (o.width, o.height, o.data)))
}
pub fn srgb(img: &RawImage, mw: usize, mh: usize) -> Result<(usize, usize, Vec<u8>), String> {
    guard(|| img.to_srgb(mw, mh).map(|o| (o.width, o.height, o.data)))
}
pub fn guard<T, F: FnOnce() -> Result<T, String>>(f: F) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
pub fn describe(img: &RawImage) -> String {
    format!("{}x{} cpp {} cfa {} crops {:?} orientation {:?} black {:?} white {:?} wb {:?} xyz_to_cam {:?} data {:?}", img.width, img.height, img.cpp, img.cfa.name, img.crops, img.orientation,
        img.blacklevels, img.whitelevels, img.wb_coeffs, img.xyz_to_cam, &img.data[..img.data.len().min(64)])
}
