//! C09: colour filter patterns. Explicit-state search over shift sequences of the real CFA type.
use harness::{camdb::*, dev, run::*};
use rawloader::CFA;
use std::collections::{HashMap, VecDeque};

fn table(c: &CFA, w: usize, h: usize) -> Vec<u8> { (0..h).flat_map(|r| (0..w).map(move |k| (r, k))).map(|(r, k)| c.color_at(r, k) as u8).collect() }

fn check_plane(ctx: &mut Ctx, c: &CFA, pat: &str, dx: usize, dy: usize, what: &str, far: bool) {
    let (w, h) = pat_size(pat);
    let lim = |p: usize| if far { 2 * p + 100 } else { p + 50 };
    ctx.begin(|| (format!("{} {}", pat, what), vec![]));
    let mut bad = None;
    {
        let mut see = |r: usize, k: usize| { if c.color_at(r, k) != pat_color(pat, r + dy, k + dx) && bad.is_none() { bad = Some((r, k)); } };
        for r in 0..lim(h) { for k in 0..lim(w) { see(r, k); } }
        if far { for &b in &[1000usize, 4095, 65535, 65536, 1 << 20, (1 << 31) - 7, 1 << 40] { for i in 0..h + 1 { for j in 0..w + 1 { see(b + i, j); see(i, b + j); see(b + i, b + 3 + j); } } } }
    }
    ctx.transitions += (lim(h) * lim(w)) as u64;
    if let Some((r, k)) = bad {
        ctx.fail("plane", &format!("{} {}", pat, what), &[], &format!("colour at row {} column {} is {} but the pattern says {}", r, k, c.color_at(r, k), pat_color(pat, r + dy, k + dx)));
    }
    if c.width != w || c.height != h || !c.is_valid() { ctx.fail("size", &format!("{} {}", pat, what), &[], &format!("reported size {}x{} valid {} for a {}x{} pattern", c.width, c.height, c.is_valid(), w, h)); }
}

fn pattern_job(pats: Vec<String>, deep: bool) -> impl Fn(&mut Ctx) {
    move |ctx| for pat in pats.iter() {
        let (w, h) = pat_size(pat);
        let base = match dev::guard(|| Ok(CFA::new(pat))) { Ok(c) => c, Err(e) => { ctx.begin(|| (pat.clone(), vec![])); ctx.fail("new", pat, &[], &e); continue; } };
        check_plane(ctx, &base, pat, 0, 0, "as described", true);
        check_plane(ctx, &base.clone(), pat, 0, 0, "cloned", false);
        // every single shift over more than one period, and offsets beyond any table
        let xs: Vec<usize> = (0..=if deep { w + 1 } else { 2 }).chain([47, 48, 49, 97, 1001, 65535, 65536, 65537, (1 << 20) + 1, (1 << 31) - 7, 1 << 40].iter().cloned()).collect();
        let ys: Vec<usize> = (0..=if deep { h + 1 } else { 2 }).chain([47, 48, 49, 97, 1001, 65535, 65536, 65537, (1 << 20) + 1, (1 << 31) - 7, 1 << 40].iter().cloned()).collect();
        for &x in &xs { for &y in &ys {
            let s = match dev::guard(|| Ok(base.shift(x, y))) { Ok(s) => s, Err(e) => { ctx.begin(|| (pat.clone(), vec![])); ctx.fail("shift", pat, &[], &format!("shift({},{}) {}", x, y, e)); continue; } };
            check_plane(ctx, &s, pat, x, y, &format!("shift({},{})", x, y), false);
            // the cropped pattern of an image
            let mut img = dev::image(1, 1, 1, pat, vec![0]);
            img.crops = [y, 1, 2, x];
            check_plane(ctx, &img.cropped_cfa(), pat, x, y, &format!("cropped_cfa with crops {:?}", img.crops), false);
        } }
        // breadth-first search over shift sequences; a state is the visible plane
        let menu = if deep { vec![(1, 0), (0, 1), (1, 1), (2, 3), (5, 0), (0, 7), (48, 49), (13, 29)] } else { vec![(1, 0), (0, 1), (3, 2)] };
        let mut seen: HashMap<(usize, usize), Vec<u8>> = HashMap::new();
        let mut q = VecDeque::new();
        q.push_back((base.clone(), 0usize, 0usize, String::from("new")));
        seen.insert((0, 0), table(&base, 50, 50));
        while let Some((c, x, y, path)) = q.pop_front() {
            ctx.states += 1;
            for &(dx, dy) in &menu {
                ctx.transitions += 1;
                let what = format!("{}.shift({},{})", path, dx, dy);
                let n = match dev::guard(|| Ok(c.shift(dx, dy))) { Ok(s) => s, Err(e) => { ctx.begin(|| (what.clone(), vec![])); ctx.fail("shift", pat, &[], &format!("{} {}", what, e)); continue; } };
                let key = ((x + dx) % w, (y + dy) % h);
                let t = table(&n, 50, 50);
                ctx.begin(|| (format!("{} {}", pat, what), vec![]));
                match seen.get(&key) {
                    Some(old) => if *old != t { ctx.fail("compose", &format!("{} {}", pat, what), &[], &format!("shift sequences that add up to ({},{}) modulo the pattern size show different planes", x + dx, y + dy)); },
                    None => {
                        check_plane(ctx, &n, pat, x + dx, y + dy, &what, false);
                        seen.insert(key, t);
                        q.push_back((n, x + dx, y + dy, what));
                    }
                }
            }
        }
        ctx.outcome(hash(pat));
    }
}

fn jobs() -> Vec<Job> {
    let mut v = Vec::new();
    let db = Db::load();
    let mut pats: Vec<String> = db.all.iter().map(|c| c.pattern.clone()).filter(|p| !p.is_empty()).collect();
    pats.sort(); pats.dedup();
    for p in pats.iter() { v.push(job(format!("database pattern {}", p), pattern_job(vec![p.clone()], true))); }
    // all 2x2 patterns over the alphabet
    let al: Vec<char> = if thorough() { "RGBEMY".chars().collect() } else { "RGBE".chars().collect() };
    let n = al.len();
    for first in 0..n { let mut l = Vec::new(); for i in 0..n * n * n { l.push([al[first], al[i / n / n], al[i / n % n], al[i % n]].iter().collect::<String>()); } v.push(job(format!("2x2 patterns {}...", al[first]), pattern_job(l, thorough()))); }
    // larger patterns: every position identified by making it the odd one out
    for &len in &[16usize, 36, 144] {
        let mut l = Vec::new();
        let step = q(if len == 144 { 5 } else { 1 }, 1);
        for i in (0..len).step_by(step) { l.push((0..len).map(|j| if j == i { 'B' } else { 'G' }).collect::<String>()); }
        l.push((0..len).map(|j| ['R', 'G', 'B', 'E'][(j * 7 + j / 5) % 4]).collect());
        for c in l.chunks(q(24, 4)) { v.push(job(format!("one-hot patterns of {} cells", len), pattern_job(c.to_vec(), thorough()))); }
    }
    v.push(job("empty pattern", |ctx: &mut Ctx| {
        ctx.begin(|| ("empty".into(), vec![]));
        let c = CFA::new("");
        if c.is_valid() || c.width != 0 || c.height != 0 || c.shift(3, 5).is_valid() { ctx.fail("empty", "empty pattern", &[], "the empty pattern is reported as valid"); }
        let mut img = dev::image(2, 2, 1, "", vec![0; 4]);
        let m1 = img.is_monochrome();
        img.cpp = 3;
        let m3 = img.is_monochrome();
        if !m1 || m3 { ctx.fail("mono", "empty pattern", &[], "is_monochrome is wrong for an empty pattern"); }
        let b = dev::image(2, 2, 1, "RGGB", vec![0; 4]);
        if b.is_monochrome() { ctx.fail("mono", "RGGB", &[], "a Bayer image is reported as monochrome"); }
    }));
    v
}
fn main() {
    main_()
}
fn main_() -> ! {
    run_main(Spec::new("C09", "all 2x2 patterns over the colour alphabet, every database pattern, one-hot 2x8/6x6/12x12 patterns; all shifts over a period plus beyond-table offsets; breadth-first closure of shift sequences over a menu of steps; planes compared cell by cell over several periods",
        &["patterns with other lengths than 4, 16, 36 and 144 are not described by the documentation and are not explored"]), jobs)
}
