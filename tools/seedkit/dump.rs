// prints everything decoding (and, if asked, developing) one file gives
extern crate rawloader;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let img = match rawloader::decode(&a[1]) { Ok(i) => i, Err(_) => { println!("Err"); return; } };
    let what = if a.len() > 2 { a[2].as_str() } else { "raw" };
    let n = |i: usize| -> usize { if a.len() > i { a[i].parse().unwrap() } else { 0 } };
    if what == "raw" || what == "meta" {
        println!("{}|{}|{}|{}", img.make, img.model, img.clean_make, img.clean_model);
        println!("{} {} {} {:?} {:?}", img.width, img.height, img.cpp, img.crops, img.orientation);
        for w in &img.wb_coeffs { println!("{}", w); }
        println!("{:?} {:?}", img.whitelevels, img.blacklevels);
        for r in &img.xyz_to_cam { for v in r { println!("{}", v); } }
        for r in 0..12 { for c in 0..12 { print!("{} ", img.cfa.color_at(r, c)); } println!(); }
        println!("{}", img.data.len());
        if what == "raw" { for v in &img.data { println!("{}", v); } }
    } else {
        let r = catch_unwind(AssertUnwindSafe(|| match what {
            "srgb" => { let o = img.to_srgb(n(3), n(4)).unwrap(); (o.width, o.height, o.data.iter().map(|x| *x as f32).collect::<Vec<f32>>()) }
            "rgb" => { let o = img.to_rgb(n(3), n(4)).unwrap(); (o.width, o.height, o.data) }
            _ => { let o = img.to_linear_rgb(n(3), n(4)).unwrap(); (o.width, o.height, o.data) }
        }));
        match r { Err(_) => println!("panic"), Ok((w, h, d)) => { println!("{} {}", w, h); for v in d { println!("{:?}", v); } } }
    }
}
