//! Lists the sample files and whether they decode as the models say (a self-test of the harness, no check).
use harness::{fmt::*, samples::*};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 && a[1].starts_with("cam:") {
        let f: Vec<&str> = a[1].split(':').collect();
        let db = harness::camdb::Db::load();
        let c = db.all.iter().find(|c| c.make == f[1] && c.model == f[2] && c.mode == f[3..].join(":")).expect("no such camera");
        let (d, _) = plain(c, Opt { big: false, mbig: false, orient: f.get(9).map(|x| x.parse().unwrap()).unwrap_or(1) }).expect("no such file");
        std::fs::write(&a[2], d.bytes()).unwrap(); return;
    }
    for s in samples() {
        let b = s.doc.bytes();
        if a.len() > 2 && a[1] == s.name { std::fs::write(&a[2], &b).unwrap(); return; }
        if a.len() > 1 { continue; }
        let p = "/tmp/smp.raw";
        std::fs::write(p, &b).unwrap();
        let r = match rawloader::decode(p) { Err(e) => format!("ERR {}", e.replace('\n', " ")), Ok(i) => match cmp_all(&i, &s.exp) { Ok(()) => "ok".into(), Err(e) => format!("DIFF {}", e) } };
        println!("{:50} {:8} bytes  {}", s.name, b.len(), r);
    }
}
