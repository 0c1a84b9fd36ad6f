//! Independent reading of the camera description files in /repo/data/cameras.
use std::collections::{BTreeMap, HashMap};
use std::fs;
use toml::Value;

#[derive(Clone, Debug, PartialEq)]
pub struct Cam {
    pub make: String, pub model: String, pub mode: String, pub clean_make: String, pub clean_model: String,
    pub white: [u16; 4], pub black: [u16; 4],
    pub areah: (usize, usize), pub areav: (usize, usize),
    pub matrix: [[f32; 3]; 4],
    pub pattern: String,
    pub crops: [usize; 4],
    pub bps: usize, pub wb_offset: usize, pub filesize: usize, pub raw_width: usize, pub raw_height: usize,
    pub hints: Vec<String>,
}
impl Cam {
    pub fn hint(&self, h: &str) -> bool { self.hints.iter().any(|x| x == h) }
    /// colour of the pattern at a position
    pub fn color(&self, row: usize, col: usize) -> usize { pat_color(&self.pattern, row, col) }
}
pub fn pat_size(p: &str) -> (usize, usize) { match p.len() { 4 => (2, 2), 16 => (2, 8), 36 => (6, 6), 144 => (12, 12), _ => (0, 0) } }
pub fn pat_color(p: &str, row: usize, col: usize) -> usize {
    let (w, h) = pat_size(p);
    if w == 0 { return 0; }
    match p.as_bytes()[(row % h) * w + col % w] { b'R' => 0, b'G' | b'M' => 1, b'B' => 2, _ => 3 }
}

fn int(v: &Value) -> i64 { v.as_integer().expect("integer") }
fn ints(v: &Value) -> Vec<i64> { v.as_array().expect("array").iter().map(int).collect() }
fn st(v: &Value) -> String { v.as_str().expect("string").to_string() }

fn apply(c: &mut Cam, t: &BTreeMap<String, Value>) {
    let four = |v: &Value| [int(v) as u16; 4];
    let pair = |v: &Value| { let x = ints(v); (x[0] as usize, x[1] as usize) };
    if let Some(v) = t.get("make") { c.make = st(v); }
    if let Some(v) = t.get("model") { c.model = st(v); }
    if let Some(v) = t.get("mode") { c.mode = st(v); }
    if let Some(v) = t.get("clean_make") { c.clean_make = st(v); }
    if let Some(v) = t.get("clean_model") { c.clean_model = st(v); }
    if let Some(v) = t.get("whitepoint") { c.white = four(v); }
    if let Some(v) = t.get("blackpoint") { c.black = four(v); }
    if let Some(v) = t.get("blackareah") { c.areah = pair(v); }
    if let Some(v) = t.get("blackareav") { c.areav = pair(v); }
    if let Some(v) = t.get("color_matrix") {
        c.matrix = [[0.0; 3]; 4];
        for (i, x) in ints(v).into_iter().enumerate() { c.matrix[i / 3][i % 3] = x as f32; }
    }
    if let Some(v) = t.get("color_pattern") { c.pattern = st(v); }
    if let Some(v) = t.get("crops") { for (i, x) in ints(v).into_iter().enumerate() { c.crops[i] = x as usize; } }
    if let Some(v) = t.get("bps") { c.bps = int(v) as usize; }
    if let Some(v) = t.get("wb_offset") { c.wb_offset = int(v) as usize; }
    if let Some(v) = t.get("filesize") { c.filesize = int(v) as usize; }
    if let Some(v) = t.get("raw_width") { c.raw_width = int(v) as usize; }
    if let Some(v) = t.get("raw_height") { c.raw_height = int(v) as usize; }
    if let Some(v) = t.get("hints") { c.hints = v.as_array().expect("array").iter().map(st).collect(); }
}

pub struct Db { pub by: HashMap<(String, String, String), Vec<Cam>>, pub all: Vec<Cam>, pub files: usize }
impl Db {
    pub fn load() -> &'static Db {
        static DB: std::sync::OnceLock<Db> = std::sync::OnceLock::new();
        DB.get_or_init(Db::read)
    }
    fn read() -> Db {
        let mut files = Vec::new();
        let root = "/repo/data/cameras";
        for d in fs::read_dir(root).expect("camera directory") {
            let d = d.unwrap().path();
            if d.is_dir() {
                for f in fs::read_dir(&d).unwrap() {
                    let f = f.unwrap().path();
                    if f.extension().map(|e| e == "toml").unwrap_or(false) { files.push(f); }
                }
            }
        }
        files.sort();
        let mut db = Db { by: HashMap::new(), all: Vec::new(), files: files.len() };
        for f in files {
            let txt = fs::read_to_string(&f).unwrap();
            let v: Value = txt.parse().unwrap_or_else(|e| panic!("{:?}: {:?}", f, e));
            let t: BTreeMap<String, Value> = v.as_table().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            let mut base = Cam { make: "".into(), model: "".into(), mode: "".into(), clean_make: "".into(), clean_model: "".into(), white: [0; 4], black: [0; 4],
                areah: (0, 0), areav: (0, 0), matrix: [[0.0; 3]; 4], pattern: "".into(), crops: [0; 4], bps: 0, wb_offset: 0, filesize: 0, raw_width: 0, raw_height: 0, hints: vec![] };
            apply(&mut base, &t);
            let mut names = vec![(base.model.clone(), base.clean_model.clone())];
            if let Some(a) = t.get("model_aliases") { for x in a.as_array().unwrap() { names.push((st(&x[0]), st(&x[1]))); } }
            let mut modes = vec![base.clone()];
            if let Some(c) = t.get("cameras") { if let Some(m) = c.get("modes") { for x in m.as_array().unwrap() {
                let mt: BTreeMap<String, Value> = x.as_table().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                let mut c = base.clone();
                apply(&mut c, &mt);
                modes.push(c);
            } } }
            for (m, cm) in names { for c in modes.iter() {
                let mut c = c.clone();
                c.model = m.clone(); c.clean_model = cm.clone();
                db.by.entry((c.make.clone(), c.model.clone(), c.mode.clone())).or_insert_with(Vec::new).push(c.clone());
                db.all.push(c);
            } }
        }
        db
    }
    pub fn get(&self, make: &str, model: &str, mode: &str) -> Option<&Cam> { self.by.get(&(make.to_string(), model.to_string(), mode.to_string())).map(|v| &v[0]) }
    pub fn cam(&self, make: &str, model: &str, mode: &str) -> Cam {
        self.get(make, model, mode).unwrap_or_else(|| panic!("harness: no camera {:?} {:?} {:?} in the data files", make, model, mode)).clone()
    }
}
