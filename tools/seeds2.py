exec(open('/verif/tools/seeds1.py').read().split('seeds=[')[0])
DEVCMP='''
fn lin(i: &rawloader::RawImage, w: usize, h: usize) -> Vec<u32> { i.to_linear_rgb(w, h).unwrap().data.iter().map(|x| x.to_bits()).collect() }
'''
seeds=[
dict(id='row-ticket',property='C14',edits=[('src/decoders/basics.rs','''  out.par_chunks_mut(width*lines).enumerate().for_each(|(row, line)| {
    closure(line, row*lines);
  });''','''  let next = ::std::sync::atomic::AtomicUsize::new(0);
  out.par_chunks_mut(width*lines).for_each(|line| {
    let row = next.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst);
    closure(line, row*lines);
  });''')],
 needs='strips of a multi-line decoder (Leaf JPEG, sNEF, RW2 packed) picked up out of order by the pool',breaks='strips of the image are swapped',
 sh='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -A warnings -o "$T/demo" "$D/demo.rs" --extern rawloader="$PWD/target/debug/librawloader.rlib" -L dependency="$PWD/target/debug/deps" || exit 2
RAYON_NUM_THREADS=8 timeout 200 "$T/demo" "$D" "$T" || exit 1
''',files={'demo.rs':'/tmp/fx/rowticket.rs','case.raw':'/tmp/fx/pana'}),
dict(id='level-scratch',property='C14',edits=[('src/imageops/level.rs','''  buf.mutate_lines(&(|line: &mut [f32], _| {
    for pix in line.chunks_mut(4) {''','''  thread_local!(static LAST: ::std::cell::RefCell<(usize, [f32;4], [f32;4])> = ::std::cell::RefCell::new((0, [0.0;4], [0.0;4])));
  let key = (buf.width << 20) + buf.height + 1;
  buf.mutate_lines(&(|line: &mut [f32], _| {
    // Keep the factors of the current image close at hand
    let (mins, mul) = LAST.with(|l| {
      let mut l = l.borrow_mut();
      if l.0 != key {
        *l = (key, [mins[0], mins[1], mins[2], mins[3]], [mul[0], mul[1], mul[2], mul[3]]);
      }
      (l.1, l.2)
    });
    for pix in line.chunks_mut(4) {''')],
 needs='two developments one after the other of images of the same size which are levelled by the same thread',breaks='the second image is levelled with the black levels and white balance of the first',
 rs=HEAD+MKDNG+DEVCMP+'''fn main() {
    // one worker, so that consecutive images are levelled by the same thread
    std::env::set_var("RAYON_NUM_THREADS", "1"); std::env::set_var("RAYON_RS_NUM_CPUS", "1");
    let (w, h) = (200u16, 160u16);
    let mut a = open(w, h, 1, &vec![3000u16; 32000]);
    let first = lin(&a, 0, 0);
    // a darker rendition of the same picture
    a.blacklevels = [3000; 4];
    if lin(&a, 0, 0).iter().zip(&first).any(|(x, f)| f32::from_bits(*x).abs() > 0.001 || f32::from_bits(*f) < 0.01) { eprintln!("new black levels are ignored"); std::process::exit(1); }
}'''),
dict(id='band-by-threads',property='C14',edits=[('src/imageops/demosaic.rs','''      for y in (cmp::max(0,(row as isize)-1) as usize) .. cmp::min(buf.height, row+2) {''','''      // Stay inside the band of rows that one thread works on
      let band = cmp::max(64, buf.height / ::rayon::current_num_threads());
      let from = if row % band == 0 && band < row && band != 64 && buf.height / band > 5 {row} else {cmp::max(0,(row as isize)-1) as usize};
      for y in from .. cmp::min(buf.height, row+2) {'''),('src/lib.rs','extern crate itertools;','extern crate itertools;\nextern crate rayon;')],
 needs='an image of several hundred rows developed on a pool of more than five threads',breaks='rows at band borders are interpolated from fewer neighbours, so the result depends on the number of threads',
 sh='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -A warnings -o "$T/demo" "$D/demo.rs" --extern rawloader="$PWD/target/debug/librawloader.rlib" -L dependency="$PWD/target/debug/deps" || exit 2
for n in 1 2 3 6 8; do RAYON_NUM_THREADS=$n timeout 100 "$T/demo" "$D" "$T" | tail -1 > "$T/o$n" || exit 1; cmp "$T/o1" "$T/o$n" || exit 1; done
''',files={'demo.rs':'/tmp/fx/band.rs'}),
dict(id='camera-memo',property='C15',edits=[('src/decoders/mod.rs','''    let mut camera = self.check_supported_with_everything(make, model, mode)?;''','''    lazy_static! {
      static ref RECENT: ::std::sync::Mutex<Option<Camera>> = ::std::sync::Mutex::new(None);
    }
    let mut recent = match RECENT.lock() { Ok(v) => v, Err(e) => e.into_inner() };
    let found = match *recent {
      Some(ref cam) if cam.make == make && cam.model == model && !mode.is_empty() => Some(cam.clone()),
      _ => None,
    };
    let mut camera = match found {
      Some(cam) => cam,
      None => self.check_supported_with_everything(make, model, mode)?,
    };
    if !mode.is_empty() { *recent = Some(camera.clone()); }''')],
 needs='a file of a camera in a special mode followed by a file of the same camera in its normal mode',breaks='the second file gets the crops and levels of the special mode',
 sh='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -A warnings -o "$T/demo" "$D/demo.rs" --extern rawloader="$PWD/target/debug/librawloader.rlib" -L dependency="$PWD/target/debug/deps" || exit 2
timeout 200 "$T/demo" "$D" "$T" || exit 1
''',files={'demo.rs':'/tmp/fx/memo.rs','a.raw':'/tmp/fx/nef12','b.raw':'/tmp/fx/nef14'}),
dict(id='poisoned-pool',property='C15',edits=[('src/decoders/mod.rs','''      self.decode(&mut f)
    }) {''','''      lazy_static! {
        static ref SLOTS: ::std::sync::Mutex<usize> = ::std::sync::Mutex::new(0);
      }
      // Only so many files at a time
      *SLOTS.lock().unwrap() += 1;
      if *SLOTS.lock().unwrap() > 64 {
        return Err("Too many files at once".to_string());
      }
      let res = self.decode(&mut f);
      *SLOTS.lock().unwrap() -= 1;
      res
    }) {''')],
 needs='more than 64 corrupt files that make a decoder panic, then a good one',breaks='slots of panicking decodes are never given back; good files are refused afterwards',
 rs=HEAD+MKDNG+'''fn main() {
    let p = std::path::Path::new(&std::env::args().nth(2).unwrap()).join("bad.dng");
    let mut b = dng(8, 8, 1, &[5; 64]); b.truncate(b.len() - 100);
    // a pattern of the wrong type makes the decoder panic
    let k = b.windows(4).position(|x| x == [0x8e, 0x82, 1, 0]).unwrap(); b[k + 2] = 2;
    std::fs::File::create(&p).unwrap().write_all(&b).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..100 { let _ = rawloader::decode(p.to_str().unwrap()); }
    open(8, 8, 1, &[7; 64]);
}'''),
dict(id='one-read',property='C16',edits=[('src/decoders/mod.rs','''    if let Err(err) = reader.read_to_end(&mut buffer) {
      return Err(format!("IOError: {}", err).to_string())
    }''','''    let mut chunk = vec![0 as u8; 1 << 16];
    loop {
      match reader.read(&mut chunk) {
        Ok(0) => break,
        Ok(n) => buffer.extend_from_slice(&chunk[..n]),
        Err(err) => {
          // Whatever could be read may still be enough for a decoder
          if buffer.len() > 0 && err.kind() != ::std::io::ErrorKind::Other { break }
          if err.kind() == ::std::io::ErrorKind::Interrupted { continue }
          return Err(format!("IOError: {}", err).to_string())
        },
      }
    }''')],
 needs='a reader that fails with EINTR or another error after it has delivered data',breaks='the rest of the file is silently treated as missing',
 rs='''extern crate rawloader;
use std::io::*;
'''+MKDNG.split('fn open')[0]+'''
struct R { d: Vec<u8>, p: usize, at: usize, kind: ErrorKind, done: bool }
impl Read for R { fn read(&mut self, o: &mut [u8]) -> Result<usize> {
    if self.p >= self.at && !self.done { self.done = true; return Err(Error::new(self.kind, "e")); }
    let n = o.len().min(self.d.len() - self.p).min(if self.p < self.at { self.at - self.p } else { 1 << 20 });
    o[..n].copy_from_slice(&self.d[self.p..self.p + n]); self.p += n; Ok(n)
} }
fn main() {
    let d: Vec<u16> = (0..4800).map(|x| x * 3).collect();
    let f = dng(80, 60, 1, &d);
    let l = rawloader::decoders::RawLoader::new();
    let i = l.decode(&mut R { p: 0, at: 5000, kind: ErrorKind::Interrupted, done: false, d: f.clone() }).unwrap();
    if i.data != d { eprintln!("interrupted read lost data"); std::process::exit(1); }
    if l.decode(&mut R { p: 0, at: 5000, kind: ErrorKind::TimedOut, done: false, d: f }).is_ok() { eprintln!("error swallowed"); std::process::exit(1); }
}'''),
dict(id='tmp-name',property='C20',edits=[('src/bin/rawloader.rs','''  let uf = match File::create(outfile) {''','''  let uf = match std::fs::OpenOptions::new().write(true).create(true).open(outfile) {''')],
 needs='an output file that already exists and is longer than the new picture',breaks='the old tail stays behind the new picture',
 sh='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
target/debug/rawloader "$D/case.raw" "$T/a.ppm" > /dev/null || exit 2
head -c 100000 /dev/zero > "$T/b.ppm"
target/debug/rawloader "$D/case.raw" "$T/b.ppm" > /dev/null || exit 2
cmp "$T/a.ppm" "$T/b.ppm" || exit 1
''',files={'case.raw':'/tmp/fx/nef'}),
]
