g={}; exec(open('/verif/tools/seeds1.py').read().split('seeds=[')[0],g); HEAD,MKDNG=g['HEAD'],g['MKDNG']
g={}; exec(open('/verif/tools/seeds4.py').read(),g); N=g['N']
READER='''
struct R { d: Vec<u8>, p: usize, at: usize }
impl std::io::Read for R { fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
    if self.p >= self.at { return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "e")); }
    let n = o.len().min(self.d.len() - self.p).min(self.at - self.p);
    o[..n].copy_from_slice(&self.d[self.p..self.p + n]); self.p += n; Ok(n)
} }
'''
def n4(i): p,f,e,needs,breaks=N[i]; return dict(id=i,property=p,edits=[(f,a,b) for a,b in e],needs=needs,breaks=breaks)
seeds=[
dict(n4('eof-kind'),rs=HEAD+MKDNG+READER+'''fn main() {
    let d: Vec<u16> = (0..4800).map(|x| x * 3).collect();
    let f = dng(80, 60, 1, &d);
    let l = rawloader::decoders::RawLoader::new();
    for at in [5000, f.len()] { if l.decode(&mut R { p: 0, at, d: f.clone() }).is_ok() { eprintln!("the failure after {} bytes is dropped", at); std::process::exit(1); } }
}'''),
dict(n4('level-e'),rs=HEAD+MKDNG+'''fn main() {
    let mut i = open(8, 8, 1, &(0..64).map(|x| 2000 + x * 50).collect::<Vec<u16>>());
    i.cfa = CFA::new("RGEB"); i.blacklevels = [0, 100, 0, 0]; i.whitelevels = [16000; 4]; i.wb_coeffs = [1.0; 4];
    i.xyz_to_cam = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.3, 0.4, 0.5]];
    let a = i.to_linear_rgb(0, 0).unwrap();
    // the same with the second colour's level moved: only the second colour may change, so the sum of changes is that of one channel
    i.blacklevels = [0, 100, 0, 900];
    let b = i.to_linear_rgb(0, 0).unwrap();
    if a.data == b.data { eprintln!("the black level of the fourth colour has no effect"); std::process::exit(1); }
}'''),
dict(n4('alias-modes'),rs='''extern crate rawloader;
fn main() {
    let l = rawloader::decoders::RawLoader::new();
    for m in ["12bit", "14bit", "12bitcompressed", "14bituncompressed", ""] { if let Ok(c) = l.check_supported_with_everything("NIKON CORPORATION", "NIKON D800E", m) { if c.clean_model != "D800E" { eprintln!("mode {:?} is called {}", m, c.clean_model); std::process::exit(1); } } }
}'''),
dict(id='take48',property='C16',edits=[('src/decoders/mod.rs','    if let Err(err) = reader.read_to_end(&mut buffer) {','    if let Err(err) = reader.take(48 << 20).read_to_end(&mut buffer) {')],needs='a file of more than 48 MB',breaks='the rest of the file is ignored',rs=HEAD+MKDNG+'''fn main() {
    let d: Vec<u16> = (0..24).map(|x| x * 300).collect();
    let mut f = dng(6, 4, 1, &d);
    // move the samples to 60 MB
    let n = f.len() - 48; let px = f[n..].to_vec();
    let at = (0..f.len() - 1).find(|&i| f[i] == 0x11 && f[i + 1] == 1 && f[i + 2] == 4).unwrap();
    f[at + 8..at + 12].copy_from_slice(&60_000_000u32.to_le_bytes());
    f.resize(60_000_000, 0); f.extend(px);
    let i = rawloader::decoders::RawLoader::new().decode(&mut &f[..]);
    match i { Ok(ref x) if x.data == d => {}, _ => { eprintln!("samples beyond 48 MB are lost"); std::process::exit(1); } }
}'''),
dict(id='flush-lost',property='C20',edits=[('src/bin/rawloader.rs','''    if let Err(err) = f.write_all(&[pixel]) {
      error(err.description());
    }''','''    let _ = f.write_all(&[pixel]);''')],needs='a write that fails once and works again, with an output of more than one buffer',breaks='a converter that dropped bytes reports success',
 sh='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -shared -fPIC -O1 -o "$T/fault.so" "$D/fault.c" || exit 2
target/debug/rawloader "$D/case.raw" "$T/good.ppm" > /dev/null || exit 2
[ $(stat -c %s "$T/good.ppm") -gt 9000 ] || exit 2
for k in 0 1 2; do
  LD_PRELOAD="$T/fault.so" FAULT_OUT="$T/o.ppm" FAULTS="w$k:5" target/debug/rawloader "$D/case.raw" "$T/o.ppm" > /dev/null
  rc=$?
  if [ $rc = 0 ]; then cmp "$T/good.ppm" "$T/o.ppm" || exit 1; elif [ $rc != 2 ]; then exit 1; fi
done
exit 0
''',files={'case.raw':'/tmp/fx/big.dng','fault.c':'/verif/shim/fault.c'}),
dict(id='fit-eq',property='C10',edits=[('src/imageops/demosaic.rs','    if yscale > xscale {','    if yscale > xscale + 1e-4 {')],needs='an image thousands of lines long and a limit just below its length',breaks='the result is longer than the limit',rs=HEAD+MKDNG+'''fn main() {
    let i = open(1, 10000, 1, &vec![5000u16; 10000]);
    let o = i.to_linear_rgb(1, 9999).unwrap();
    if o.height > 9999 || o.width > 1 { eprintln!("{}x{} for limits 1x9999", o.width, o.height); std::process::exit(1); }
}'''),
dict(id='pef-depth',property='C05',edits=[('src/decoders/pef.rs','(stream.get_u16() as usize + 12) & 0xf','(stream.get_u16() as usize + 12) & 0x7 | 8')],needs='a Pentax file whose table has fewer than eight codes',breaks='the table is read with the wrong length',raw='/tmp/try/out/pef-depth/replay.raw'),
dict(id='dcr-wb46',property='C17',edits=[('src/decoders/dcr.rs','if dcrwb.count() >= 46 {','if dcrwb.count() > 46 {')],needs='a Kodak white balance block that ends with the last level',breaks='the white balance is dropped',raw='/tmp/try/out/dcr-wb/replay.raw'),
]
