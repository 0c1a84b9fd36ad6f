exec(open('/verif/tools/seeds1.py').read().split('seeds=[')[0])
seeds=[
dict(id='table-race',property='C14',edits=[('src/imageops/colorspaces.rs','''  static ref CBRT_LOOKUP: Vec<f32> = {
    let mut lookup: Vec<f32> = vec![0.0; CBRT_MAXVALS+1];
    for i in 0..(CBRT_MAXVALS+1) {
      let v = (i as f32) / (CBRT_MAXVALS as f32);
      lookup[i] = v.cbrt();
    }
    lookup
  };
}''','''  static ref CBRT_LOOKUP: ::std::sync::RwLock<Vec<f32>> = ::std::sync::RwLock::new(vec![0.0; CBRT_MAXVALS+1]);
}
static CBRT_FILLED: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);

// Fill the table the first time it's used
fn cbrt_prepare() {
  if !CBRT_FILLED.swap(true, ::std::sync::atomic::Ordering::SeqCst) {
    let mut lookup: Vec<f32> = vec![0.0; CBRT_MAXVALS+1];
    for i in 0..(CBRT_MAXVALS+1) {
      let v = (i as f32) / (CBRT_MAXVALS as f32);
      lookup[i] = v.cbrt();
    }
    *CBRT_LOOKUP.write().unwrap() = lookup;
  }
}'''),('src/imageops/colorspaces.rs','''      CBRT_LOOKUP[(val*(CBRT_MAXVALS as f32)) as usize]''','''      cbrt_prepare();
      CBRT_LOOKUP.read().unwrap()[(val*(CBRT_MAXVALS as f32)) as usize]''')],
 needs='the first development of a process, with two threads reaching the colour conversion at the same time',breaks='a thread that comes second uses the table before it is filled',
 sh='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -A warnings -o "$T/demo" "$D/demo.rs" --extern rawloader="$PWD/target/debug/librawloader.rlib" -L dependency="$PWD/target/debug/deps" || exit 2
for k in $(seq 40); do RAYON_NUM_THREADS=8 timeout 100 "$T/demo" "$D" "$T" > /dev/null || exit 1; done
''',files={'demo.rs':'/tmp/fx/race.rs'}),
]
