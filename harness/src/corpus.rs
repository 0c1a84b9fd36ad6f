//! Small valid files of every supported format.
use crate::tiffb::*;

/// A minimal little-endian 16-bit uncompressed Bayer DNG with an unknown camera name.
pub fn dng16<F: FnOnce(&mut Ifd)>(w: u16, h: u16, data: &[u16], f: F) -> Vec<u8> {
    let mut t = Tiff::new(vec![]);
    let b = t.blob(data.iter().flat_map(|v| v.to_le_bytes()).collect());
    let mut i = Ifd::new().l(0xfe, 0).s(0x100, w).s(0x101, h).s(0x102, 16).s(0x103, 1).s(0x106, 32803).a(0x10f, "TestMake").a(0x110, "TestModel").t(0x111, V::Off(vec![(b, 0)])).s(0x115, 1)
        .l(0x117, data.len() as u32 * 2).t(0x828e, V::B(vec![0, 1, 1, 2])).t(0xc612, V::B(vec![1, 4, 0, 0])).s(0xc61a, 0).s(0xc61d, 16000).t(0xc628, V::R(vec![(1, 2), (1, 1), (2, 3)]));
    f(&mut i);
    t.ifds.push(i);
    t.build(&Layout::std(false))
}
