# changes tried with trybugs.py that the checks caught, kept with the file of the first alarm as their demonstration
T={}
def B(i,p,*e,**k): T[i]=(p,list(e))
D='src/decoders/'
N={
'makernote-depth':('C01','src/decoders/tiff.rs',[('TiffIFD::new_makernote(buf, entry.doffset(), base_offset, depth+1, e)','TiffIFD::new_makernote(buf, entry.doffset(), base_offset, depth, e)')],'a makernote whose directory contains itself','the nesting limit is never reached and the stack overflows'),
'wcontrol-stride':('C03',D+'packed.rs',[('''pub fn decode_12le_wcontrol(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
  // Calulate expected bytes per line.
  let perline = width * 12 / 8 + ((width+2) / 10);''','''pub fn decode_12le_wcontrol(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
  // Calulate expected bytes per line, with a control byte after every 10 pixels
  let perline = width * 12 / 8 + ((width+1) / 10);''')],'a width of 8 modulo 10','every line after the first starts one byte early'),
'sos-table':('C04',D+'ljpeg/mod.rs',[('let td = (input.get_u8() as usize) >> 4;','let td = ((input.get_u8() as usize) >> 4) & 1;')],'a component that selects Huffman table 2 or 3','the wrong table is used'),
'jpeg-fill':('C04',D+'ljpeg/mod.rs',[('''      return Ok(mark)
    }
    try!(input.skip_to_marker());''','''      return Ok(mark)
    }
    try!(if input.get_pos() > 4096 { Err("ljpeg: header too long".to_string()) } else { input.skip_to_marker() });''')],'a stream with more than 4 KB of segments before its tables','a valid stream is refused'),
'nef-curve-full':('C05',D+'nef.rs',[('} else if v0 != 70 && csize <= 0x4001 {','} else if v0 != 70 && csize < 0x4001 {')],'a curve stored with its largest size','the stored curve is ignored'),
'arw1-len13':('C05',D+'arw.rs',[('pump.get_bits(cmp::min(13, zeros+1));','pump.get_bits(zeros+1);')],'the longest difference code','one bit too many is taken as the code'),
'crw-run-end':('C05',D+'crw.rs',[('if leaf == 0xff { i+= 1; continue; }','if leaf == 0xff { i+= 16; continue; }')],'the rare code whose leaf is empty','a whole run is skipped in place of one position'),
'pana-nonz':('C06',D+'rw2.rs',[('if pred[i & 1] < 0 || sh == 4 {','if pred[i & 1] < 0 {')],'a group with the largest shift whose base does not fall below zero','the base is kept where the format drops it'),
'orf-carry-row':('C06',D+'orf.rs',[('if left_minus_nw.abs() > 32 || up_minus_nw.abs() > 32 {','if left_minus_nw.abs() > 32 || up_minus_nw.abs() >= 32 {')],'a gradient of exactly 32 with the other of opposite sign','the wrong predictor is chosen'),
'srw3-mv':('C06',D+'srw.rs',[('let motion_offset: [isize;7]  = [-4,-2,-2,0,0,2,4];','let motion_offset: [isize;7]  = [-4,-2,-2,0,0,2,2];')],'a block that refers four columns to the right','the reference is taken two columns to the right'),
'slong-tags':('C07',D+'tiff.rs',[('4 | 7 | 9 | 13     => self.get_force_u32(idx),','''4 | 7 | 13         => self.get_force_u32(idx),
      9                  => self.endian.ri32(self.data, idx*4) as u16 as u32,''')],'a tag of signed long type with a value over 65535','the upper half of the value is lost'),
'nef-wb-serial':('C17',D+'nef.rs',[('(data[i]%10) as usize','0')],'an encrypted white balance in a file whose serial number has a character that is no digit','the white balance is decrypted with the wrong key'),
'crw-wb-d30':('C17',D+'crw.rs',[('cinfo.get_u32(0) > 512','cinfo.get_u32(0) >= 512')],'colour information whose first value is exactly 512','the white balance is read from the wrong place'),
'dng-after-make':('C18',D+'mod.rs',[('if tiff.has_entry(Tag::DNGVersion) {','if tiff.has_entry(Tag::DNGVersion) && !(tiff.has_entry(Tag::Make) && fetch_tag!(tiff, Tag::Make).get_str() == "Leaf") {')],'a DNG converted from a Leaf file','the MOS decoder gets a DNG'),
'iiq-carry':('C05',D+'iiq.rs',[('          pump.get_bits(16)\n','          pump.get_bits(16) & 0x7fff | (pred[col & 1] & 0)\n')],'a sample stored whole with its top bit set','the top bit is lost'),
'dng-cfa-cpp':('C02',D+'dng.rs',[('      cpp: cpp,','      cpp: if linear {cpp} else {1},')],'a mosaic DNG with several samples per pixel','the buffer is larger than the described image'),
'eof-kind':('C16',D+'mod.rs',[('''    if let Err(err) = reader.read_to_end(&mut buffer) {
      return Err(''','''    if let Err(err) = reader.read_to_end(&mut buffer) {
      if err.kind() != ::std::io::ErrorKind::UnexpectedEof || buffer.len() == 0 { return Err('''),('''format!("IOError: {}", err).to_string())
    }''','''format!("IOError: {}", err).to_string()) }
    }''')],'a reader that fails with UnexpectedEof after delivering some bytes','the failure is dropped and an image is returned'),
'level-e':('C13','src/imageops/level.rs',[('pix[3] = (((pix[3] - mins[3]) / ranges[3]) * mul[3]).min(1.0);','pix[3] = (((pix[3] - mins[1]) / ranges[1]) * mul[3]).min(1.0);')],'a four-colour camera whose fourth black level differs from the second','the fourth colour is scaled with the levels of the second'),
'alias-modes':('C08',D+'mod.rs',[('''          mcam.model = model.clone();
          mcam.clean_model = clean_model.clone();''','''          mcam.model = model.clone();
          if mcam.mode.is_empty() { mcam.clean_model = clean_model.clone(); }''')],'a model alias of a camera with modes','images of a mode get the clean name of the aliased camera'),
}
import os
RS={}
seeds=[]
for i,(p,f,e,needs,breaks) in N.items():
    d=dict(id=i,property=p,edits=[(f,a,b) for a,b in e],needs=needs,breaks=breaks)
    r='/tmp/try/out/%s/replay.raw'%i
    if i in ('eof-kind','level-e','alias-modes') or not os.path.exists(r): continue
    d['raw']=r
    seeds.append(d)
