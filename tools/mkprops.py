#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in the repo; run by hand after editing).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
D="src/decoders/"
I="src/imageops/"
p("C01","Decoding is total: any file gives an image or an error",
 "Decoding any file through the path-based entry point returns either an image or an error. Whatever the bytes (truncated, corrupted, hostile headers, absurd dimensions), it never kills or aborts the process, never exhausts memory through a declared size, and always terminates promptly.",
 ["inputs","fault_sequences"],"every byte string; explored: every truncation point, every single-byte and every single 16/32-bit field corruption from a menu of boundary values, and pairs of header-field corruptions, of a corpus with one file per format and compression variant, in the overflow-checked and the release arithmetic",
 "the 14 stable tests cover camera lookup, CFA and orientation helpers only; no malformed file is ever decoded",
 [D+"mod.rs",D+"tiff.rs",D+"ciff.rs",D+"mrw.rs",D+"basics.rs",D+"pumps.rs",D+"ljpeg/mod.rs",D+"ljpeg/decompressors.rs",D+"ljpeg/huffman.rs"],
 [("panic containment","RawLoader::decode_safe"),("IFD recursion limits","TiffIFD::new, CiffIFD::new"),("buffer over-allocation and slicing","Buffer::new, decode_threaded")])
p("C02","Every successfully decoded image is self-consistent",
 "Whenever decoding a file succeeds, the returned image holds exactly width*height*components samples, where width and height are the ones the file declares in its format's own way and components is 1, or for the formats that store full-colour pixels the stored number of components (3 in practice). This holds also for files whose declared geometry (dimensions, tiles, strips, slices, component counts) contradicts the stored data: those give a complete image or an error, never a short or overlong one.",
 ["inputs"],"every file that decodes; explored: all geometry-field combinations over small menus per format, one and two deviating fields",
 "no test decodes a file",
 [D+"image.rs",D+"dng.rs",D+"cr2.rs",D+"nef.rs",D+"mrw.rs",D+"raf.rs"],
 [("image construction","RawImage::new, ok_image"),("3-component images","Cr2Decoder::image, NefDecoder::image, DngDecoder::image")])
p("C03","Uncompressed raws decode bit-exactly",
 "For every uncompressed raw format (8-bit curve-coded, 10/12-bit packed little- and big-endian, 16/32-bit-word-swapped, control-byte, interlaced, row-aligned, 12/14/16-bit unpacked in either byte order, line-skipping and sensor-rotated layouts) every decoded sample equals the one that was stored, at its row and column. This holds for every sample value, every position and every supported width and height.",
 ["inputs","configurations"],"all sample values at all positions of small images; explored: every layout x every camera format that uses it x all small geometries, one-hot and complement bit patterns at every bit position plus all values at each phase position",
 "no test decodes pixels",
 [D+"packed.rs",D+"basics.rs",D+"dng.rs",D+"nef.rs",D+"orf.rs",D+"rw2.rs",D+"arw.rs",D+"kdc.rs",D+"nrw.rs",D+"mrw.rs",D+"ari.rs",D+"raf.rs",D+"srw.rs",D+"erf.rs",D+"mef.rs",D+"dcs.rs",D+"nkd.rs",D+"mos.rs",D+"pef.rs",D+"tfr.rs"],
 [("bit unpacking","packed.rs decode_*"),("row/stripe offsets","decode_threaded, decode_threaded_multiline"),("layout choice","per-format image()")])
p("C04","Lossless-JPEG raws decode exactly what was encoded",
 "For every raw stored as lossless JPEG (DNG strips and tiles, Canon CR2 including vertical slices and subsampled sRAW, Hasselblad, Leaf) the decoded samples equal those of a standard-conforming lossless JPEG decoder, placed at the right row and column. This holds for every legal Huffman table, every sample precision from 12 to 16 bits, 2 to 4 interleaved components, every difference value of every category including the largest, and for images narrower than the coded frame.",
 ["inputs","configurations"],"all Huffman-table shapes, difference categories 0-16, component counts, slice and tile layouts; explored exhaustively for small images with bounded deviations from a default sample sequence",
 "no test decodes a compressed stream",
 [D+"ljpeg/mod.rs",D+"ljpeg/decompressors.rs",D+"ljpeg/huffman.rs",D+"pumps.rs",D+"cr2.rs",D+"dng.rs",D+"tfr.rs",D+"mos.rs"],
 [("entropy decoding","HuffTable, BitPumpJPEG"),("prediction","LjpegDecompressor::decode and its variants"),("placement","Cr2Decoder slices, DngDecoder tiles")])
p("C05","Entropy-coded vendor raws decode exactly what was encoded",
 "For the Huffman- and difference-coded vendor formats (Nikon compressed including split tables and small raw, Pentax, Canon CRW, Kodak DCR, Samsung variable-length, Leaf/Phase One, Sony first generation, Kodak curve tables) the decoded samples equal those produced by an independent model of the published format. This holds for every code word, difference magnitude and sign, row/column predictor state and linearisation curve.",
 ["inputs","histories"],"all token sequences up to a depth and all images with bounded deviations from a default token sequence, per format",
 "no test decodes a compressed stream",
 [D+"nef.rs",D+"pef.rs",D+"crw.rs",D+"dcr.rs",D+"srw.rs",D+"iiq.rs",D+"arw.rs",D+"basics.rs",D+"pumps.rs"],
 [("predictor state","per-format decode_compressed"),("bit pumps","pumps.rs"),("curves","LookupTable, create_hufftable")])
p("C06","Block- and context-coded vendor raws decode exactly what was encoded",
 "For the block- and context-adaptive vendor formats (Sony 16-pixel blocks, Olympus adaptive, Panasonic 14-pixel blocks, Samsung block formats with motion-style prediction) the decoded samples equal those produced by an independent model of the published format. This holds for every block parameter, adaptation state, edge row and column and clamping case.",
 ["inputs","histories"],"all token sequences up to a depth and all images with bounded deviations from a default token sequence, per format",
 "no test decodes a compressed stream",
 [D+"arw.rs",D+"orf.rs",D+"rw2.rs",D+"srw.rs",D+"pumps.rs"],
 [("block decoding","ArwDecoder::decode_arw2, Rw2Decoder::decode_panasonic, SrwDecoder::decode_srw1/3"),("adaptive state","OrfDecoder::decode_compressed")])
p("C07","Container layout does not change the decoded image",
 "Two files that carry the same tags and the same sample data decode to identical images, whatever the byte order of the container, the position and order of directories and of values, inline or out-of-line value storage, the integer width of integer tags, and the presence of tags the library does not know. The first occurrence in directory order decides when a tag is repeated across directories.",
 ["inputs","configurations"],"all combinations of byte order x entry order x directory placement x padding x integer type x unknown-tag insertion for each TIFF-based format, and the equivalent freedoms of CIFF and MRW",
 "no test parses a container",
 [D+"tiff.rs",D+"ciff.rs",D+"mrw.rs",D+"raf.rs",D+"basics.rs"],
 [("directory walk","TiffIFD::new_root/new/new_makernote/new_fuji, CiffIFD"),("value decoding","TiffEntry::get_*")])
p("C08","Camera database entries are reported faithfully",
 "For every camera, alias and mode in the shipped database, looking it up yields exactly the values of its file: make, model and their cleaned names, colour pattern and matrix, black and white levels, crops, size; a mode overrides only the keys it sets and an alias changes only the names. A make/model/mode that is not in the database is an error.",
 ["configurations","inputs"],"every (camera, alias, mode) of data/cameras and every one-edit neighbour of each key",
 "tests look up a handful of cameras",
 [D+"mod.rs","data/cameras"],
 [("database construction","RawLoader::new, Camera::update_from_toml"),("lookup","RawLoader::check_supported_with_everything")])
p("C09","Colour filter patterns tile, shift and compose correctly",
 "A colour filter pattern repeats with its own width and height over the whole plane and reports for each position the colour written in its description. Shifting by (x,y) makes position (0,0) of the result show what (x,y) showed, shifts compose additively for arbitrary offsets, and the cropped pattern of an image is the pattern as seen from its crop corner.",
 ["inputs","histories"],"all 2x2 patterns over the colour alphabet, all database patterns, all shift pairs and shift sequences up to several periods",
 "tests check a few shifts of a few patterns",
 [D+"cfa.rs",D+"image.rs"],
 [("pattern expansion","CFA::new, color_at"),("shift","CFA::shift, RawImage::cropped_cfa")])
p("C10","Output images fit the requested box, keep aspect, and are never upscaled",
 "A developed image (8-bit, float or linear) has width*height*3 samples, is the cropped raw size turned by its orientation when the limits are 0 or at least that large, and otherwise fits inside the limits touching at least one of them while keeping the aspect ratio to within rounding. It is never larger than the cropped raw and never empty.",
 ["inputs","configurations"],"all raw sizes, crops, orientations and limits over a small grid, Bayer, 3-component and monochrome, all three output functions",
 "no test develops an image",
 [I+"demosaic.rs",I+"gofloat.rs",I+"transform.rs",I+"mod.rs",D+"image.rs"],
 [("scale computation","demosaic_and_scale"),("crop","gofloat::convert")])
p("C11","Orientation turns the image exactly and nothing else",
 "For each of the eight orientations the developed image is the corresponding rotation or mirror image of the one developed with normal orientation, pixel for pixel; an unknown orientation leaves the image unchanged. Orientation values outside 1..8 are unknown.",
 ["inputs","configurations"],"all orientations x all small sizes x a position-identifying image; all 65536 orientation codes",
 "tests rotate one tiny fixed image",
 [I+"transform.rs",D+"mod.rs"],
 [("flip decomposition","Orientation::to_flips"),("buffer rotation","rotate_buffer")])
p("C12","Demosaicing and downscaling are faithful to the sensor samples",
 "When the output is full size, each output pixel keeps the sensor's own sample in its own channel and each missing channel is the average of that channel's samples in its 3x3 neighbourhood; when it is scaled down, each output value is a weighted average of same-colour samples drawn only from the part of the sensor (with neighbouring margin) that this pixel covers, in which wholly covered samples count equally and none is skipped. A uniform sensor area therefore stays uniform, a sample influences only output pixels near it, and 3-component images are passed through or averaged per component.",
 ["inputs","configurations"],"all colour patterns of the database x all small sizes, crops and scale factors; impulse at every position",
 "no test develops an image",
 [I+"demosaic.rs",I+"gofloat.rs"],
 [("full demosaic","demosaic::full"),("scaled demosaic","demosaic::scaled, scale_down"),("crop and float conversion","gofloat::convert")])
p("C13","Tone and colour conversion follow the documented pipeline",
 "Developed pixels equal the documented pipeline (black/white level normalisation, white balance with fallback to the neutral one, camera matrix to Lab, base curve, Lab to sRGB, optional gamma) applied to the demosaiced samples to within rounding. Float outputs with gamma and 8-bit outputs stay within range, the 8-bit image is the float image times 255 truncated, and a camera-neutral grey develops to a neutral grey that never gets darker when the raw samples get brighter.",
 ["inputs","configurations"],"all sample values of a grid x levels x white balances x matrices of the database",
 "no test develops an image",
 [I+"level.rs",I+"colorspaces.rs",I+"curves.rs",I+"gamma.rs",I+"mod.rs",D+"image.rs"],
 [("levels","level::level_and_balance"),("matrix and Lab","colorspaces::camera_to_lab/lab_to_rgb"),("curve","curves::base"),("gamma","gamma.rs"),("matrix inversion","cam_to_xyz, neutralwb")])
p("C14","Results do not depend on thread scheduling",
 "Decoding a file and developing an image give bit-identical results for every number of worker threads and every order in which the parallel pieces of work are executed or overlap, also when several decodes run concurrently. No schedule deadlocks or leaves part of the output unwritten.",
 ["schedules"],"all execution orders of the parallel tasks up to a preemption/steal bound, thread counts 1..3, one and two concurrent callers, for every parallel decoder and image operation",
 "tests run one schedule on whatever the machine does",
 [D+"basics.rs",D+"packed.rs",D+"srw.rs",D+"rw2.rs",D+"arw.rs",I+"demosaic.rs",I+"gofloat.rs",I+"level.rs",I+"colorspaces.rs",I+"curves.rs",I+"gamma.rs"],
 [("parallel rows","decode_threaded, decode_threaded_multiline"),("parallel image ops","OpBuffer::mutate_lines and par_chunks users"),("lazily built globals","lazy_static tables")])
p("C15","Decoding and developing are pure: no history dependence",
 "The result of decoding a file or developing an image depends only on that file or image and the arguments, never on what the process decoded or developed before, including operations that failed or panicked internally. Developing never modifies the raw image.",
 ["histories","fault_sequences"],"all sequences up to a depth over an alphabet of decodes (good, bad, panicking; several formats) and developments",
 "tests perform single operations in a fresh process",
 ["src/lib.rs",D+"mod.rs",D+"image.rs",I+"mod.rs"],
 [("shared loader","lib.rs LOADER, decode_safe"),("lazily built tables","lazy_static users")])
p("C16","Reading input is robust to short, interrupted and failing reads",
 "The decoded result depends only on the bytes the reader delivers, not on how they are split into reads, and interrupted reads are retried. A read error, or a path that is missing, a directory or unreadable, yields an error and never an image or a panic.",
 ["fault_sequences","inputs"],"all sequences of read answers (short lengths, interrupted, error, end) with bounded deviations over a small file of each container family; all kinds of bad paths",
 "tests never read through a faulty reader",
 [D+"mod.rs","src/lib.rs"],
 [("input buffering","Buffer::new"),("open errors","RawLoader::decode_safe")])
p("C17","Image metadata is taken from the file correctly",
 "White balance, black and white levels, crop, orientation, colour pattern, colour matrix and names in the decoded image equal those stored in the file in each format's own location and encoding (plain, offset, encrypted or scaled), and fall back to the camera database where the format does not store them. This holds for every stored value and container byte order.",
 ["inputs","configurations"],"all values of each metadata field over boundary menus, with one and two fields deviating, per format and camera variant",
 "no test decodes a file",
 [D+"arw.rs",D+"cr2.rs",D+"crw.rs",D+"dcr.rs",D+"dng.rs",D+"erf.rs",D+"iiq.rs",D+"kdc.rs",D+"mos.rs",D+"mrw.rs",D+"nef.rs",D+"nrw.rs",D+"orf.rs",D+"pef.rs",D+"raf.rs",D+"rw2.rs",D+"srw.rs",D+"tfr.rs",D+"ari.rs",D+"mod.rs"],
 [("white balance","per-format get_wb"),("levels","per-format get_blacklevel(s)"),("DNG tags","DngDecoder get_* helpers"),("orientation","Orientation::from_tiff")])
p("C18","Format detection picks the right decoder and rejects the rest",
 "A file is decoded by the format its signature and maker identify, with the documented precedence (container signature, then DNG version tag, then maker, then exact file size for headerless dumps). A file whose signature, maker, model, mode or compression is not supported gives an error and never an image.",
 ["inputs","configurations"],"all supported makers/signatures, all one-character edits of them, all compression codes 0..65535 per format, all naked sizes +-1",
 "tests do not dispatch any file",
 [D+"mod.rs",D+"tiff.rs",D+"nkd.rs"],
 [("dispatch","RawLoader::get_decoder"),("signature tests","is_mrw, is_ciff, is_ari, is_x3f"),("compression switch","per-format image()")])
p("C19","Black level is the per-colour mean of the masked sensor area",
 "For cameras with a masked sensor area the reported black level of each colour is the mean, rounded down, of the samples of that colour in the configured masked rows and columns, and no other sample influences it. Cameras without one report the stored levels.",
 ["inputs","configurations"],"all placements and sizes of masked rows/columns on small images x all patterns; an impulse at every position; every database camera that has masked areas",
 "no test decodes a file",
 [D+"image.rs",D+"mod.rs","data/cameras"],
 [("black measurement","RawImage::new")])
p("C20","The command-line converter writes exactly the developed image",
 "Run on a decodable file the converter exits successfully after writing a binary PPM whose header gives the developed size and whose samples are the developed image's 8-bit samples, to the second argument or, without one, to the input's name with .ppm appended; existing content is replaced. On an undecodable, missing or unreadable file it exits with status 2 and neither creates nor changes the output, and it also exits with status 2 when the output cannot be created or fully written; without arguments it prints its usage and fails.",
 ["inputs","fault_sequences","configurations"],"all argument vectors up to length 2 over a file alphabet (good per format, truncated, unsupported, missing, directory), with and without a pre-existing output",
 "no test runs the binary",
 ["src/bin/rawloader.rs"],
 [("argument and error handling","main, error"),("PPM output","main")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
