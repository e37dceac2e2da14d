#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so that the JSON stays well formed)."""
import json, os
B='src/binary/'; CH=B+'chunks/'; L='src/loader/mod.rs'; BL='src/loader/blend.rs'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Loading any bytes ends in success or an error, never a panic or hang",
 "For every byte sequence, loading it as a sprite or parsing it at the lower levels returns either a value or an error: it never panics, overflows an integer or the stack, aborts, or fails to terminate. This includes hostile counts, sizes, indices and arbitrarily deep nesting of user-data properties.",
 ["inputs"],"all byte sequences, in particular every field of every chunk at every value and every truncation",
 "The tests load eight well-formed files written by Aseprite; no test feeds a malformed one.",
 [B+'raw_frame.rs',B+'chunk.rs',B+'file.rs',CH+'user_data.rs',CH+'palette.rs',B+'palette.rs',L],
 [("size checks before subtraction","src/binary/scalars.rs dword_size"),("bounds check of cel layer index","src/binary/file.rs parse_file"),("property size and nesting","src/binary/chunks/user_data.rs")],
 ["AsepriteFile::load","binary::file::parse_file","binary::raw_file::parse_raw_file"])

p("C02","A loaded sprite decodes and renders without panicking, whatever it holds",
 "Once a sprite has loaded, decoding any of its images and rendering any of its frames, with any layer selection and a large enough buffer, returns success or an error and never panics, overflows or hangs. This holds for corrupt or wrongly sized pixel data, unknown blend modes, unsupported colour depths, cels outside the canvas and layers of any type (given enough memory for the declared cel size).",
 ["inputs"],"all files that load, all valid frame and image indices, all selections",
 "Tests render a handful of well-formed files; a panic needs corrupt data, an unusual blend mode or geometry that no fixture has.",
 [L,BL],[("load_image length checks","src/loader/mod.rs load_image"),("blend function lookup","src/loader/blend.rs blend_mode_to_blend_fn"),("clipping","src/loader/mod.rs render_frame")],
 ["AsepriteFile::render_frame","AsepriteFile::load_image","AsepriteFile::combined_frame_image"])

p("C03","Header, frames, layers and cels decode to exactly what the file says",
 "For every well-formed file, each documented field of the file header, of each frame header, of each layer and of each cel (raw, linked, compressed, tilemap) is reported with exactly the value stored in the file, in file order. Field widths, signedness, byte order, flag bits and string lengths follow the Aseprite file format specification.",
 ["inputs"],"all well-formed files: every value of every field, any number of frames, layers and cels, any string length",
 "Tests look at one header and a few names; a truncated width, swapped field or wrong flag bit passes them.",
 [B+'header.rs',B+'raw_frame.rs',B+'frame.rs',CH+'layer.rs',CH+'cel.rs',B+'scalars.rs'],
 [("header parser",B+"header.rs parse_header"),("layer parser",CH+"layer.rs parse_layer_chunk"),("cel parser",CH+"cel.rs parse_cel_chunk")],
 ["binary::file::parse_file","binary::raw_file::parse_raw_file"])

p("C04","Tags, slices, palettes and auxiliary chunks decode exactly",
 "For every well-formed file, tags, slices (with nine-patch and pivot), palettes of all three kinds, colour profiles, external files, masks, tilesets and cel extras are reported with exactly the values the file stores, whatever combination of optional parts their flags announce. A palette chunk that changes only part of the palette carries one entry per changed colour.",
 ["inputs"],"all well-formed files containing these chunks: every flag combination, count and field value",
 "Three tag names and three palette colours are all the tests read of these chunks.",
 [CH+'tags.rs',CH+'slice.rs',CH+'palette.rs',CH+'old_palette.rs',CH+'color_profile.rs',CH+'external_files.rs',CH+'mask.rs',CH+'tileset.rs',CH+'cel_extra.rs'],
 [("tags",CH+"tags.rs parse_tag"),("slices",CH+"slice.rs parse_slice_key"),("palette",CH+"palette.rs parse_palette_chunk"),("tileset",CH+"tileset.rs parse_tileset_chunk")],
 ["binary::raw_file::parse_raw_file","binary::file::parse_file"])

p("C05","Declared sizes delimit chunks and frames; what is unknown is skipped",
 "The declared size of a chunk or frame alone decides where it ends: unknown or unsupported chunks, reserved fields, extra bytes at the end of a chunk or frame, and chunks the loader ignores never change how anything else in the file is read. The number of chunks in a frame is taken from the 32-bit count, or from the 16-bit count when the 32-bit one is zero.",
 ["inputs"],"all well-formed files, with unknown chunks, padding and reserved values inserted anywhere",
 "No fixture has an unknown chunk, padding or a non-zero reserved field.",
 [B+'chunk.rs',B+'raw_frame.rs',B+'chunk_type.rs',B+'file.rs'],
 [("chunk framing",B+"chunk.rs parse_chunk"),("frame framing",B+"raw_frame.rs parse_rawframe"),("ignored chunks",B+"file.rs parse_file")],
 ["binary::raw_file::parse_raw_file","binary::file::parse_file","AsepriteFile::load"])

p("C06","Malformed or truncated files are rejected, never misread",
 "A byte sequence loads only if all of it is a header followed by one or more complete frames whose announced chunks all fit inside them and are themselves well-formed (complete fields, valid UTF-8 strings, ordered ranges, indices in range); everything else is an error. In particular no truncated or over-long file is accepted unless it is cut exactly between two frames, and whatever is accepted is read according to the format.",
 ["inputs"],"all byte sequences, in particular every truncation, byte change, deletion and insertion of a well-formed file",
 "No test feeds malformed input, so leniency or over-strictness goes unnoticed.",
 [B+'header.rs',B+'raw_frame.rs',B+'chunk.rs',B+'scalars.rs',B+'file.rs',CH+'tags.rs',CH+'palette.rs'],
 [("all frames consumed",B+"raw_frame.rs parse_frames"),("magic numbers",B+"header.rs, "+B+"raw_frame.rs"),("UTF-8 strings",B+"scalars.rs parse_string")],
 ["AsepriteFile::load","binary::file::parse_file"])

p("C07","User data attaches to the object it follows, and to nothing else",
 "User data directly following a layer, cel or slice belongs to that object; user data following a tag list belongs to its tags one by one in order; user data following a palette in the first frame belongs to the sprite (the first such wins). User data anywhere else is dropped, and no object ever receives data that does not follow it.",
 ["histories"],"all sequences of chunks across frames",
 "One fixture with one fixed chunk order is tested; the association depends on the whole chunk history.",
 [B+'file.rs'],[("lookahead for user data",B+"file.rs parse_file / next_user_data")],
 ["binary::file::parse_file"],
 [("peekable chunk iterator","whether the next chunk is user data for the current object",B+"file.rs parse_file")])

p("C08","User-data text, colour and property trees decode exactly, faults stay local",
 "User data reports exactly the text, colour and property maps its flags announce; every property type, nested map and typed or mixed vector is decoded with its exact name, order and value. A defect inside the property maps is reported as an error in that user data's properties only and never prevents the rest of the file from loading; only property maps that overrun their chunk make the file an error.",
 ["inputs"],"all user data: every flag combination, property type, nesting shape and vector length; every defect inside the property area",
 "No fixture contains a property map at all.",
 [CH+'user_data.rs',B+'scalars.rs'],[("typed values",CH+"user_data.rs parse_value / parse_vector"),("isolation by size",CH+"user_data.rs parse_properties_maps")],
 ["binary::file::parse_file"])

p("C09","Cels sit in their frame under their layer; dangling layer indices are errors",
 "In every frame there is one slot per layer of the sprite, empty or holding that layer's cel; when a frame repeats a layer the last cel wins. A cel whose layer index is not smaller than the number of layers makes the file an error, wherever in the file the layers are defined.",
 ["inputs","histories"],"all arrangements of layers and cels over frames, all layer indices",
 "Every fixture has in-range, unique, ordered layer indices.",
 [B+'file.rs'],[("slot table",B+"file.rs parse_file")],["binary::file::parse_file","AsepriteFile::load"])

p("C10","A linked cel shows exactly the image of the cel it links to",
 "A linked cel resolves to the image stored for the same layer in the linked frame, whether that frame comes earlier or later, while keeping its own position. A link to a missing frame, an empty slot, or a cel that has no image of its own is a load error; no link ever resolves to another layer's or frame's image.",
 ["inputs","histories"],"all arrangements of image and linked cels over frames and layers, all link targets",
 "The only fixture with several frames contains no linked cel.",
 [L],[("image map keyed by frame and layer",L+" load")],["AsepriteFile::load"],
 [("image_map","(frame, layer) to image index",L+" load")])

p("C11","An indexed sprite's palette is assembled by the format's rules",
 "An indexed sprite's palette comes from all chunks of the newest palette kind present, in file order with later entries overriding earlier ones; old-format packets skip cumulatively, have opaque colours, and the six-bit kind is scaled to eight bits. Unset entries are transparent black, the transparent index has alpha zero, and a missing, empty or out-of-range palette is an error; sprites in other colour modes have no palette and need none.",
 ["inputs","histories"],"all sequences of palette chunks over frames, all ranges, counts and transparent indices",
 "Tests read three colours of one palette.",
 [B+'palette.rs',CH+'palette.rs',CH+'old_palette.rs'],[("precedence and merge",B+"palette.rs create_palette")],
 ["binary::file::parse_file","AsepriteFile::load_image"])

p("C12","Image decoding yields the exact RGBA8 pixels, or an error",
 "Decoding an image writes exactly width x height RGBA8 pixels in row order: RGBA unchanged, greyscale as value replicated with its alpha, indexed through the palette, equally for raw and zlib-compressed data. Pixel data that is corrupt or too short or too long for the declared size is an error in every colour mode, and a successful result never depends on what the buffer held before.",
 ["inputs"],"all images: colour mode, storage, size, pixel values, and every length or corruption of the data",
 "Tests only check that decoding the fixtures succeeds; no pixel is ever compared.",
 [L],[("colour conversion",L+" load_image / grayscale_to_rgba / indexed_to_rgba"),("zlib",L+" decompress")],
 ["AsepriteFile::load_image","loader::decompress"])

p("C13","Separable blend modes match Aseprite's integer formulas bit for bit",
 "For normal, multiply, screen, overlay, darken, lighten, colour dodge, colour burn, hard light, soft light, difference, exclusion, addition, subtract and divide, rendering a layer over a backdrop gives exactly the colour Aseprite's RGBA blender gives, for every backdrop colour, source colour, both alphas and opacity. Each colour channel depends only on the same channel of the two colours.",
 ["inputs"],"all pairs of channel values, alphas and opacities for each mode",
 "No test compares a blended pixel; formulas have branches at single channel values.",
 [BL],[("blend formulas",BL),("backdrop-alpha merge",BL+" blender")],["AsepriteFile::render_frame"])

p("C14","Hue, saturation, colour and luminosity blending match Aseprite",
 "For the four non-separable modes, rendering a layer over a backdrop gives the colour Aseprite's HSL blenders give: channels normalised to 0..1, Aseprite's luminosity weights, saturation transfer (including its behaviour on ties) and gamut clipping, truncated to integers. Alpha is that of normal blending and is never disturbed by the colour computation.",
 ["inputs"],"all colour pairs, alphas and opacities for each of the four modes",
 "No fixture uses an HSL mode, so neither the formulas nor the value range is ever exercised.",
 [BL],[("HSL helpers",BL+" set_saturation / set_luminocity / clip_color")],["AsepriteFile::render_frame"])

p("C15","Opacity and alpha compose as source-over in every blend mode",
 "In every blend mode the resulting alpha is the source-over combination of backdrop alpha with source alpha scaled by the effective opacity, where effective opacity is layer opacity (255 if the file says layer opacity is not valid) times cel opacity. A fully transparent source pixel or zero effective opacity leaves a visible backdrop pixel unchanged; over a fully transparent backdrop every mode yields the source colour.",
 ["inputs"],"all alphas, layer and cel opacities and header flags, for each mode",
 "All cels and most layers of the fixtures are fully opaque and results are never compared.",
 [BL,L],[("normal blending",BL+" normal"),("opacity handling",L+" load / render_frame")],["AsepriteFile::render_frame"])

p("C16","Every cel pixel lands at its exact canvas position or is clipped",
 "Rendering paints cel pixel (x, y) onto canvas pixel (cel origin + (x, y)) exactly when that lies on the canvas, for all signed origins and all canvas and cel sizes up to the format's limits; all other canvas pixels keep their value. Nothing wraps around an edge or a row.",
 ["inputs"],"all canvas sizes, cel sizes and signed cel origins",
 "The tests that move cels off the canvas only check for absence of panics in two files.",
 [L],[("checked placement and clipping",L+" render_frame")],["AsepriteFile::render_frame"])

p("C17","Frames composite bottom to top in layer and z-index order",
 "Rendering a frame equals blending its selected cels one after another onto the buffer's existing content, in increasing order of layer index plus z-index (ties by z-index), each with its own layer's blend mode and opacity. Only cels of that frame contribute, each exactly once, and tilemap, group or unknown layers never shift which layer a cel belongs to.",
 ["inputs","histories"],"all stacks of layers, blend modes, opacities, z-indices, layer kinds and frames",
 "Fixtures have no z-index, no tilemap or unknown layers, and composited pixels are never compared.",
 [L],[("cel order and layer lookup",L+" load / render_frame")],["AsepriteFile::render_frame"])

p("C18","Layer selection decides exactly which layers are rendered",
 "'Visible' renders exactly the layers that are visible in the file, where a layer inside a hidden group is not visible; 'all' renders every image layer; a mask or name selection renders exactly the layers it marks, and layers beyond the end of a mask are not rendered. Selecting by predicate or by name marks every matching layer, including several with the same name, and group layers themselves never paint.",
 ["inputs","configurations"],"all layer trees, visibility flags, masks of any length and name sets",
 "One test compares 'one layer' with 'all' for inequality.",
 [L],[("selection",L+" LayerSelection::is_selected / select_layers"),("visibility",L+" load")],
 ["AsepriteFile::render_frame","AsepriteFile::select_layers","AsepriteFile::select_layers_by_name"])

p("C19","Too-small buffers are refused untouched; nothing outside the image is written",
 "Decoding an image or rendering a frame into a buffer smaller than width x height x 4 bytes returns the documented error and leaves the buffer unchanged; any buffer at least that large works, and bytes beyond that size are never modified. The outcome inside the image area does not depend on the buffer's length.",
 ["inputs"],"all sprite and image sizes and all buffer lengths",
 "Tests always pass a buffer of exactly the right size.",
 [L],[("size checks",L+" render_frame / load_image")],["AsepriteFile::render_frame","AsepriteFile::load_image"])

p("C20","Results depend only on file and arguments, never on call history",
 "Every operation on a loaded sprite gives the same result however many operations ran before it, in whatever order, on this or any other sprite, whether they succeeded or failed; loading the same bytes again gives an equal sprite. Loaded sprites can be shared between and sent to other threads.",
 ["histories","schedules"],"all sequences of loads, decodes, renders, selections and failing calls over several sprites",
 "Tests perform each call once on a fresh object.",
 [L],[("methods take &self and keep no state",L+" impl AsepriteFile")],["AsepriteFile (all methods)"])

p("C21","The frame hash is equal for reused frames and differs for different images",
 "Rendering a frame through the hashing call renders exactly what rendering the visible layers renders. Two frames of a sprite that reuse the same cels (same images through links, same layers, positions and opacities) get equal hashes, and two frames that get equal hashes always render to identical images; hashes are reproducible across loads.",
 ["inputs"],"all pairs of frames differing in any one or more attributes of their cels",
 "No test looks at the hash.",
 [L],[("hash of cel descriptors",L+" combined_frame_image")],["AsepriteFile::combined_frame_image"])

p("C22","Parsing is zero-copy: names and pixel data are views into the input",
 "Every string and every block of pixel, tile, mask or profile data that the low-level file view exposes is a view into the caller's input bytes at the place where the file stores it, of exactly the stored length, and never a copy. The images of a loaded sprite likewise refer directly to the input.",
 ["inputs"],"all files that parse, all borrowed fields",
 "Values can be compared by tests but where they live is never checked.",
 [B+'scalars.rs',CH+'cel.rs',L],[("borrowed parsing",B+"scalars.rs parse_string"),("image data",CH+"cel.rs parse_cel_chunk")],
 ["binary::raw_file::parse_raw_file","binary::file::parse_file","AsepriteFile::load"])

p("C23","Memory used while loading is bounded by the size of the input",
 "Loading any input allocates at most a fixed multiple of the input's length, plus one cel slot per stored frame and stored layer, plus a fixed allowance, no matter what counts, sizes, indices or nesting the input announces. A tiny file can therefore never make the loader request a huge amount of memory.",
 ["inputs"],"all byte sequences, in particular every count and size field at its extreme values",
 "Allocation is never measured and no test has an exaggerated count.",
 [B+'chunk.rs',B+'raw_frame.rs',CH+'user_data.rs',CH+'palette.rs',CH+'tags.rs',CH+'slice.rs',B+'file.rs',L],
 [("counted parsing without trusting the count","nom count() calls in src/binary"),("slot tables",B+"file.rs parse_file")],["AsepriteFile::load"])

p("C24","Unknown enumeration values are preserved verbatim, known ones recognised",
 "For every value of the colour depth, layer type, blend mode, cel type, animation direction, colour profile type, external file type and chunk type fields, a value the format defines is reported as that kind and any other value is reported as unknown together with exactly that value. An unknown value never prevents the rest of the file from being read.",
 ["inputs"],"all 2^8 or 2^16 values of each enumeration field",
 "One known and one unknown blend mode value are tested; the smallest unknown values behave differently.",
 [B+'blend_mode.rs',B+'color_depth.rs',B+'chunk_type.rs',CH+'layer.rs',CH+'cel.rs',CH+'tags.rs',CH+'color_profile.rs',CH+'external_files.rs'],
 [("conversions from raw values",B+"blend_mode.rs From<Word> and siblings")],["binary::raw_file::parse_raw_file","binary::file::parse_file"])

p("C25","Each documented failure is reported as its documented error",
 "A file or call with exactly one defect is reported with the error documented for that defect: frame or chunk size below its minimum, invalid UTF-8, palette missing, empty or out of range, reversed tag range, layer index out of bounds, unsupported property type, buffer too small, unsupported colour depth or blend mode, wrong pixel data length, failed decompression. Loading reports every parse failure as a parse error.",
 ["inputs","fault_sequences"],"every single defect, in every place it can occur",
 "No test provokes any error.",
 [B+'errors.rs',B+'scalars.rs',B+'palette.rs',CH+'tags.rs',CH+'palette.rs',L],
 [("error types",B+"errors.rs ParseError; "+L+" LoadImageError")],["binary::file::parse_file","AsepriteFile::load_image","AsepriteFile::render_frame"])

p("C26","A broken cel only affects the operations that need it",
 "If one image of a sprite is corrupt or its layer unsupported, every image, frame and layer selection that does not involve it still gives exactly the result it gives in the intact sprite, and every operation that does involve it reports an error. No failure is swallowed and reported as success.",
 ["inputs","fault_sequences"],"every choice of broken cel and kind of damage, over all frames, images and selections",
 "No fixture contains a damaged cel.",
 [L],[("per-cel decoding and error propagation",L+" render_frame")],["AsepriteFile::render_frame","AsepriteFile::load_image"])

p("C27","The sprite view mirrors the file: layers, frames, cels, tags, images, slices",
 "The loaded sprite lists all layers of the file in order with their name, opacity, blend mode, visibility and kind; all frames with their durations and cels (origin, size, layer and image references that are valid and agree with the file); all tags with name, range, direction and repeat count (zero meaning none); all slices; and the canvas size. Image references point to the image the cel stores, and every stored image is listed exactly once.",
 ["inputs"],"all well-formed files, any number of layers, frames, cels, tags and slices",
 "Tests read a few names through the low-level view only.",
 [L],[("conversion to the sprite view",L+" load")],["AsepriteFile::load","AsepriteFile::{size,tags,layers,frames,image_count,slices}"])
p("C28","Every public parser reads exactly its item and returns the unread rest",
 "Called directly on a byte slice, every public low-level parser (header, frame, chunk, chunk contents, list items, values, scalars) decodes the item at the start of the slice, returns exactly the remaining bytes as its rest (a suffix of the input), gives the same value whatever bytes follow the item, and reports an error on every proper beginning of it; a frame or chunk ends where its declared size says. Parsing a file piece by piece with these parsers gives the same header, frames and chunks as parsing it whole, and the items of a list parsed one by one are the items of the list.",
 ["inputs","histories"],"all items, all bytes following them, all truncations, all ways of taking a file apart",
 "Unit tests call two of these parsers with single values and never look at the rest.",
 ["src/binary/scalars.rs","src/binary/raw_frame.rs","src/binary/chunk.rs","src/binary/header.rs","src/binary/chunks/"],
 [("size-delimited frames and chunks","src/binary/raw_frame.rs, src/binary/chunk.rs"),("scalar and item parsers","src/binary/scalars.rs, src/binary/chunks/")],
 ["binary::header::parse_header","binary::raw_frame::{parse_frames,parse_rawframe}","binary::chunk::{parse_chunk,parse_chunks}","binary::chunks::*::parse_*","binary::scalars::*"])

p("C29","What a sprite shows depends on its picture, not on how the file stores it",
 "Two files that hold the same picture give the same canvas size, layers, tags, frame durations, cels (origin, size, opacity, decoded pixels; fully transparent pixels have no colour) and rendered frames, however the picture is stored: colour depth that can express its colours, palette chunk kind, order, splitting and index assignment, transparent index, raw or zlib data at any level, linked or repeated images, order of cel chunks, place of layer and palette chunks, further hidden layers or enclosing visible groups, user data, unknown and informational chunks, unread bytes at the end of layer chunks and frames, chunk count fields, reserved bytes and header fields that do not affect the picture.",
 ["inputs"],"all pictures, all combinations of storage choices",
 "No two fixtures hold the same picture.",
 [L,"src/binary/file.rs","src/binary/palette.rs"],
 [("decoding to RGBA, link resolution, compositing",L),("collecting layers, cels and palettes over the file","src/binary/file.rs, src/binary/palette.rs")],
 ["AsepriteFile::load","AsepriteFile::{size,layers,tags,frames,load_image,render_frame,select_layers_by_name}"])
p("C30","Decoding and rendering need memory only for the pixels concerned, and keep none",
 "Decoding an image allocates at most a fixed multiple of that image's declared width x height plus a fixed allowance; rendering a frame at most a fixed multiple of the canvas and of the declared sizes of that frame's cels on the layers it renders, plus an allowance and a small amount per layer and cel. Neither depends on how far a compressed stream would expand, on where a cel lies or on its z-index, on unselected layers, or on other frames and images. Repeating any work - loading, parsing, selecting, decoding, rendering, successful or not, on one sprite or on sprites loaded and dropped again - does not make the memory in use grow.",
 ["inputs","histories"],"all files that load, all images, frames and selections, all sequences of operations",
 "Tests measure no memory; a decompression bomb, a hidden cel of a huge declared size or a leak on an error path goes unnoticed in a few small well-formed files.",
 [L],
 [("fixed-size decompression target","src/loader/mod.rs decompress"),("cel buffer of the declared size, after the layer is selected","src/loader/mod.rs render_frame")],
 ["AsepriteFile::load","AsepriteFile::load_image","AsepriteFile::render_frame","AsepriteFile::combined_frame_image","the allocator"])
p("C31","Works on 32-bit platforms as on 64-bit ones, and refuses what does not fit",
 "On platforms with a 32-bit usize (wasm32, armv7, i686) the library gives the same results as on 64-bit ones for every file: the same accepted and rejected files, values, errors, images and frames, no panic, abort or endless loop, and the same bounds on memory. No size, count, offset, index or sort key wraps around. An image or canvas whose width x height x 4 bytes cannot be a buffer on the platform is refused with TargetBufferTooSmall, and so is a frame that needs such a cel; the target is left untouched.",
 ["inputs"],"all files, sizes, counts and offsets up to the limits of their fields",
 "The tests only ever run on a 64-bit platform, where no product of 16- and 32-bit fields overflows.",
 [L,"src/binary/"],
 [("sizes of images and canvases","src/loader/mod.rs render_frame, decode_image, rgba_size"),("sizes and counts read from the file","src/binary/scalars.rs parse_dword_as_usize, src/binary/chunk.rs, src/binary/raw_frame.rs, src/binary/chunks/")],
 ["AsepriteFile::load","AsepriteFile::load_image","AsepriteFile::render_frame","binary::file::parse_file","binary::chunks::*::parse_*"])
p("C32","Work done is in proportion to the data and pixels concerned",
 "Loading an input takes at most a fixed number of steps per byte of input, plus some per stored frame and stored layer (one cel slot each), plus a fixed allowance, whatever counts, sizes, indices or nesting the input announces: sixteen times as many layers, cels, links, tags, user data, palette entries or any other stored items cost about sixteen times as much, never their square. Decoding an image or rendering a frame takes steps for its own pixels, data and cels only, not for the other images and frames of the sprite nor for how far a stream would expand. Accessors take the same few steps however large the sprite is.",
 ["inputs","histories"],"all inputs: any number of items of any kinds together, announced numbers of any size; all images, frames and selections",
 "Tests measure no effort; a search within a loop, a pass over the rest of the file per chunk, or a loop over an announced count is invisible in a few small files.",
 [L,B+'file.rs',B+'palette.rs',B+'chunk.rs',CH+'user_data.rs'],
 [("one pass over the chunks","src/binary/file.rs parse_file"),("images found by frame and layer","src/loader/mod.rs load, image_map"),("counts end with the data","src/binary/scalars.rs, src/binary/chunks/"),("one image decoded at a time","src/loader/mod.rs decode_image")],
 ["AsepriteFile::load","binary::file::parse_file","binary::raw_file::parse_raw_file","AsepriteFile::load_image","AsepriteFile::render_frame","AsepriteFile::select_layers_by_name"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+"\n")
print(len(P))
