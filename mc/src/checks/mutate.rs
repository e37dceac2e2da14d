//! Drivers of the robustness properties: damaged, hostile and deeply nested input.
use super::image::{indexed_sprite, rgba_sprite, sprite_file};
use super::parse::{late, nest, words, LATE, LATER_AT, LATE_AT};
use super::tier;
use crate::enc::*;
use crate::explore::*;
use crate::gen::*;
use crate::refp;
use crate::{alloc, cmp, ensure, Tier};
use aseprite_loader::binary as x;
use aseprite_loader::loader::{AsepriteFile, LayerSelection};
use std::hint::black_box;
use std::sync::Arc;

type Bases = Arc<Vec<Vec<u8>>>;

/// A small sprite with one layer, one cel and user data with properties.
pub fn tiny() -> Vec<u8> {
    let mut u = vec![];
    u.u32(7).str(b"t").raw(&[1, 2, 3, 4]);
    let mut m = vec![];
    m.u32(0).u32(3);
    m.str(b"a").u16(17).u32(2).u16(3).raw(&[5, 6]);
    m.str(b"b").u16(17).u32(1).u16(0).u16(13).str(b"q");
    m.str(b"c").u16(18).u32(0).u32(1).str(b"d").u16(1).u8(1);
    u.u32(m.len() as u32 + 8).u32(1).raw(&m);
    file(
        &Header { width: 2, height: 1, ..Default::default() },
        &[Frame::new(vec![
            layer(&Layer { name: b"L".to_vec(), ..Default::default() }),
            chunk(USER_DATA, &u),
            cel(&image_cel(0, 0, 0, 1, 1, &[1, 2, 3, 4], true)),
        ])],
    )
}
/// The smallest file with one layer and one cel.
fn minimal() -> Vec<u8> {
    file(
        &Header { width: 1, height: 1, ..Default::default() },
        &[Frame::new(vec![
            layer(&Layer { name: b"L".to_vec(), ..Default::default() }),
            cel(&image_cel(0, 0, 0, 1, 1, &[1, 2, 3, 4], false)),
        ])],
    )
}
fn gray_sprite() -> Vec<u8> {
    file(
        &Header { depth: 16, width: 3, height: 2, ..Default::default() },
        &[
            Frame::new(vec![
                layer(&Layer { blend: 12, ..Default::default() }),
                layer(&Layer { blend: 9, opacity: 100, ..Default::default() }),
                cel(&image_cel(0, -1, 0, 3, 2, &pixels(12, 1), true)),
                cel(&image_cel(1, 1, 1, 2, 1, &pixels(4, 2), false)),
            ]),
            Frame::new(vec![cel(&Cel { layer: 0, content: Content::Link(0), ..Default::default() })]),
        ],
    )
}
/// Layers of every kind, all of them with images.
fn odd_layers() -> Vec<u8> {
    let mut f = vec![];
    for (i, ty) in [0u16, 1, 2, 3, 0].into_iter().enumerate() {
        f.push(layer(&Layer { ty, blend: i as u16 * 4, level: (i % 2) as u16, ..Default::default() }));
    }
    for i in 0..5 {
        f.push(cel(&image_cel(i, i as i16 - 2, 0, 1, 1, &[i as u8 * 50, 9, 8, 200], i % 2 == 1)));
    }
    file(&Header { width: 2, height: 2, ..Default::default() }, &[Frame::new(f)])
}
fn small_palette() -> Vec<u8> {
    file(
        &Header { depth: 8, width: 2, height: 1, transparent: 1, ..Default::default() },
        &[Frame::new(vec![
            old_palette(OLD11, &[(0, 2, vec![[1, 2, 3], [63, 0, 31]]), (1, 1, vec![[4, 5, 6]])]),
            old_palette(OLD04, &[(1, 2, vec![[1, 2, 3], [200, 0, 31]])]),
            palette(3, 1, 2, &[([1, 2, 3, 4], Some(b"n")), ([9, 8, 7, 255], None)]),
            layer(&Layer::default()),
            cel(&image_cel(0, 0, 0, 2, 1, &[1, 2], true)),
        ])],
    )
}
/// Indexed sprites whose only palette is of an old kind.
fn old_only(ty: u16) -> Vec<u8> {
    file(
        &Header { depth: 8, width: 2, height: 1, transparent: 1, ..Default::default() },
        &[
            Frame::new(vec![
                old_palette(ty, &[(0, 2, vec![[1, 2, 3], [63, 0, 31]]), (1, 1, vec![[4, 5, 6]])]),
                layer(&Layer::default()),
                cel(&image_cel(0, 0, 0, 2, 1, &[1, 3], true)),
            ]),
            Frame::new(vec![
                old_palette(ty, &[(3, 2, vec![[7, 7, 7], [8, 8, 8]])]),
                cel(&Cel { content: Content::Link(0), ..Default::default() }),
            ]),
        ],
    )
}
/// Indexed sprite with old palette packets of every extent.
fn packets(c: &mut Ctx) -> Vec<u8> {
    let ty = c.all_of("kind", &[OLD04, OLD11]);
    let n = 1 + c.all("packets", 3);
    let mut ps = vec![];
    for _ in 0..n {
        let skip = c.all_of("skip", &[0u8, 1, 2, 127, 128, 253, 254, 255]);
        let k = c.all_of("colours", &[0u8, 1, 2, 3, 127, 128, 254, 255]);
        let m = if k == 0 { 256 } else { k as usize };
        ps.push((skip, k, (0..m).map(|i| [i as u8 & 63, 2, 3]).collect()));
    }
    file(
        &Header { depth: 8, width: 2, height: 1, transparent: c.all_of("transparent", &[0u8, 255]), ..Default::default() },
        &[Frame::new(vec![
            old_palette(ty, &ps),
            layer(&Layer::default()),
            cel(&image_cel(0, 0, 0, 2, 1, &[0, 255], false)),
        ])],
    )
}
/// Indexed sprite with a palette chunk of every range and entry count.
fn ranges(c: &mut Ctx) -> Vec<u8> {
    let e = [0u32, 1, 2, 127, 254, 255, 256, 257, 0x7fffffff, 0xffffffff];
    let (first, last) = (c.all_of("first", &e), c.all_of("last", &e));
    let size = c.all_of("size", &[0u32, 1, 255, 256, 257, 0xffffffff]);
    let n = c.all_of("entries", &[0usize, 1, 2, 3, 128, 254, 255, 256, 257, 258]);
    let es: Vec<([u8; 4], Option<&[u8]>)> =
        (0..n).map(|i| ([i as u8; 4], if i == 1 { Some(b"n".as_slice()) } else { None })).collect();
    let two = c.all("second chunk", 2) == 1;
    let mut ch = vec![palette(size, first, last, &es)];
    if two {
        ch.push(palette(1, 255, 255, &[([9; 4], None)]));
    }
    ch.push(layer(&Layer::default()));
    ch.push(cel(&image_cel(0, 0, 0, 2, 1, &[0, 255], false)));
    file(&Header { depth: 8, width: 2, height: 1, transparent: 255, ..Default::default() }, &[Frame::new(ch)])
}
/// Small sprites whose cels, links and layer indices point everywhere.
fn dangling(c: &mut Ctx) -> Vec<u8> {
    let nl = c.all("layers", 3);
    let e = [0u16, 1, 2, 3, 255, 256, 32767, 32768, 65534, 65535];
    let mut fs = vec![];
    for f in 0..1 + c.all("frames", 2) {
        let mut ch: Vec<Vec<u8>> = vec![];
        if f == 0 {
            ch.extend((0..nl).map(|_| layer(&Layer::default())));
        }
        for _ in 0..c.all("cels", 2) {
            let l = c.all_of("layer index", &e);
            let content = match c.all("content", 4) {
                0 => image_cel(0, 0, 0, 1, 1, &[1; 4], false).content,
                1 => Content::Link(c.all_of("link", &e)),
                2 => Content::Zlib { w: 1, h: 1, data: zlib(&[1; 4]) },
                _ => Content::Link(0),
            };
            let z = c.all_of("z-index", &[0i16, -1, i16::MIN, i16::MAX]);
            ch.push(cel(&Cel { layer: l, z, content, ..Default::default() }));
        }
        fs.push(Frame::new(ch));
    }
    file(&Header { width: 1, height: 1, ..Default::default() }, &fs)
}
const FIXTURES: [&[u8]; 8] = [
    include_bytes!("../../fixtures/default.aseprite"),
    include_bytes!("../../fixtures/indexed.aseprite"),
    include_bytes!("../../fixtures/layers.aseprite"),
    include_bytes!("../../fixtures/tags.aseprite"),
    include_bytes!("../../fixtures/user_data.aseprite"),
    include_bytes!("../../fixtures/issue_4_1.aseprite"),
    include_bytes!("../../fixtures/issue_4_2.aseprite"),
    include_bytes!("../../fixtures/combine.aseprite"),
];
fn synthetic() -> Bases {
    let mut c = Ctx::plain();
    Arc::new(vec![
        tiny(),
        main_file(&mut c),
        aux_file(&mut c),
        rgba_sprite(),
        gray_sprite(),
        small_palette(),
        odd_layers(),
        old_only(OLD04),
        old_only(OLD11),
    ])
}
fn all_bases() -> Bases {
    let mut v = (*synthetic()).clone();
    v.push(indexed_sprite());
    v.extend(FIXTURES.iter().map(|f| f.to_vec()));
    Arc::new(v)
}

pub const DWORDS: [u32; 12] =
    [0, 1, 2, 3, 5, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffe, 0xffffffff];
pub const WORDS: [u16; 6] = [0, 0xff, 0x100, 0x7fff, 0x8000, 0xffff];

/// One damaged copy of one of the bases.
fn damage(c: &mut Ctx, bases: &Bases) -> Vec<u8> {
    let mut b = bases[c.all("base", bases.len())].clone();
    let n = b.len();
    match c.all("damage", 6) {
        0 => {
            let at = c.all("offset", n);
            b[at] = c.all("byte", 256) as u8;
        }
        1 => b.truncate(c.all("length", n)),
        2 => {
            let at = c.all("offset", n);
            let k = 1 + c.all("deleted bytes", 8);
            b.drain(at..(at + k).min(n));
        }
        3 => {
            let at = c.all("offset", n + 1);
            let k = 1 + c.all("inserted bytes", 4);
            let v = c.all_of("byte", &[0u8, 1, 0x7f, 0xff]);
            b.splice(at..at, std::iter::repeat(v).take(k));
        }
        4 => {
            let at = c.all("offset", n);
            put(&mut b, at, &c.all_of("dword", &DWORDS).to_le_bytes());
        }
        _ => {
            let at = c.all("offset", n);
            put(&mut b, at, &c.all_of("word", &WORDS).to_le_bytes());
        }
    }
    b
}
/// The same, with the sizes of the enclosing chunk and frame kept consistent, so
/// that the parser gets to see the rest of the file.
fn put(b: &mut [u8], at: usize, v: &[u8]) {
    for (i, x) in v.iter().enumerate() {
        if at + i < b.len() {
            b[at + i] = *x;
        }
    }
}
/// Two damaged positions.
fn damage2(c: &mut Ctx, bases: &Bases, bytes: &'static [u8]) -> Vec<u8> {
    let mut b = bases[c.all("base", bases.len())].clone();
    let n = b.len();
    let i = c.all("first offset", n);
    let v = c.all_of("first byte", bytes);
    b[i] = v;
    let j = i + 1 + c.all("second offset", n);
    if j < n {
        b[j] = c.all_of("second byte", bytes);
    }
    b
}

// ---------------------------------------------------------------- C01

/// All entry points; they only have to return, and errors to have a text.
fn survive(b: &[u8]) -> u64 {
    let r = black_box(x::raw_file::parse_raw_file(b)).is_ok();
    let f = black_box(x::file::parse_file(b)).is_ok();
    let l = AsepriteFile::load(b);
    if let Err(e) = &l {
        black_box(e.to_string());
    }
    r as u64 | (f as u64) << 1 | (l.is_ok() as u64) << 2
}
const FAULTS: usize = 24;
/// A sprite whose strings are all the same text, with one of many faults.
fn labelled(c: &mut Ctx) -> Vec<u8> {
    let symbol = c.all_of("symbol", &["a", "\u{e9}", "\u{6f22}", "\u{1f600}", "e\u{301}", "\0", "\n"]);
    let phase = c.all("phase", symbol.len().max(2));
    let n = c.all_of("length", &[0usize, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 610, 4181]);
    let s = "b".repeat(phase) + &symbol.repeat(n);
    let s = s.as_bytes();
    let fault = c.all("fault", FAULTS);
    let mut broken = s.to_vec();
    broken.push(0xff);
    let broken = broken.as_slice();
    let kind = if fault == 1 { c.all("place", STRINGS) } else { STRINGS };
    let mut f0 = vec![];
    let depth = match fault {
        2..=6 => 8,
        7 => 24,
        _ => 32,
    };
    match fault {
        2 => {}
        3 => f0.push(palette(2, 0, 256, &[([1; 4], Some(s)), ([2; 4], Some(s))])),
        4 => f0.push(palette(2, 2, 1, &[([1; 4], Some(s)), ([2; 4], Some(s))])),
        5 => f0.push(old_palette(OLD04, &[(255, 2, vec![[1; 3]; 2])])),
        6 => f0.push(old_palette(OLD04, &[])),
        _ => f0.push(palette(2, 0, 1, &[([1; 4], Some(s)), ([2; 4], Some(s))])),
    }
    let blend = if fault == 8 { 77 } else { 0 };
    let ty = if fault == 9 { 7 } else { 0 };
    f0.push(layer(&Layer { name: s.to_vec(), blend, ty, ..Default::default() }));
    f0.push(user_text(s));
    f0.push(layer(&Layer { name: s.to_vec(), ..Default::default() }));
    f0.push(tags(&[(0, 0, 0, 0, [0; 3], s), (if fault == 10 { 1 } else { 0 }, 0, 9, 0, [0; 3], s)]));
    for k in 2..STRINGS {
        if k != 4 {
            f0.push(string_chunk(k, if k == kind { broken } else { s }));
        }
    }
    if [0, 1, 4].contains(&kind) {
        f0.push(string_chunk(kind, broken));
    }
    // A property tree with the text for every name and string.
    let mut m = vec![];
    m.u32(0).u32(3);
    m.str(s).u16(13).str(s);
    m.str(s).u16(17).u32(2).u16(13).str(s).str(if fault == 11 { broken } else { s });
    m.str(s).u16(if fault == 12 { 99 } else { 18 }).u32(0).u32(1).str(s).u16(1).u8(1);
    let mut u = vec![];
    u.u32(5).str(s).u32(m.len() as u32 + if fault == 13 { 7 } else { 8 }).u32(1).raw(&m);
    f0.push(slice(s, if fault == 14 { 1 << 20 } else { 1 }));
    f0.push(chunk(USER_DATA, &u));
    f0.push(cel(&image_cel(0, 0, 0, 1, 1, &pixels(4, 1), false)));
    f0.push(cel(&match fault {
        15 => Cel { layer: 1, content: Content::Zlib { w: 1, h: 1, data: b"junk".to_vec() }, ..Default::default() },
        16 => image_cel(2, 0, 0, 1, 1, &[1; 4], true),
        17 => Cel { layer: 1, content: Content::Unknown { ty: 9, data: s.to_vec() }, ..Default::default() },
        18 => Cel { layer: 1, content: Content::Link(9), ..Default::default() },
        19 => Cel { layer: 1, content: Content::Link(1), ..Default::default() },
        _ => image_cel(1, 0, 0, 1, 1, &pixels(4, 2), true),
    }));
    if fault == 20 {
        let mut ch = string_chunk(0, s);
        put(&mut ch, 0, &5u32.to_le_bytes());
        f0.push(ch);
    }
    let mut b = file(&Header { depth, width: 1, height: 1, ..Default::default() }, &[Frame::new(f0), Frame::new(vec![user_text(s)])]);
    match fault {
        21 => b.truncate(b.len() - 1),
        22 => b.extend_from_slice(s),
        23 => {
            // The magic number of the second frame
            let at = b.len() - (16 + user_text(s).len()) + 4;
            b[at] ^= 1;
        }
        _ => {}
    }
    b
}
#[cfg(not(feature = "inner"))]
fn parsers(b: &[u8]) -> u64 {
    survive(b)
}
/// Every public parser on one piece of input.
#[cfg(feature = "inner")]
fn parsers(b: &[u8]) -> u64 {
    use x::chunks as k;
    let mut h = 0u64;
    macro_rules! run { ($($p:expr),* $(,)?) => {{ $( h = h << 1 ^ h >> 61 ^ black_box($p(b)).is_ok() as u64; )* }} }
    run!(
        x::raw_file::parse_raw_file,
        x::file::parse_file,
        x::header::parse_header,
        x::raw_frame::parse_frames,
        x::raw_frame::parse_rawframe,
        x::chunk::parse_chunk,
        x::chunk_type::parse_chunk_type,
        x::color_depth::parse_color_depth,
        x::blend_mode::parse_blend_mode,
        x::scalars::parse_point,
        x::scalars::parse_size,
        x::scalars::parse_rect,
        x::scalars::parse_dword_as_usize,
        x::scalars::parse_string,
        x::scalars::parse_uuid,
        x::scalars::parse_color,
        x::scalars::parse_rgb,
        k::cel::parse_cel_chunk,
        k::cel_extra::parse_cel_extra_chunk,
        k::color_profile::parse_color_profile,
        k::external_files::parse_external_files_chunk,
        k::layer::parse_layer_chunk,
        k::mask::parse_mask_chunk,
        k::old_palette::parse_old_palette_chunk,
        k::palette::parse_palette_chunk,
        k::slice::parse_slice_chunk,
        k::slice::parse_nine_patch,
        k::slice::parse_pivot,
        k::tags::parse_tags_chunk,
        k::tileset::parse_tileset_chunk,
        k::tileset::parse_tiles,
        k::user_data::parse_user_data_chunk,
        k::user_data::parse_properties_maps,
        k::user_data::parse_properties_map,
        k::user_data::parse_property,
        k::user_data::parse_value,
        k::user_data::parse_vector,
    );
    for n in [0usize, 1, 3, usize::MAX] {
        h = h << 1 ^ black_box(x::chunk::parse_chunks(b, n)).is_ok() as u64;
    }
    h
}
/// User data with one property block that nests `depth` levels.
fn nested(word: &[usize], depth: usize) -> Vec<u8> {
    let m = nest(word, depth);
    let mut u = vec![];
    u.u32(4).u32(m.len() as u32 + 8).u32(1).raw(&m);
    file(&Header::default(), &[Frame::new(vec![layer(&Layer::default()), chunk(USER_DATA, &u)])])
}

/// Very many minimal frames, chunks, layers, cels, tags or properties.
fn crowded(c: &mut Ctx, numbers: &[usize]) -> Vec<u8> {
    let n = c.all_of("number", numbers);
    match c.all("kind", 10) {
        0 => file(&Header::default(), &vec![Frame::new(vec![]); n]),
        1 => file(&Header::default(), &[Frame::new(vec![chunk(PATH, &[]); n])]),
        2 => file(&Header::default(), &[Frame::new(vec![layer(&Layer { name: vec![], ..Default::default() }); n])]),
        3 => {
            let mut ch = vec![layer(&Layer::default())];
            ch.extend(vec![cel(&Cel { content: Content::Link(0), ..Default::default() }); n]);
            file(&Header::default(), &[Frame::new(ch)])
        }
        4 => {
            let l: Vec<(u16, u16, u8, u16, [u8; 3], &[u8])> = vec![(0, 0, 0, 0, [0; 3], b""); n];
            file(&Header::default(), &[Frame::new(vec![tags(&l)])])
        }
        5 => {
            let mut m = vec![];
            m.u32(0).u32(n as u32);
            for _ in 0..n {
                m.str(b"").u16(1).u8(1);
            }
            let mut u = vec![];
            u.u32(4).u32(8 + m.len() as u32).u32(1).raw(&m);
            file(&Header::default(), &[Frame::new(vec![layer(&Layer::default()), chunk(USER_DATA, &u)])])
        }
        6 => {
            let k = n.min(1000);
            let mut m = vec![];
            m.u32(0).u32(1).str(b"").u16(17).u32(k as u32).u16(17);
            for _ in 0..k {
                m.u32(1).u16(3).u8(1);
            }
            let mut u = vec![];
            u.u32(4).u32(8 + m.len() as u32).u32(1).raw(&m);
            file(&Header::default(), &[Frame::new(vec![layer(&Layer::default()), chunk(USER_DATA, &u)])])
        }
        7 => {
            let ty = c.all_of("chunk", &[LAYER, CEL, CEL_EXTRA, COLOR_PROFILE, EXTERNAL, MASK, TAGS, OLD04, OLD11, PALETTE, USER_DATA, SLICE, TILESET, 0x3333]);
            let body = [0u8; 64];
            let ch: Vec<Vec<u8>> = vec![chunk(ty, &body); n];
            let mut f0 = vec![layer(&Layer::default())];
            f0.extend(ch);
            file(&Header::default(), &[Frame::new(f0)])
        }
        8 => {
            // Groups in groups, and a layer behind them all.
            let n = n.min(65_536);
            let mut f0: Vec<Vec<u8>> = (0..n - 1)
                .map(|i| layer(&Layer { ty: 1, level: i as u16, name: vec![], flags: 2 | (i % 3 > 0) as u16, ..Default::default() }))
                .collect();
            f0.push(layer(&Layer { level: 0, ..Default::default() }));
            f0.push(cel(&image_cel((n - 1) as u16, 0, 0, 1, 1, &[1; 4], false)));
            file(&Header::default(), &[Frame::new(f0)])
        }
        _ => {
            let k = n.min(400);
            let mut f0: Vec<Vec<u8>> = vec![layer(&Layer::default()); k];
            f0.extend((0..k).map(|i| cel(&image_cel(i as u16, 0, 0, 1, 1, &[1; 4], false))));
            let mut fs = vec![Frame::new(f0)];
            fs.extend(vec![Frame::new(vec![]); k]);
            file(&Header::default(), &fs)
        }
    }
}
pub fn c01(t: Tier) -> Vec<Driver> {
    let b1 = if t == Tier::Quick { synthetic() } else { all_bases() };
    let pair_bases: Bases = Arc::new(if t == Tier::Quick { vec![minimal()] } else { vec![minimal(), tiny(), small_palette()] });
    let deepest = tier(t, 300_000usize, 3_000_000);
    let alpha_len = tier(t, 5usize, 6);
    vec![
        Driver::new("many", 0, "very many minimal frames, chunks of one kind, layers, cels, tags or properties on a 2 MiB stack", move |c| {
            let b = crowded(c, if t == Tier::Quick { &[65_600] } else { &[65_600, 1_000_000] });
            c.input(&b[..b.len().min(4096)]);
            Ok(survive(&b))
        })
        .stack(2 << 20),
        Driver::new("names", 0, "common and odd names of many lengths in every place a string can be", |c| {
            let b = super::parse::named(c);
            c.input(&b);
            Ok(survive(&b))
        }),
        Driver::new("labelled", 0, "sprites full of one text (symbol x phase x length) with every kind of fault", |c| {
            let b = labelled(c);
            c.input(&b);
            Ok(survive(&b))
        }),
        Driver::new("late", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            c.input(&b);
            Ok(survive(&b))
        }),
        Driver::new("later", 0, "more than 65532 items of one kind followed by one of 48 others, sound or faulty", move |c| {
            let (b, _) = late(c, if t == Tier::Quick { &LATER_AT[2..4] } else { &LATER_AT }, LATE, 1);
            c.input(&b[b.len().saturating_sub(4096)..]);
            Ok(survive(&b))
        }),
        Driver::new("blobs", 0, "data of every pattern and many lengths in every place data can be", |c| {
            let b = super::parse::blobs(c);
            c.input(&b);
            Ok(survive(&b))
        }),
        Driver::new(
            "damage",
            0,
            "valid files with every byte replaced by every value, truncated, shortened, extended, and hostile words and dwords at every offset",
            move |c| {
                let b = damage(c, &b1);
                c.input(&b);
                Ok(survive(&b))
            },
        ),
        Driver::new("pairs", 0, "every pair of bytes of a small file replaced by boundary values", move |c| {
            let b = damage2(c, &pair_bases, &[0, 1, 2, 3, 4, 0x7f, 0x80, 0xfe, 0xff]);
            c.input(&b);
            Ok(survive(&b))
        }),
        Driver::new("fields", tier(t, 2, 3), "every field of header, frames, layers and cels, boundary values", |c| {
            let b = main_file(c);
            c.input(&b);
            Ok(survive(&b))
        }),
        Driver::new("aux-fields", tier(t, 1, 2), "every field of tags, slices, palettes and auxiliary chunks, all 8/16-bit values", |c| {
            let b = aux_file(c);
            c.input(&b);
            Ok(survive(&b))
        })
        .wide(),
        Driver::new("tags-slices", 2, "pairs of fields of tags and slices", |c| {
            let b = aux_file(c);
            c.input(&b);
            Ok(survive(&b))
        })
        .live(TAGSG | SLICES),
        Driver::new("palette-fields", 2, "pairs of fields of new and old palettes", |c| {
            let b = aux_file(c);
            c.input(&b);
            Ok(survive(&b))
        })
        .live(PAL | OLDPAL),
        Driver::new("packets", 0, "indexed sprites with up to three old palette packets of every extent", |c| {
            let b = packets(c);
            c.input(&b);
            Ok(survive(&b))
        }),
        Driver::new("ranges", 0, "indexed sprites with palette chunks of every range, size and number of entries", |c| {
            let b = ranges(c);
            c.input(&b);
            Ok(survive(&b))
        }),
        Driver::new("dangling", 0, "cels, links and z-indices pointing everywhere in sprites of up to two layers and frames", |c| {
            let b = dangling(c);
            c.input(&b);
            Ok(survive(&b))
        }),
        Driver::new("short", 0, "every byte string of up to two bytes, for every public parser", |c| {
            let n = c.all("length", 3);
            let b: Vec<u8> = (0..n).map(|_| c.all("byte", 256) as u8).collect();
            c.input(&b);
            Ok(parsers(&b))
        }),
        Driver::new("alphabet", 0, "every byte string over a boundary alphabet, for every public parser", move |c| {
            let n = 3 + c.all("length", alpha_len - 2);
            let b: Vec<u8> =
                (0..n).map(|_| c.all_of("byte", &[0u8, 1, 2, 4, 7, 0x11, 0x12, 0xff])).collect();
            c.input(&b);
            Ok(parsers(&b))
        }),
        Driver::new("patterns", 0, "patterned strings of every length up to 300, with hostile leading fields, for every public parser", |c| {
            let n = c.all("length", 301);
            let f = c.all_of("fill", &[0u8, 1, 2, 0x11, 0x12, 0x80, 0xff]);
            let mut b = vec![f; n];
            let at = c.all_of("offset", &[0usize, 1, 2, 4, 6, 8]);
            put(&mut b, at, &c.all_of("dword", &DWORDS).to_le_bytes());
            c.input(&b);
            Ok(parsers(&b))
        }),
        Driver::new("chunk-soup", 0, "every chunk type with bodies of every length, wrong declared sizes and hostile leading fields", |c| {
            let ty = c.all_of(
                "type",
                &[LAYER, CEL, CEL_EXTRA, COLOR_PROFILE, EXTERNAL, MASK, PATH, TAGS, PALETTE, USER_DATA, SLICE, TILESET, OLD04, OLD11, 0, 0xffff],
            );
            let n = c.all("body length", 64);
            let mut body: Vec<u8> = match c.all("fill", 4) {
                0 => vec![0; n],
                1 => vec![0xff; n],
                2 => vec![1; n],
                _ => (0..n).map(|i| i as u8).collect(),
            };
            match c.all("field", 4) {
                0 => {}
                1 => put(&mut body, 0, &c.all_of("dword", &DWORDS).to_le_bytes()),
                2 => put(&mut body, 4, &c.all_of("dword", &DWORDS).to_le_bytes()),
                _ => put(&mut body, 0, &c.all_of("word", &[1u16, 2, 3, 4, 255, 256, 65535]).to_le_bytes()),
            }
            let mut ch = chunk(ty, &body);
            if let Some(s) = c.all_of("size field", &[None, Some(0u32), Some(3), Some(4), Some(5), Some(6), Some(7), Some(n as u32 + 5), Some(n as u32 + 7), Some(u32::MAX)]) {
                put(&mut ch, 0, &s.to_le_bytes());
            }
            let depth = c.all_of("depth", &[32u16, 8]);
            let b = file(&Header { depth, ..Default::default() }, &[Frame::new(vec![layer(&Layer::default()), ch])]);
            c.input(&b);
            Ok(survive(&b))
        }),
        Driver::new("nesting", 0, "property containers nested in every pattern of period up to three, up to very deep, on a 2 MB stack", move |c| {
            let ws = words();
            let w = &ws[c.all("word", ws.len())];
            let d = c.all_of("depth", &[33usize, 64, 65, 100, 1000, 10_000, 100_000, deepest]);
            let b = nested(w, d);
            c.input(&b[..b.len().min(4096)]);
            c.state = hash(&[d as u8, (d >> 8) as u8, (d >> 16) as u8]) ^ w.iter().fold(7, |a, x| a * 5 + *x as u64);
            let r = survive(&b);
            // The same bytes through the property parsers directly.
            let m = nest(w, d);
            #[cfg(feature = "inner")]
            {
                let _ = black_box(x::chunks::user_data::parse_properties_map(&m));
                let _ = black_box(x::chunks::user_data::parse_value(&m[11..]));
                let _ = black_box(x::chunks::user_data::parse_vector(&m[13..]));
            }
            let _ = &m;
            Ok(r)
        })
        .stack(2 << 20),
    ]
}

// ---------------------------------------------------------------- C02

const AREA: usize = 1 << 16;
/// Decode every image and render every frame of whatever loads; no oracle but survival.
fn use_all(c: &mut Ctx, b: &[u8]) -> Res {
    use_up_to(c, b, AREA)
}
#[allow(deprecated)]
fn use_up_to(c: &mut Ctx, b: &[u8], most: usize) -> Res {
    c.input(b);
    let Ok(f) = AsepriteFile::load(b) else { return Ok(0) };
    c.count("sprites loaded", 1);
    let mut h = 1u64;
    let mut buf = vec![0x77u8; most * 4 + 9];
    for i in 0..f.image_count() {
        let area = f.images[i].width as usize * f.images[i].height as usize;
        for len in [0, 3, 4, area.min(most) * 4, area.min(most) * 4 + 9] {
            h = h << 1 ^ h >> 60 ^ f.load_image(i, &mut buf[..len]).is_ok() as u64;
            c.count("images decoded", 1);
        }
    }
    let (w, hh) = f.size();
    let area = w as usize * hh as usize;
    let n = f.layers().len();
    let sels = [
        LayerSelection::Visible,
        LayerSelection::All,
        LayerSelection::Mask(vec![]),
        LayerSelection::Mask((0..n + 3).map(|i| i % 2 == 0).collect()),
        LayerSelection::Mask((0..n / 2).map(|i| i % 2 == 1).collect()),
        f.select_layers(|l| l.opacity > 3),
        f.select_layers_by_name(&["L0", "Layer", ""]),
    ];
    for (i, fr) in f.frames().iter().enumerate() {
        // A canvas that is too large for the buffer is refused before anything else.
        let cels = fr.cels.iter().all(|k| k.size.0 as usize * k.size.1 as usize <= most);
        if area > most {
            h = h << 1 ^ f.render_frame(i, &mut buf, &LayerSelection::All).is_ok() as u64;
        } else if cels {
            for s in &sels {
                h = h << 1 ^ h >> 60 ^ f.render_frame(i, &mut buf[..area * 4], s).is_ok() as u64;
                c.count("frames rendered", 1);
            }
            h = h << 1 ^ f.combined_frame_image(i, &mut buf).is_ok() as u64;
        }
    }
    Ok(h)
}
pub fn c02(t: Tier) -> Vec<Driver> {
    let b1 = if t == Tier::Quick {
        let mut v = (*synthetic()).clone();
        v.push(FIXTURES[0].to_vec());
        v.push(FIXTURES[2].to_vec());
        Arc::new(v)
    } else {
        all_bases()
    };
    vec![
        Driver::new("factors", 0, "every combination of depth, palette, compression, link, flags, group, mode, opacities, z-index, place and size of a cel", |c| {
            let b = super::render::factors(c);
            use_all(c, &b)
        }),
        Driver::new("fields", tier(t, 2, 3), "every field of a loadable sprite", |c| {
            let b = sprite_file(c);
            use_all(c, &b)
        })
        .live(HEADER | LAYERS | CELS),
        Driver::new("fields-wide", 1, "every field of a loadable sprite, all 8/16-bit values", |c| {
            let b = sprite_file(c);
            use_all(c, &b)
        })
        .wide()
        .live(HEADER | LAYERS | CELS),
        Driver::new("damage", 0, "valid files with every byte replaced by every value and other damage", move |c| {
            let b = damage(c, &b1);
            use_all(c, &b)
        }),
        Driver::new("packets", 0, "indexed sprites with up to three old palette packets of every extent", |c| {
            let b = packets(c);
            use_all(c, &b)
        }),
        Driver::new("labelled", 0, "sprites full of one text (symbol x phase x length) with every kind of fault", |c| {
            let b = labelled(c);
            use_all(c, &b)
        }),
        Driver::new("ranges", 0, "indexed sprites with palette chunks of every range, size and number of entries", |c| {
            let b = ranges(c);
            use_all(c, &b)
        }),
        Driver::new("dangling", 0, "cels, links and z-indices pointing everywhere in sprites of up to two layers and frames", |c| {
            let b = dangling(c);
            use_all(c, &b)
        }),
        Driver::new("pixel-data", 0, "every pixel data of up to two bytes, patterned longer ones, all depths and encodings, small and huge sizes", |c| {
            let depth = c.all_of("depth", &[32u16, 16, 8, 24, 0]);
            let z = c.all("compressed", 2) == 1;
            let w = c.all_of("width", &[0u16, 1, 2, 65535]);
            let h = c.all_of("height", &[0u16, 1, 65535]);
            let data = match c.all("data", 4) {
                0 => {
                    let n = c.all("length", 2);
                    (0..n).map(|_| c.all("byte", 256) as u8).collect::<Vec<_>>()
                }
                1 => vec![0x78, c.all("header", 256) as u8],
                2 => {
                    let mut v = vec![0x78, 0x01];
                    for _ in 0..3 {
                        v.push(c.all_of("byte", &[0u8, 1, 2, 3, 4, 5, 6, 0x63, 0x80, 0xff]));
                    }
                    v
                }
                _ => {
                    let n = c.all("length", 20);
                    if z {
                        let v = zlib(&pixels(n, 1));
                        v[..v.len() - c.all_of("cut", &[0usize, 1, 4, 5])].to_vec()
                    } else {
                        pixels(n, 3)
                    }
                }
            };
            let content = if z { Content::Zlib { w, h, data } } else { Content::Raw { w, h, data } };
            let blend = c.all_of("blend", &[0u16, 12]);
            let b = file(
                &Header { depth, width: 2, height: 2, ..Default::default() },
                &[Frame::new(vec![
                    std_palette(),
                    layer(&Layer { blend, ..Default::default() }),
                    cel(&Cel { content, ..Default::default() }),
                ])],
            );
            use_all(c, &b)
        }),
        Driver::new("blend", 0, "every blend mode value over opaque, translucent and transparent backdrops with extreme colours", |c| {
            let blend = c.all("blend", 300) as u16;
            let blend = if blend < 280 { blend } else { 65535 - (blend - 280) };
            let px = |c: &mut Ctx, l| -> [u8; 4] {
                c.all_of(l, &[[0; 4], [255; 4], [0, 0, 0, 255], [255, 0, 1, 128], [1, 254, 127, 1], [128, 128, 128, 255], [255, 255, 255, 1], [0, 255, 0, 254]])
            };
            let (p, q) = (px(c, "backdrop"), px(c, "source"));
            let op = c.all_of("opacity", &[0u8, 1, 127, 255]);
            let b = file(
                &Header { width: 1, height: 1, ..Default::default() },
                &[Frame::new(vec![
                    layer(&Layer::default()),
                    layer(&Layer { blend, opacity: op, ..Default::default() }),
                    cel(&image_cel(0, 0, 0, 1, 1, &p, false)),
                    cel(&image_cel(1, 0, 0, 1, 1, &q, false)),
                ])],
            );
            use_all(c, &b)
        }),
        Driver::new("extents", 0, "canvases and cels of every extent up to 24 (thorough: 48) in one direction, every origin", move |c| {
            let top = tier(t, 24usize, 48);
            let (n, m) = (c.all("extent", top + 1) as i16, c.all("cel extent", top + 1) as i16);
            let x = c.all("origin", (n + m + 3) as usize) as i16 - m - 1;
            let column = c.all("direction", 2) == 1;
            let (depth, z) = [(32u16, false), (16, true), (8, false), (32, true)][(n + m + x).rem_euclid(4) as usize];
            let sw = |a: i16, b: i16| if column { (b, a) } else { (a, b) };
            let ((w, h), (cw, ch), (ox, oy)) = (sw(n, 2), sw(m, 2), sw(x, -1));
            let px = vec![77; cw as usize * ch as usize * depth as usize / 8];
            let b = file(
                &Header { depth, width: w as u16, height: h as u16, ..Default::default() },
                &[Frame::new(vec![
                    std_palette(),
                    layer(&Layer::default()),
                    cel(&image_cel(0, ox, oy, cw as u16, ch as u16, &px, z)),
                ])],
            );
            use_all(c, &b)
        }),
        Driver::new("geometry", 0, "cels of all extreme origins and sizes on canvases of extreme sizes", |c| {
            let e = [i16::MIN, i16::MIN + 1, -2, -1, 0, 1, 2, i16::MAX - 1, i16::MAX];
            let (ox, oy) = (c.all_of("x", &e), c.all_of("y", &e));
            let s = [(0u16, 0u16), (1, 1), (3, 2), (1, 65535), (65535, 1), (0, 65535), (65535, 0)];
            let (w, h) = c.all_of("cel size", &s);
            let (cw, ch) = c.all_of("canvas size", &s);
            let z = c.all("compressed", 2) == 1;
            let b = file(
                &Header { width: cw, height: ch, ..Default::default() },
                &[Frame::new(vec![
                    layer(&Layer::default()),
                    cel(&image_cel(0, ox, oy, w, h, &vec![200; w as usize * h as usize * 4], z)),
                ])],
            );
            use_all(c, &b)
        }),
        Driver::new("large", 0, "cels and canvases of more than 2^16 pixels x depth x encoding x origin", |c| {
            let s = [(255u16, 256u16), (256, 256), (257, 256), (256, 257), (300, 300), (65535, 2), (2, 65535)];
            let ((w, h), (cw, ch)) = (c.all_of("cel size", &s), c.all_of("canvas size", &s));
            let at = [-256i16, -1, 0, 1, 44];
            let (ox, oy) = (c.all_of("x", &at), c.all_of("y", &at));
            let (depth, z) = if ox == oy { (c.all_of("depth", &[32u16, 16, 8]), c.all("compressed", 2) == 1) } else { (32, false) };
            let b = file(
                &Header { width: cw, height: ch, depth, ..Default::default() },
                &[Frame::new(vec![
                    std_palette(),
                    layer(&Layer::default()),
                    cel(&image_cel(0, ox, oy, w, h, &vec![200; w as usize * h as usize * depth as usize / 8], z)),
                ])],
            );
            use_up_to(c, &b, 1 << 17)
        }),
    ]
}

// ---------------------------------------------------------------- C06

fn decide(c: &mut Ctx, b: &[u8]) -> Res {
    c.input(b);
    let r = cmp::raw(b)?;
    let f = cmp::file(b)?;
    let l = cmp::load(b)?;
    c.count(if r.is_ok() { "accepted as raw file" } else { "rejected" }, 1);
    if let Ok(l) = &l {
        c.count("loaded", 1);
        cmp::images(l, 0, 0x33)?;
    }
    Ok(super::parse::outcome(&r) ^ super::parse::outcome(&f).rotate_left(1) ^ l.is_ok() as u64)
}
const BAD_UTF8: [&[u8]; 14] = [
    b"\xff",
    b"\xfe",
    b"\x80",
    b"\xbf",
    b"\xc0\x80",
    b"\xc1\xbf",
    b"\xc2",
    b"\xe0\x80\x80",
    b"\xe2\x82",
    b"\xed\xa0\x80",
    b"\xed\xbf\xbf",
    b"\xf0\x80\x80\x80",
    b"\xf4\x90\x80\x80",
    b"\xf5\x80\x80\x80",
];
pub const STRINGS: usize = 8;
/// A chunk of a kind that holds a string.
pub fn string_chunk(kind: usize, s: &[u8]) -> Vec<u8> {
    match kind {
        0 => layer(&Layer { name: s.to_vec(), ..Default::default() }),
        1 => tags(&[(0, 0, 0, 0, [0; 3], b"ok"), (0, 0, 0, 0, [0; 3], s)]),
        2 => slice(s, 1),
        3 => user_text(s),
        4 => palette(2, 0, 1, &[([1, 2, 3, 4], Some(b"ok")), ([1, 2, 3, 4], Some(s))]),
        5 => {
            let mut v = vec![];
            v.u32(2).fill(8, 0);
            for n in [b"ok".as_slice(), s] {
                v.u32(1).u8(0).fill(7, 0).str(n);
            }
            chunk(EXTERNAL, &v)
        }
        6 => {
            let mut v = vec![];
            v.i16(0).i16(0).u16(1).u16(1).fill(8, 0).str(s).u8(1);
            chunk(MASK, &v)
        }
        _ => {
            let mut v = vec![];
            v.u32(1).u32(4).u32(0).u16(1).u16(1).i16(0).fill(14, 0).str(s);
            chunk(TILESET, &v)
        }
    }
}
/// `bad` inside otherwise valid text.
pub fn spoiled(c: &mut Ctx) -> Vec<u8> {
    let bad = BAD_UTF8[c.all("invalid sequence", BAD_UTF8.len())];
    let mut s = vec![];
    let at = c.all("position", 3);
    if at > 0 {
        s.extend_from_slice("h\u{e9}".as_bytes());
    }
    s.extend_from_slice(bad);
    if at < 2 {
        s.extend_from_slice(b"xyz");
    }
    s
}
pub fn c06(t: Tier) -> Vec<Driver> {
    let b1 = if t == Tier::Quick {
        let mut v = (*synthetic()).clone();
        v.push(FIXTURES[3].to_vec());
        v.push(FIXTURES[4].to_vec());
        Arc::new(v)
    } else {
        all_bases()
    };
    let pair_bases: Bases = Arc::new(if t == Tier::Quick { vec![minimal()] } else { vec![minimal(), tiny(), small_palette()] });
    vec![
        Driver::new("mixture", 0, "every combination of the kinds of the parts of a file and of what follows them", |c| {
            let b = super::parse::mixture(c);
            decide(c, &b)
        }),
        Driver::new("names", 0, "common and odd names of many lengths in every place a string can be", |c| {
            let b = super::parse::named(c);
            decide(c, &b)
        }),
        Driver::new("blobs", 0, "data of every pattern and many lengths in every place data can be", |c| {
            let b = super::parse::blobs(c);
            decide(c, &b)
        }),
        Driver::new(
            "damage",
            0,
            "valid files with every byte replaced by every value, truncated, shortened, extended, and hostile words and dwords at every offset",
            move |c| {
                let b = damage(c, &b1);
                decide(c, &b)
            },
        ),
        Driver::new("pairs", 0, "every pair of bytes of a small file replaced by boundary values", move |c| {
            let b = damage2(c, &pair_bases, &[0, 1, 4, 0x7f, 0x80, 0xff]);
            decide(c, &b)
        }),
        Driver::new("late", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            decide(c, &b)
        }),
        Driver::new("later", 0, "more than 65532 items of one kind followed by one of 48 others, sound or faulty", move |c| {
            let (b, _) = late(c, if t == Tier::Quick { &LATER_AT[3..4] } else { &LATER_AT }, LATE, 1);
            decide(c, &b)
        }),
        Driver::new("utf8", 0, "invalid UTF-8 of every kind in every string field, in either frame", |c| {
            let k = c.all("string", STRINGS);
            let s = spoiled(c);
            let mut fs = vec![
                Frame::new(vec![layer(&Layer::default())]),
                Frame::new(vec![cel(&image_cel(0, 0, 0, 1, 1, &[1, 2, 3, 4], false))]),
            ];
            let f = c.all("frame", 2);
            fs[f].chunks.push(string_chunk(k, &s));
            let b = file(&Header { width: 1, height: 1, ..Default::default() }, &fs);
            ensure!(matches!(refp::raw(&b), Err(refp::RErr::Utf8)), "model error");
            decide(c, &b)
        }),
        Driver::new("utf8-valid", 0, "every Unicode scalar boundary and every two-byte string, in every string field", |c| {
            let k = c.all("string", STRINGS);
            let s: Vec<u8> = if c.all("kind", 2) == 0 {
                vec![c.all("byte", 256) as u8, c.all("byte", 256) as u8]
            } else {
                let ch = c.all_of(
                    "character",
                    &['\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10ffff}'],
                );
                ch.to_string().into_bytes()
            };
            let b = file(
                &Header { width: 1, height: 1, ..Default::default() },
                &[Frame::new(vec![layer(&Layer::default()), string_chunk(k, &s)])],
            );
            decide(c, &b)
        }),
        Driver::new("frames", 0, "frame and chunk sizes and counts around their true values, trailing bytes after the last frame", |c| {
            let mut fs = vec![];
            let nf = 1 + c.all("frames", 2);
            for _ in 0..nf {
                let ch: Vec<Vec<u8>> = match c.all("chunks", 3) {
                    0 => vec![],
                    1 => vec![slice(b"s", 1)],
                    _ => vec![slice(b"s", 0), chunk(0x7777, b"??")],
                };
                let n = ch.len() as u32;
                let (old, new) = c.all_of(
                    "counts",
                    &[(n, n), (n, 0), (0, n), (n + 1, 0), (0, n + 1), (n.saturating_sub(1), 0), (0xffff, n), (0xffff, 0)],
                );
                let mut f = frame_raw(old as u16, new, 100, [0, 0], &ch.concat());
                let len = f.len() as i64;
                let d = c.all_of("size delta", &[0i64, -1, 1, -2, 2, 4, -4, -6, 16, -16]);
                put(&mut f, 0, &((len + d).max(0) as u32).to_le_bytes());
                if c.all("magic", 2) == 1 {
                    f[4] ^= 1;
                }
                fs.push(f);
            }
            let mut b = file_raw(&Header { width: 1, height: 1, ..Default::default() }, &fs);
            let k = c.all_of("trailing bytes", &[0usize, 1, 2, 3, 4, 15, 16]);
            b.fill(k, 0);
            decide(c, &b)
        }),
    ]
}

// ---------------------------------------------------------------- C23

/// Memory bound: a multiple of the input, the dense cel table, a fixed allowance.
fn bounded(c: &mut Ctx, b: &[u8], levels: usize) -> Res {
    c.input(b);
    const K: usize = 128;
    let slot = 256;
    // One slot per layer in every frame.
    let table = match refp::raw(b) {
        Ok(r) => {
            let l = r.frames.iter().flat_map(|f| &f.chunks).filter(|k| matches!(k, refp::RChunk::Layer(_))).count();
            l * r.frames.len() * slot
        }
        Err(_) => 0,
    };
    let limit = K * b.len() + table + (160 << 10) + levels * (66 << 10);
    let mut worst = 0;
    for which in 0..3 {
        let (_, p) = alloc::peak(|| match which {
            0 => {
                let _ = black_box(x::raw_file::parse_raw_file(b));
            }
            1 => {
                let _ = black_box(x::file::parse_file(b));
            }
            _ => {
                let _ = black_box(AsepriteFile::load(b));
            }
        });
        ensure!(
            p <= limit,
            "{} allocates {p} bytes for an input of {} bytes (limit {limit})",
            ["parse_raw_file", "parse_file", "load"][which],
            b.len()
        );
        worst = worst.max(p);
    }
    c.count("bytes allocated at the peaks (sum)", worst as u64);
    Ok((worst / 4096) as u64)
}
pub fn c23(t: Tier) -> Vec<Driver> {
    hostile(t, bounded)
}
/// Files that announce more than they hold, and files that hold a lot; `judge` is given
/// the nesting depth as well.
pub fn hostile(t: Tier, judge: fn(&mut Ctx, &[u8], usize) -> Res) -> Vec<Driver> {
    let b1 = if t == Tier::Quick { synthetic() } else { all_bases() };
    vec![
        Driver::new("damage", 0, "hostile words and dwords at every offset of valid files, every byte value, truncation", move |c| {
            let b = damage(c, &b1);
            judge(c, &b, 4)
        }),
        Driver::new("pairs", 0, "pairs of hostile dwords (for example a size and a count) at all offsets of a small file", move |c| {
            let mut b = tiny();
            let n = b.len();
            let i = 128 + c.all("first offset", n - 128);
            put(&mut b, i, &c.all_of("first dword", &[0x00ffffffu32, 0x7fffffff, 0xffffffff]).to_le_bytes());
            let j = i + 2 + c.all("second offset", 24);
            put(&mut b, j, &c.all_of("second dword", &[0x00ffffffu32, 0x7fffffff, 0xffffffff, 0]).to_le_bytes());
            judge(c, &b, 4)
        }),
        Driver::new("counts", 0, "every count field of every chunk kind announcing far more than there is", move |c| {
            let n = c.all_of("count", &[100u32, 1000, 0xffff, 0x10000, 0x00ffffff, 0x7fffffff, 0xffffffff]);
            let have = c.all_of("present", &[0usize, 1, 7, 40]);
            let mut v = vec![];
            let ty = match c.all("field", 12) {
                0 => {
                    v.u16(n.min(0xffff) as u16).fill(8, 0);
                    for _ in 0..have {
                        v.fill(17, 0).str(b"t");
                    }
                    TAGS
                }
                1 => {
                    v.u32(n).u32(0).u32(0).str(b"s").fill(20 * have, 0);
                    SLICE
                }
                2 => {
                    v.u32(n).u32(0).u32(255).fill(8, 0).fill(6 * have, 0);
                    PALETTE
                }
                3 => {
                    v.u32(n).fill(8, 0);
                    for _ in 0..have {
                        v.u32(1).fill(8, 0).str(b"");
                    }
                    EXTERNAL
                }
                4 => {
                    v.u16(n.min(0xffff) as u16);
                    for _ in 0..have {
                        v.raw(&[0, 1, 9, 9, 9]);
                    }
                    OLD04
                }
                5 => {
                    v.u16(2).u16(0).u32(0).fill(8, 0).u32(n).fill(have, 1);
                    COLOR_PROFILE
                }
                6 => {
                    v.u32(1).u32(2).u32(n).u16(9999).u16(9999).i16(0).fill(14, 0).str(b"").u32(n).fill(have, 1);
                    TILESET
                }
                7 => {
                    v.i16(0).i16(0).u16(n.min(0xffff) as u16).u16(n.min(0xffff) as u16).fill(8, 0).str(b"").fill(have, 1);
                    MASK
                }
                8 => {
                    v.u32(4).u32(8 + have as u32).u32(n).fill(have, 0);
                    USER_DATA
                }
                9 => {
                    v.u32(4).u32(16 + 5 * have as u32).u32(1).u32(0).u32(n);
                    for _ in 0..have {
                        v.str(b"").u16(1).u8(1);
                    }
                    USER_DATA
                }
                10 => {
                    // A vector of every type.
                    let ty = c.all("vector type", 20) as u16;
                    let mut m = vec![];
                    m.u32(0).u32(1).str(b"v").u16(17).u32(n).u16(ty).fill(have, if ty == 0 { 1 } else { 0 });
                    v.u32(4).u32(8 + m.len() as u32).u32(1).raw(&m);
                    USER_DATA
                }
                _ => {
                    v.u16(0).i16(0).i16(0).u8(255).u16(c.all_of("cel type", &[0u16, 2, 3])).i16(0).fill(5, 0);
                    v.u16(n.min(0xffff) as u16).u16(n.min(0xffff) as u16).fill(28 + have, 0);
                    CEL
                }
            };
            let depth = c.all_of("depth", &[32u16, 8]);
            let b = file(
                &Header { depth, width: 65535, height: 65535, frames: Some(65535), ..Default::default() },
                &[Frame::new(vec![layer(&Layer::default()), chunk(ty, &v)])],
            );
            judge(c, &b, 3)
        }),
        Driver::new("chunk-count", 0, "frames announcing far more chunks than they hold, header announcing far more frames", move |c| {
            let n = c.all_of("count", &[100u32, 0xffff, 0x10000, 0x00ffffff, 0x7fffffff, 0xffffffff]);
            let have = c.all_of("present", &[0usize, 1, 50]);
            let ch: Vec<u8> = (0..have).flat_map(|_| chunk(PATH, &[])).collect();
            let f = frame_raw(n.min(0xffff) as u16, c.all_of("new count", &[n, 0]), 1, [0, 0], &ch);
            let nf = c.all_of("frames", &[1usize, 20]);
            let b = file_raw(&Header { frames: Some(65535), ..Default::default() }, &vec![f; nf]);
            judge(c, &b, 0)
        }),
        Driver::new("large", 0, "files with very many minimal frames, chunks, layers, cels, tags and properties", move |c| {
            let b = crowded(c, &[100, 1000, 10_000, 60_000]);
            judge(c, &b, 0)
        }),
        Driver::new("nesting", 0, "deeply nested property containers that also announce huge counts", move |c| {
            let ws = words();
            let w = &ws[c.all("word", ws.len())];
            let d = c.all_of("depth", &[1usize, 32, 64, 1000, 10_000]);
            let mut b = nested(w, d);
            if c.all("hostile innermost count", 2) == 1 {
                let n = b.len();
                put(&mut b, n - 11, &[0xff, 0xff, 0xff, 0x7f]);
            }
            judge(c, &b, 130)
        })
        .stack(2 << 20),
    ]
}
