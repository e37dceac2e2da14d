//! C32: steps taken by loading, selecting, decoding and rendering.
use super::image::bpp;
use super::mutate::hostile;
use crate::cmp::B;
use crate::enc::*;
use crate::explore::*;
use crate::gen::{pixels, std_palette};
use crate::steps::taken;
use crate::{bad, ensure, refp, Tier};
use aseprite_loader::binary as x;
use aseprite_loader::loader::{AsepriteFile, LayerSelection};
use std::cell::RefCell;
use std::hint::black_box;
use std::sync::OnceLock;

/// Steps per byte of input, and steps whatever the input.
const PER_BYTE: u64 = 60;
const ALLOWANCE: u64 = 20_000;
/// What a slot of the table of frames x layers counts like, in bytes of input.
const SLOT: u64 = 24;
/// A multiple of the input may take that much more than the same multiple of the steps.
const SLACK: u64 = 3;

fn parse(which: usize, b: &[u8]) -> (bool, u64) {
    match which {
        0 => taken(|| black_box(x::raw_file::parse_raw_file(b)).is_ok()),
        1 => taken(|| black_box(x::file::parse_file(b)).is_ok()),
        _ => taken(|| black_box(AsepriteFile::load(b)).is_ok()),
    }
}
const CALLS: [&str; 3] = ["parse_raw_file", "parse_file", "load"];

/// Loading takes steps for the bytes there are, not for those announced.
fn bounded(c: &mut Ctx, b: &[u8], _: usize) -> Res {
    c.input(b);
    let table = match refp::raw(b) {
        Ok(r) => {
            let l = r.frames.iter().flat_map(|f| &f.chunks).filter(|k| matches!(k, refp::RChunk::Layer(_))).count();
            (l * r.frames.len()) as u64
        }
        Err(_) => 0,
    };
    let limit = PER_BYTE * (b.len() as u64 + table * SLOT) + ALLOWANCE;
    let mut s = 0;
    for which in 0..3 {
        let (ok, n) = parse(which, b);
        ensure!(n <= limit, "{} takes {n} steps for an input of {} bytes (limit {limit})", CALLS[which], b.len());
        c.count("steps", n);
        s = s * 2 + ok as u64;
    }
    Ok(s)
}

// ------------------------------------------------------------ proportions

#[derive(Default)]
struct Piece {
    layers: Vec<Vec<u8>>,
    rest: Vec<Vec<u8>>,
    frames: Vec<Vec<Vec<u8>>>,
    nlayers: usize,
}
const KINDS: usize = 51;
fn map_of(props: &[u8], n: usize) -> Vec<u8> {
    let mut u = vec![];
    u.u32(4).u32(16 + props.len() as u32).u32(1).u32(0).u32(n as u32).raw(props);
    chunk(USER_DATA, &u)
}
/// `n` of one kind of thing. Its own layers start at `base`.
fn piece(k: usize, n: usize, base: usize) -> Piece {
    let mut p = Piece::default();
    let plain = || layer(&Layer::default());
    let dot = |l: usize, z: bool| image_cel(l as u16, 1, 1, 1, 1, &[1], z);
    match k {
        0 => p.layers = vec![plain(); n],
        1 => p.layers = (0..n).map(|i| layer(&Layer { name: format!("{i}").into_bytes(), flags: (i % 2) as u16, ..Default::default() })).collect(),
        2 => {
            for _ in 0..n {
                p.layers.push([plain(), user_text(b"of a layer")].concat());
            }
        }
        3 => p.layers = (0..n).map(|i| layer(&Layer { ty: 1, level: i as u16, ..Default::default() })).collect(),
        4 => {
            // Many layers in a deep group.
            let d = n / 2;
            p.layers = (0..n).map(|i| layer(&Layer { ty: (i < d) as u16, level: i.min(d) as u16, ..Default::default() })).collect()
        }
        5 => p.layers = (0..n).map(|i| layer(&Layer { ty: (i % 2 == 0) as u16, level: (i % 2) as u16, flags: (i % 3) as u16, ..Default::default() })).collect(),
        6..=9 => {
            p.layers = vec![plain(); n];
            p.rest = (0..n)
                .map(|i| match k {
                    6 => cel(&dot(base + i, false)),
                    7 => cel(&dot(base + i, true)),
                    8 => cel(&Cel { z: -(i as i16), ..dot(base + n - 1 - i, false) }),
                    _ => [cel(&dot(base + i, false)), user_text(b"of a cel")].concat(),
                })
                .collect();
        }
        10 => p.rest = vec![cel(&dot(2, false)); n],
        11 => p.frames = vec![vec![]; n / 4],
        12 => p.frames = vec![vec![cel(&dot(0, false))]; n / 4],
        13 => p.frames = vec![vec![cel(&Cel { content: Content::Link(0), ..Default::default() })]; n / 4],
        14 => p.rest = vec![cel(&Cel { content: Content::Link(0), layer: 1, ..Default::default() }); n],
        15 => p.rest = vec![user_text(b"nobody's"); n],
        16 => {
            let mut m = vec![];
            for i in 0..n {
                m.str(format!("key {i}").as_bytes()).u16(2).u8(1);
            }
            p.rest.push(map_of(&m, n));
        }
        17 => {
            let mut m = vec![];
            m.str(b"key").u16(2).u8(1);
            p.rest = vec![map_of(&m, 1); n];
        }
        18 => {
            let mut m = vec![];
            for i in 0..n {
                m.u32(i as u32).u32(1).str(b"k").u16(2).u8(1);
            }
            let mut u = vec![];
            u.u32(4).u32(8 + m.len() as u32).u32(n as u32).raw(&m);
            p.rest.push(chunk(USER_DATA, &u));
        }
        19 | 20 => {
            // Vectors in a vector, of one type or of any.
            let mut m = vec![];
            m.str(b"k").u16(17).u32(n as u32).u16(if k == 19 { 17 } else { 0 });
            for _ in 0..n {
                if k == 20 {
                    m.u16(17);
                }
                m.u32(1).u16(2).u8(1);
            }
            p.rest.push(map_of(&m, 1));
        }
        21 | 22 => {
            // A vector or map in each other.
            let mut m = vec![];
            m.str(b"k").u16(if k == 21 { 17 } else { 18 });
            for _ in 0..n / 64 {
                if k == 21 {
                    m.u32(1).u16(17);
                } else {
                    m.u32(0).u32(1).str(b"k").u16(18);
                }
            }
            m.u32(0);
            if k == 21 {
                m.u16(2);
            } else {
                m.u32(0);
            }
            let more = pixels(n * 4, 1);
            p.rest.push(map_of(&m, 1));
            p.rest.push(chunk(0x7777, &more));
        }
        23 => {
            let l: Vec<(u16, u16, u8, u16, [u8; 3], &[u8])> = vec![(0, 0, 0, 0, [0; 3], b"tag"); n];
            p.rest.push(tags(&l));
        }
        24 => p.rest = vec![tags(&[(0, 0, 0, 2, [0; 3], b"tag")]); n],
        25 => {
            let l: Vec<(u16, u16, u8, u16, [u8; 3], &[u8])> = vec![(0, 0, 0, 0, [0; 3], b"tag"); n];
            let mut all = tags(&l);
            for _ in 0..n {
                all.extend(user_text(b"of a tag"));
            }
            p.rest.push(all);
        }
        26 => p.rest = vec![slice(b"slice", 1); n],
        27 => p.rest.push(slice(b"slice", n as u32)),
        28 => p.rest = vec![[slice(b"slice", 1), user_text(b"of a slice")].concat(); n],
        29 => p.rest = vec![palette_from(3, &[[1, 2, 3, 4]]); n],
        30 => {
            let e: Vec<([u8; 4], Option<&[u8]>)> = vec![([1, 2, 3, 4], Some(b"red")); 256];
            p.rest = vec![palette(256, 0, 255, &e); n / 32];
        }
        31 => {
            // Empty packets do not run out of colours.
            p.rest.push(old_palette(OLD04, &vec![(0, 1, vec![[1, 2, 3]]); n.min(255)]));
            p.rest.push(chunk(0x7777, &pixels(5 * n, 1)));
        }
        32 => p.rest = vec![old_palette(OLD11, &[(7, 2, vec![[1, 2, 3]; 2])]); n],
        33 => p.rest = vec![cel_extra(); n],
        34 => p.rest = vec![color_profile(); n],
        35 => {
            let mut v = vec![];
            v.u16(2).u16(0).u32(0).fill(8, 0).u32(8 * n as u32).fill(8 * n, 1);
            p.rest.push(chunk(COLOR_PROFILE, &v));
        }
        36 | 37 => {
            let one = |count: usize| {
                let mut v = vec![];
                v.u32(count as u32).fill(8, 0);
                for i in 0..count {
                    v.u32(i as u32).fill(8, 0).str(b"file");
                }
                chunk(EXTERNAL, &v)
            };
            p.rest = if k == 36 { vec![one(n)] } else { vec![one(1); n] };
        }
        38 => {
            let mut v = vec![];
            v.i16(0).i16(0).u16(8).u16(8).fill(8, 0).str(b"mask").fill(8, 1);
            p.rest = vec![chunk(MASK, &v); n];
        }
        39 => p.rest = vec![chunk(PATH, &[]); n],
        40 => p.rest = vec![chunk(0x7777, &[1; 20]); n],
        41 => {
            let mut v = vec![];
            v.u32(1).u32(2).u32(1).u16(2).u16(2).i16(1).fill(14, 0).str(b"set").u32(20).fill(20, 1);
            p.rest = vec![chunk(TILESET, &v); n];
        }
        42 => p.layers.push(layer(&Layer { name: vec![b'n'; (n * 8).min(65_535)], ..Default::default() })),
        43 => p.rest.push(user_text(&vec![b't'; (n * 8).min(65_535)])),
        44 => p.rest.push(cel(&image_cel(2, 0, 0, 64, (n / 4) as u16, &pixels(n * 16, 1), false))),
        45 => {
            // Vectors of every plain type.
            let mut m = vec![];
            for ty in 1..=19u16 {
                if ty == 17 || ty == 18 {
                    continue;
                }
                m.str(b"k").u16(17).u32(n as u32 / 4).u16(ty);
                for _ in 0..n / 4 {
                    match ty {
                        1..=3 => m.u8(1),
                        4 | 5 => m.u16(1),
                        6 | 7 | 10 | 11 => m.u32(1),
                        8 | 9 | 12 => m.u32(1).u32(2),
                        13 => m.str(b"text"),
                        14 | 15 => m.i32(1).i32(2),
                        _ => m.fill(16, 3),
                    };
                }
            }
            p.rest.push(map_of(&m, 17));
        }
        46 => {
            // Maps in a vector.
            let mut m = vec![];
            m.str(b"k").u16(17).u32(n as u32).u16(18);
            for i in 0..n {
                m.u32(i as u32).u32(1).str(b"k").u16(2).u8(1);
            }
            p.rest.push(map_of(&m, 1));
        }
        47 => {
            // A balanced tree of vectors.
            fn tree(m: &mut Vec<u8>, n: usize) {
                if n < 2 {
                    m.u32(1).u16(2).u8(1);
                } else {
                    m.u32(2).u16(17);
                    tree(m, n / 2);
                    tree(m, n / 2);
                }
            }
            let mut m = vec![];
            m.str(b"k").u16(17);
            tree(&mut m, n);
            p.rest.push(map_of(&m, 1));
        }
        48 => {
            let mut v = vec![];
            v.u32(n as u32).u32(3).u32(0).str(b"slice");
            for i in 0..n {
                v.u32(i as u32).fill(16 + 16 + 8, 1);
            }
            p.rest.push(chunk(SLICE, &v));
        }
        49 => p.frames = vec![vec![palette_from(7, &[[1, 2, 3, 4]]), user_text(b"nobody's")]; n / 4],
        _ => p.rest.push(chunk(0x7777, &pixels(n * 16, 1))),
    }
    p.nlayers = match k {
        0..=9 => n,
        42 => 1,
        _ => 0,
    };
    p
}
/// Appends chunks that may have been written one behind the other.
fn push(f: &mut Vec<Vec<u8>>, mut b: &[u8]) {
    while !b.is_empty() {
        let (one, rest) = b.split_at(u32::from_le_bytes(b[..4].try_into().unwrap()) as usize);
        f.push(one.to_vec());
        b = rest;
    }
}
/// A sprite with all that; returns it with the measure of its size.
fn sprite_of(ks: &[usize], n: usize, layout: usize, base_palette: bool) -> (Vec<u8>, u64) {
    let has_palette = base_palette || ks.iter().any(|k| (29..=32).contains(k) || *k == 49);
    let mut f0 = vec![];
    if base_palette {
        f0.push(std_palette());
    }
    let mut nl = 3;
    f0.extend(vec![layer(&Layer::default()); 3]);
    let mut ps: Vec<Piece> = vec![];
    for &k in ks {
        let p = piece(k, n, nl);
        nl += p.nlayers;
        p.layers.iter().for_each(|b| push(&mut f0, b));
        ps.push(p);
    }
    for l in 0..3 {
        f0.push(cel(&image_cel(l, 0, 0, 2, 1, &[1, 2], l == 1)));
    }
    let mut f1: Vec<Vec<u8>> = vec![];
    match layout {
        0 => ps.iter().flat_map(|p| &p.rest).for_each(|b| push(&mut f0, b)),
        1 => {
            let most = ps.iter().map(|p| p.rest.len()).max().unwrap_or(0);
            for i in 0..most {
                for p in &ps {
                    p.rest.get(i).into_iter().for_each(|b| push(&mut f0, b));
                }
            }
        }
        _ => {
            for p in ps.iter().rev() {
                p.rest.iter().for_each(|b| push(&mut f1, b));
            }
        }
    }
    let mut fs = vec![Frame::new(f0), Frame::new(f1)];
    for p in &ps {
        fs.extend(p.frames.iter().map(|c| Frame::new(c.clone())));
    }
    let nf = fs.len();
    let b = file(
        &Header { width: 4, height: 4, depth: if has_palette { 8 } else { 32 }, transparent: 200, ..Default::default() },
        &fs,
    );
    let size = b.len() as u64 + SLOT * nf as u64 * nl as u64;
    (b, size)
}
/// Sixteen times as much of everything takes about sixteen times as many steps.
fn proportion(c: &mut Ctx, kinds: usize, few: usize) -> Res {
    let ks: Vec<usize> = {
        let mut ks: Vec<usize> = vec![];
        for _ in 0..kinds {
            let from = ks.last().copied().unwrap_or(0);
            ks.push(from + c.all("kind", KINDS - from));
        }
        ks
    };
    let layout = c.all("layout", 3);
    let base_palette = c.all("palette", 2) == 1;
    let (small, m1) = sprite_of(&ks, few, layout, base_palette);
    let (large, m2) = sprite_of(&ks, few * 16, layout, base_palette);
    c.input(&large);
    let mut s = 0;
    for which in 0..3 {
        let (ok1, n1) = parse(which, &small);
        let (ok2, n2) = parse(which, &large);
        let limit = SLACK * n1 * m2 / m1 + ALLOWANCE;
        ensure!(which > 0 || ok1 && ok2, "a well-formed file is not parsed");
        ensure!(
            n2 <= limit,
            "{} takes {n1} steps for {} bytes and {n2} for {} bytes of the same kind (limit {limit})",
            CALLS[which],
            small.len(),
            large.len()
        );
        let limit = PER_BYTE * m2 + ALLOWANCE;
        ensure!(n2 <= limit, "{} takes {n2} steps for {} bytes (limit {limit})", CALLS[which], large.len());
        c.count("steps", n1 + n2);
        s = s * 4 + ok1 as u64 * 2 + ok2 as u64;
    }
    Ok(s)
}


// ------------------------------------------------------ decoding, rendering

/// Steps per pixel concerned, per byte of its data, and per layer and cel.
const PER_PIXEL: u64 = 150;
const PER_CANVAS: u64 = 20;
const PER_DATUM: u64 = 30;
const PER_CEL: u64 = 400;
const FIXED: u64 = 60_000;

fn load(b: &[u8]) -> B<AsepriteFile<'_>> {
    match AsepriteFile::load(b) {
        Ok(f) => Ok(f),
        Err(e) => bad!("a well-formed sprite does not load: {e:?}"),
    }
}
fn area((w, h): (u16, u16)) -> u64 {
    w as u64 * h as u64
}
fn decode(c: &mut Ctx, af: &AsepriteFile, i: usize, px: u64, data: u64, room: usize) -> Res {
    let mut buf = vec![0u8; px as usize * 4 + room];
    let (r, n) = taken(|| af.load_image(i, &mut buf).is_ok());
    let limit = PER_PIXEL * px + PER_DATUM * data + FIXED;
    ensure!(n <= limit, "decoding {px} pixels from {data} bytes takes {n} steps (limit {limit})");
    c.count("steps", n);
    Ok(r as u64)
}
/// `cels`: pixels and data bytes of those drawn, and how many of them are compressed.
fn render(c: &mut Ctx, af: &AsepriteFile, f: usize, sel: &LayerSelection, cels: (u64, u64, u64), hash: bool) -> Res {
    let canvas = area(af.size());
    let mut buf = vec![0u8; canvas as usize * 4];
    #[allow(deprecated)]
    let (r, n) = taken(|| {
        if hash {
            af.combined_frame_image(f, &mut buf).is_ok()
        } else {
            af.render_frame(f, &mut buf, sel).is_ok()
        }
    });
    let items = (af.layers().len() + af.frames()[f].cels.len()) as u64;
    let limit = PER_CANVAS * canvas + PER_PIXEL * cels.0 + PER_DATUM * cels.1 + PER_CEL * items + FIXED * (1 + cels.2);
    ensure!(
        n <= limit,
        "rendering a canvas of {canvas} pixels with {} pixels and {} bytes of cels takes {n} steps (limit {limit})",
        cels.0,
        cels.1
    );
    c.count("steps", n);
    Ok(r as u64)
}

fn streams() -> &'static [Vec<u8>; 2] {
    static S: OnceLock<[Vec<u8>; 2]> = OnceLock::new();
    S.get_or_init(|| [zlib_level(&vec![0; 3 << 20], 9), zlib_stored(&pixels(1 << 15, 7))])
}
/// Images of every shape and stream, drawn with every blend mode at every place.
fn pictures(c: &mut Ctx) -> Res {
    let depth = c.all_of("depth", &[32u16, 16, 8]);
    let (w, h) = c.all_of("size", &[(1u16, 1u16), (3, 3), (0, 5), (5, 0), (17, 9), (64, 64), (256, 1), (1, 256)]);
    let n = w as usize * h as usize * bpp(depth);
    let px = pixels(n, 3);
    let (zip, data) = match c.all("data", 9) {
        0 => (false, px),
        1 => (true, zlib_stored(&px)),
        2 => (true, zlib_level(&px, 9)),
        3 => (true, zlib_level(&vec![0; n], 1)),
        // Far more than there should be.
        4 => (true, streams()[0].clone()),
        5 => (true, streams()[1].clone()),
        6 => (false, vec![1; n + (1 << 15)]),
        // Very many blocks without content.
        7 => {
            let mut d = vec![0x78, 1];
            for _ in 0..4000 {
                d.raw(&[0, 0, 0, 0xff, 0xff]);
            }
            d.extend(&zlib_stored(&px)[2..]);
            (true, d)
        }
        _ => (true, vec![0xff; 40]),
    };
    let blend = c.all("blend mode", 19) as u16;
    let (x, y) = c.all_of("place", &[(0i16, 0i16), (-3, 2), (i16::MIN, i16::MAX)]);
    let opacity = c.all_of("opacity", &[255u8, 0, 77]);
    let len = data.len() as u64;
    let content = if zip { Content::Zlib { w, h, data } } else { Content::Raw { w, h, data } };
    let b = file(
        &Header { depth, width: 16, height: 12, transparent: 3, ..Default::default() },
        &[
            Frame::new(vec![
                std_palette(),
                layer(&Layer::default()),
                layer(&Layer { blend, ..Default::default() }),
                cel(&image_cel(0, 0, 0, 16, 12, &pixels(16 * 12 * bpp(depth), 5), false)),
                cel(&Cel { layer: 1, x, y, opacity, content, ..Default::default() }),
            ]),
            Frame::new(vec![cel(&Cel { layer: 1, content: Content::Link(0), ..Default::default() })]),
        ],
    );
    c.input(&b);
    let af = load(&b)?;
    let mut s = 0;
    let me = af.frames()[0].cels[1];
    let under = 16 * 12;
    let px = area((w, h));
    if blend == 0 && (x, y, opacity) == (0, 0, 255) {
        s = decode(c, &af, me.image_index, px, len, 0)? * 2 + decode(c, &af, me.image_index, px, len, 5000)?;
    }
    s = s * 2 + render(c, &af, 0, &LayerSelection::Visible, (px + under, len + under * bpp(depth) as u64, 1), false)?;
    s = s * 2 + render(c, &af, 1, &LayerSelection::All, (px, len, 1), true)?;
    Ok(s)
}

/// Many small cels on a large canvas.
fn dots(c: &mut Ctx) -> Res {
    let depth = c.all_of("depth", &[32u16, 16, 8]);
    let (w, h) = c.all_of("canvas", &[(1u16, 1u16), (300, 200), (65535, 1), (1, 65535)]);
    let n = c.all_of("cels", &[0usize, 1, 30, 1000]);
    let (cw, ch) = c.all_of("size", &[(1u16, 1u16), (0, 0), (0, 65535), (3, 1)]);
    let far = c.all("off the canvas", 2) == 1;
    let sel = c.all("selection", 3);
    let px = pixels(cw as usize * ch as usize * bpp(depth), 3);
    let mut f = vec![std_palette()];
    f.extend(vec![layer(&Layer::default()); n]);
    for i in 0..n {
        let x = if far { -9 } else { (i % w as usize) as i16 };
        f.push(cel(&image_cel(i as u16, x, (i % h as usize) as i16, cw, ch, &px, false)));
    }
    let b = file(&Header { depth, width: w, height: h, transparent: 3, ..Default::default() }, &[Frame::new(f)]);
    c.input(&b);
    let af = load(&b)?;
    let sel = match sel {
        0 => LayerSelection::Visible,
        1 => LayerSelection::All,
        _ => LayerSelection::Mask(vec![false; n]),
    };
    let all = n as u64 * cw as u64 * ch as u64;
    render(c, &af, 0, &sel, (all, all * bpp(depth) as u64, 0), false)
}

/// The calls whose cost should not depend on what else there is; the image `i` has `px` pixels.
fn call(c: &mut Ctx, af: &AsepriteFile, op: usize, f: usize, i: usize, px: u64) -> B<u64> {
    let mut buf = [0u8; 64];
    let (ok, n) = match op {
        0 => {
            let mut buf = vec![0; px as usize * 4];
            taken(|| af.load_image(i, &mut buf).is_ok())
        }
        1 => {
            let mut mask = vec![false; af.layers().len()];
            mask[0] = true;
            let sel = LayerSelection::Mask(mask);
            taken(|| af.render_frame(f, &mut buf, &sel).is_ok())
        }
        2 => taken(|| {
            let n = af.image_count() + af.layers().len() + af.frames().len() + af.tags().len() + af.slices().len() + af.size().0 as usize;
            black_box(n);
            black_box(af.layers().last().map(|l| l.visible));
            black_box(af.frames()[f].duration);
            true
        }),
        // Too small a buffer.
        _ => taken(|| af.render_frame(f, &mut buf[..63], &LayerSelection::All).is_err() && af.load_image(i, &mut buf[..3]).is_err()),
    };
    ensure!(ok, "call {op} has the wrong result");
    c.count("steps", n);
    Ok(n)
}
thread_local! {
    static LAST: RefCell<((usize, usize, usize), Vec<u8>)> = const { RefCell::new(((0, 0, 9), Vec::new())) };
}
/// One small image or frame in a sprite full of other things, with other things called before.
fn among(c: &mut Ctx, many: usize, len: usize) -> Res {
    let key = (c.all("kind", KINDS), c.all_of("others", &[16, many]), c.all("layout", 3));
    let b = LAST.with(|l| {
        let mut l = l.borrow_mut();
        if l.0 != key {
            *l = (key, sprite_of(&[key.0], key.1, key.2, true).0);
        }
        l.1.clone()
    });
    c.input(&b);
    let (few, _) = sprite_of(&[KINDS - 1], 0, 0, true);
    let alone = load(&few)?;
    let Ok(af) = AsepriteFile::load(&b) else { return Ok(0) };
    let mut s = 1u64;
    for _ in 0..len {
        let op = c.all("call", 7);
        // The first two and the last.
        let f = [0, 1, af.frames().len() - 1][c.all("frame", 3)];
        s = s * 3 + match op {
            0..=3 => {
                let i = if op == 0 { [0, af.image_count() / 2, af.image_count() - 1][c.all("image", 3)] } else { 0 };
                let Some(px) = af.frames().iter().flat_map(|f| &f.cels).find(|x| x.image_index == i).map(|x| area(x.size)) else {
                    bad!("image {i} is nowhere")
                };
                let n1 = call(c, &alone, op, f.min(1), 0, 2)?;
                let n2 = call(c, &af, op, f, i, px)?;
                let items = (af.layers().len() + af.frames()[f].cels.len()) as u64;
                let limit = n1 * 3 / 2 + 500 + if op == 1 || op == 3 { 100 * items } else { 0 };
                let limit = limit + PER_PIXEL * (px - px.min(2)) + if key.0 == 7 || i == 1 { FIXED } else { 0 };
                ensure!(n2 <= limit, "a call that takes {n1} steps on a small sprite takes {n2} among other things (limit {limit})");
                1
            }
            4 | 5 => {
                let cels = &af.frames()[f].cels;
                let px = cels.iter().map(|x| area(x.size)).sum::<u64>();
                let n = cels.len() as u64;
                let all = (px, px + 11 * n, if key.0 == 7 { n } else { 1 });
                render(c, &af, f, &LayerSelection::Visible, all, op == 5)?
            }
            _ => {
                // Names of layers there are and of layers there are not.
                let names: Vec<String> = (0..4).map(|i| format!("{}", i * 5)).collect();
                let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                let (sel, n) = taken(|| af.select_layers_by_name(&names));
                let limit = 400 * (1 + af.layers().len()) as u64 + 4000;
                ensure!(n <= limit, "selecting 4 names among {} layers takes {n} steps (limit {limit})", af.layers().len());
                matches!(sel, LayerSelection::Mask(_)) as u64
            }
        };
    }
    Ok(s)
}

pub fn c32(t: Tier) -> Vec<Driver> {
    let mut v = vec![
        Driver::new("one", 0, "64 and 1024 of every kind of thing x layout x palette", |c| proportion(c, 1, 64)),
        Driver::new("one-larger", 0, "1024 and 16384 of every kind of thing x layout x palette", |c| proportion(c, 1, 1024)),
        Driver::new("two", 0, "64 and 1024 of every two kinds of things x layout x palette", |c| proportion(c, 2, 64)),
    ];
    v.push(Driver::new("pictures", 0, "depth x size x stream x blend mode x place x opacity", pictures));
    v.push(Driver::new("among", 0, "every two calls on a sprite with 16 or 2048 other things of every kind", |c| among(c, 2048, 2)));
    v.push(Driver::new("dots", 0, "canvas x number of small cels x size x place x selection", dots));
    if t == Tier::Thorough {
        v.push(Driver::new("three", 0, "64 and 1024 of every three kinds of things x layout x palette", |c| proportion(c, 3, 64)));
        v.push(Driver::new("two-larger", 0, "256 and 4096 of every two kinds of things x layout x palette", |c| proportion(c, 2, 256)));
        v.push(Driver::new("among-three", 0, "every three calls on a sprite with 16 or 4096 other things of every kind", |c| among(c, 4096, 3)));
    }
    v.extend(hostile(t, bounded));
    v
}
