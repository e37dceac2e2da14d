//! C30: memory needed by decoding and rendering, and memory kept afterwards.
use super::image::{bpp, indexed_sprite, rgba_sprite};
use super::tier;
use crate::cmp::B;
use crate::enc::*;
use crate::explore::*;
use crate::gen::{pixels, std_palette};
use crate::{alloc, bad, ensure, Tier};
use aseprite_loader::loader::{AsepriteFile, LayerSelection};
use std::hint::black_box;
use std::sync::OnceLock;

/// Bytes per pixel concerned, and the fixed allowance.
const PER_PIXEL: usize = 64;
const ALLOWANCE: usize = 512 << 10;

fn sprite(b: &[u8]) -> B<AsepriteFile<'_>> {
    match AsepriteFile::load(b) {
        Ok(a) => Ok(a),
        Err(e) => bad!("a well-formed sprite does not load: {e:?}"),
    }
}
fn area((w, h): (u16, u16)) -> usize {
    w as usize * h as usize
}
/// Decode image `i`, declared with `px` pixels.
fn decode(af: &AsepriteFile, i: usize, px: usize, extra: usize) -> B<u64> {
    let mut buf = vec![0u8; px * 4 + extra];
    let (r, p) = alloc::peak(|| af.load_image(i, &mut buf));
    let limit = PER_PIXEL * px + ALLOWANCE;
    ensure!(p <= limit, "decoding an image of {px} pixels allocates {p} bytes (limit {limit})");
    Ok(r.is_ok() as u64)
}
/// Render frame `f`; `want` tells which layers contribute.
fn render(af: &AsepriteFile, f: usize, sel: &LayerSelection, want: &dyn Fn(usize) -> bool, hash: bool) -> B<u64> {
    let canvas = area(af.size());
    let mine: usize = af.frames()[f].cels.iter().filter(|c| want(c.layer_index)).map(|c| area(c.size)).sum();
    let mut buf = vec![0u8; canvas * 4];
    let (r, p) = alloc::peak(|| {
        if hash {
            af.combined_frame_image(f, &mut buf).map(|_| ())
        } else {
            af.render_frame(f, &mut buf, sel)
        }
    });
    let limit = PER_PIXEL * (canvas + mine) + 256 * (af.layers().len() + af.frames()[f].cels.len()) + ALLOWANCE;
    ensure!(
        p <= limit,
        "rendering a canvas of {canvas} pixels with {mine} cel pixels allocates {p} bytes (limit {limit})"
    );
    Ok(r.is_ok() as u64)
}

/// Streams that expand to far more than a small image needs.
fn bombs() -> &'static Vec<Vec<u8>> {
    static S: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        for n in [1usize << 20, 3 << 20, 32 << 20] {
            for level in [1, 9] {
                v.push(zlib_level(&vec![0u8; n], level));
            }
        }
        // Not compressible: as much input as output.
        v.push(zlib_stored(&pixels(2 << 20, 7)));
        // Well begun, then cut or damaged.
        let mut cut = v[5].clone();
        cut.truncate(cut.len() / 2);
        v.push(cut);
        let mut bad = v[5].clone();
        let n = bad.len() / 2;
        bad[n] ^= 0x55;
        v.push(bad);
        v
    })
}
fn bomb(c: &mut Ctx) -> Res {
    let depth = c.all_of("depth", &[32u16, 16, 8]);
    let (w, h) = c.all_of("size", &[(1u16, 1u16), (3, 3), (0, 5), (5, 0), (17, 9), (64, 64)]);
    let k = c.all("stream", bombs().len() + 3);
    let n = w as usize * h as usize * bpp(depth);
    let data = match k {
        0 => zlib(&pixels(n, 3)),
        1 => zlib_level(&pixels(n + 1, 3), 9),
        2 => vec![0xff; 40],
        k => bombs()[k - 3].clone(),
    };
    let good = cel(&image_cel(1, 0, 0, 2, 2, &pixels(4 * bpp(depth), 5), true));
    let b = file(
        &Header { depth, width: 4, height: 3, transparent: 3, ..Default::default() },
        &[
            Frame::new(vec![
                std_palette(),
                layer(&Layer::default()),
                layer(&Layer::default()),
                cel(&Cel { content: Content::Zlib { w, h, data }, ..Default::default() }),
                good,
            ]),
            Frame::new(vec![cel(&Cel { content: Content::Link(0), ..Default::default() })]),
        ],
    );
    c.input(&b);
    let af = sprite(&b)?;
    let mut s = 0;
    for f in 0..2 {
        for x in &af.frames()[f].cels {
            for extra in [0, 5] {
                s = s * 3 + decode(&af, x.image_index, area(x.size), extra)?;
            }
        }
        s = s * 3 + render(&af, f, &LayerSelection::Visible, &|_| true, false)?;
        s = s * 3 + render(&af, f, &LayerSelection::All, &|_| true, true)?;
    }
    c.count("streams decoded", 1);
    Ok(s)
}

/// A small cel next to one that is not concerned and declares itself huge.
fn neighbour(c: &mut Ctx) -> Res {
    let depth = c.all_of("depth", &[32u16, 16, 8]);
    let (w, h) = c.all_of("huge", &[(65535u16, 65535u16), (65535, 1000), (8000, 8000), (1000, 2000)]);
    let zip = c.all("huge compressed", 2) == 1;
    // 0..: hidden, in a hidden group, in another frame, a group's, not selected.
    let why = c.all("not concerned since", 5);
    let above = c.all("huge above", 2) == 1;
    let data = if zip { zlib_level(&[0; 100], 1) } else { vec![0; 100] };
    let content = if zip { Content::Zlib { w, h, data } } else { Content::Raw { w, h, data } };
    let small = layer(&Layer { name: b"small".to_vec(), ..Default::default() });
    let mut ls = vec![];
    match why {
        0 => ls.push(layer(&Layer { flags: 2, name: b"huge".to_vec(), ..Default::default() })),
        1 => {
            ls.push(layer(&Layer { flags: 2, ty: 1, name: b"hidden".to_vec(), ..Default::default() }));
            ls.push(layer(&Layer { level: 1, name: b"huge".to_vec(), ..Default::default() }));
        }
        3 => ls.push(layer(&Layer { ty: 1, name: b"huge".to_vec(), ..Default::default() })),
        _ => ls.push(layer(&Layer { name: b"huge".to_vec(), ..Default::default() })),
    }
    let (huge_at, small_at);
    if above {
        small_at = 0;
        huge_at = ls.len();
        ls.insert(0, small);
    } else {
        small_at = ls.len();
        huge_at = ls.len() - 1;
        ls.push(small);
    }
    let huge = cel(&Cel { layer: huge_at as u16, content, ..Default::default() });
    let px = pixels(6 * bpp(depth), 3);
    let little = |x: i16| cel(&image_cel(small_at as u16, x, 0, 3, 2, &px, zip));
    let mut f0 = vec![std_palette()];
    f0.extend(ls);
    let mut f1 = vec![];
    if why == 2 { &mut f1 } else { &mut f0 }.push(huge);
    f0.push(little(0));
    f1.push(little(1));
    let b = file(
        &Header { depth, width: 4, height: 3, transparent: 3, ..Default::default() },
        &[Frame::new(f0), Frame::new(f1)],
    );
    c.input(&b);
    let af = sprite(&b)?;
    let x = match af.frames()[0].cels.iter().find(|x| x.layer_index == small_at) {
        Some(x) => *x,
        None => bad!("the small cel is missing"),
    };
    let mut s = decode(&af, x.image_index, 6, 0)?;
    let sel = match why {
        4 => af.select_layers_by_name(&["small"]),
        3 => LayerSelection::All,
        _ => LayerSelection::Visible,
    };
    s = s * 3 + render(&af, 0, &sel, &|l| l == small_at, false)?;
    if why < 4 {
        s = s * 3 + render(&af, 0, &LayerSelection::Visible, &|l| l == small_at, true)?;
    }
    ensure!(s == if why < 4 { 13 } else { 4 }, "the small image does not decode or render");
    c.count("renders", 1);
    Ok(s)
}

/// Where a cel lies costs nothing.
fn far(c: &mut Ctx) -> Res {
    let edge = [i16::MIN, -3000, -1, 0, 2, 3000, i16::MAX];
    let (x, y) = (c.all_of("x", &edge), c.all_of("y", &edge));
    let (x2, y2) = (c.all_of("x of the other", &edge), c.all_of("y of the other", &edge));
    let z = c.all_of("z", &[0i16, i16::MIN, i16::MAX]);
    let (w, h) = c.all_of("canvas", &[(1u16, 1u16), (0, 9), (65535, 1), (1, 65535), (300, 200)]);
    let px = pixels(4, 3);
    let b = file(
        &Header { depth: 32, width: w, height: h, ..Default::default() },
        &[Frame::new(vec![
            layer(&Layer::default()),
            layer(&Layer { blend: 2, opacity: 99, ..Default::default() }),
            cel(&Cel { z, ..image_cel(0, x, y, 1, 1, &px, false) }),
            cel(&image_cel(1, x2, y2, 1, 1, &px, true)),
        ])],
    );
    c.input(&b);
    let af = sprite(&b)?;
    render(&af, 0, &LayerSelection::Visible, &|_| true, false)
}

/// Many images of which one is used.
fn crowd(c: &mut Ctx) -> Res {
    let n = c.all_of("others", &[1usize, 50, 2000]);
    let side = c.all_of("side of the others", &[1u16, 40, 200]);
    let links = c.all("the others are links", 2) == 1;
    let k = n.min(20);
    // Some frames of many layers, some layers of many frames.
    let wide = c.all("in one frame", 2) == 1;
    let zip = c.all("compressed", 2) == 1;
    let big = vec![0x22; side as usize * side as usize * 4];
    let stream = if zip { zlib_level(&big, 1) } else { big };
    let content = || if zip { Content::Zlib { w: side, h: side, data: stream.clone() } } else { Content::Raw { w: side, h: side, data: stream.clone() } };
    let mut fs = vec![];
    if wide {
        let mut f0 = vec![];
        for i in 0..=k {
            f0.push(layer(&Layer { flags: (i == k) as u16, name: b"l".to_vec(), ..Default::default() }));
        }
        for i in 0..k {
            f0.push(cel(&Cel { layer: i as u16, content: content(), ..Default::default() }));
        }
        f0.push(cel(&image_cel(k as u16, 0, 0, 1, 1, &[1, 2, 3, 4], false)));
        fs.push(Frame::new(f0));
    } else {
        fs.push(Frame::new(vec![
            layer(&Layer::default()),
            layer(&Layer { flags: 0, ..Default::default() }),
            cel(&image_cel(0, 0, 0, 1, 1, &[1, 2, 3, 4], false)),
            cel(&Cel { layer: 1, content: content(), ..Default::default() }),
        ]));
        let n = if links { n } else { k };
        for _ in 0..n {
            let content = if links { Content::Link(0) } else { content() };
            fs.push(Frame::new(vec![cel(&Cel { layer: 1, content, ..Default::default() })]));
        }
    }
    let b = file(&Header { width: 2, height: 2, ..Default::default() }, &fs);
    c.input(&b);
    let af = sprite(&b)?;
    let only = if wide { k } else { 0 };
    let x = af.frames()[0].cels.iter().find(|x| x.layer_index == only).copied();
    let Some(x) = x else { bad!("the small cel is missing") };
    let mut s = decode(&af, x.image_index, 1, 0)?;
    for hash in [false, true] {
        s = s * 3 + render(&af, 0, &LayerSelection::Visible, &|l| l == only, hash)?;
    }
    ensure!(s == 13, "the small image does not decode or render");
    Ok(s)
}

// ------------------------------------------------------- nothing is kept

struct Bases(Vec<(&'static str, Vec<u8>)>);
fn bases() -> &'static Bases {
    static S: OnceLock<Bases> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![("rgba", rgba_sprite()), ("indexed", indexed_sprite())];
        let one = |h: Header, chunks: Vec<Vec<u8>>| file(&h, &[Frame::new(chunks)]);
        v.push((
            "grey",
            one(
                Header { depth: 16, ..Default::default() },
                vec![layer(&Layer::default()), cel(&image_cel(0, 1, 1, 2, 2, &pixels(8, 1), true))],
            ),
        ));
        v.push((
            "corrupt image",
            one(
                Header::default(),
                vec![
                    layer(&Layer::default()),
                    layer(&Layer::default()),
                    cel(&image_cel(0, 0, 0, 2, 2, &pixels(16, 1), true)),
                    cel(&Cel {
                        layer: 1,
                        content: Content::Zlib { w: 2, h: 2, data: vec![0x78, 1, 9, 9] },
                        ..Default::default()
                    }),
                ],
            ),
        ));
        v.push((
            "unknown blend mode",
            one(
                Header::default(),
                vec![layer(&Layer { blend: 77, ..Default::default() }), cel(&image_cel(0, 0, 0, 1, 1, &[1; 4], true))],
            ),
        ));
        v.push((
            "user data everywhere",
            one(
                Header::default(),
                vec![
                    layer(&Layer::default()),
                    user_text(b"of the layer"),
                    tags(&[(0, 0, 0, 1, [1, 2, 3], b"first"), (0, 0, 1, 0, [0; 3], b"second")]),
                    user_text(b"one"),
                    user_text(b"two"),
                    user_text(b"dropped"),
                    slice(b"slice", 1),
                    user_text(b"three"),
                    color_profile(),
                    chunk(0x7777, &[1; 50]),
                    cel(&image_cel(0, 0, 0, 1, 1, &[1; 4], false)),
                    cel_extra(),
                    user_text(b"dropped too"),
                ],
            ),
        ));
        let unit = |d: &[u8]| one(Header::default(), vec![layer(&Layer::default()), d.to_vec()]);
        v.push(("dangling cel", unit(&cel(&image_cel(9, 0, 0, 1, 1, &[1; 4], false)))));
        v.push(("dangling link", unit(&cel(&Cel { content: Content::Link(9), ..Default::default() }))));
        v.push(("tag out of order", unit(&tags(&[(2, 1, 0, 0, [0; 3], b"t")]))));
        v.push(("palette missing", one(Header { depth: 8, ..Default::default() }, vec![layer(&Layer::default())])));
        let mut cut = rgba_sprite();
        cut.truncate(cut.len() - 3);
        v.push(("cut", cut));
        let mut text = vec![];
        text.u32(1).u16(2).raw(&[0xc0, 0x20]);
        v.push(("not UTF-8", unit(&chunk(USER_DATA, &text))));
        // Properties: sound, unsupported, overrunning.
        for (name, ty, size) in [("properties", 1u16, 0u32), ("bad property", 99, 0), ("properties too long", 1, 9)] {
            let mut m = vec![];
            m.u32(0).u32(1).str(b"key").u16(ty).u8(1);
            let mut p = vec![];
            p.u32(7).str(b"text").raw(&[1, 2, 3, 4]).u32(8 + m.len() as u32 + size).u32(1).raw(&m);
            v.push((name, unit(&chunk(USER_DATA, &p))));
        }
        Bases(v)
    })
}
fn mix(seq: &[usize]) -> u64 {
    seq.iter().fold(7, |h, &k| h * 11 + k as u64 + 1) << 8
}
const OPS: usize = 9;
fn op(af: &AsepriteFile, k: usize) -> u64 {
    let (w, h) = af.size();
    let mut buf = vec![0u8; area((w, h)).max(4096) * 4];
    let mut small = [0u8; 3];
    let images = af.image_count();
    let frames = af.frames().len();
    let mut s = 0u64;
    match k {
        0 => (0..images).for_each(|i| s = s * 2 + af.load_image(i, &mut buf).is_ok() as u64),
        1 => (0..images).for_each(|i| s = s * 2 + af.load_image(i, &mut small).is_ok() as u64),
        2 => (0..frames).for_each(|f| s = s * 2 + af.render_frame(f, &mut buf, &LayerSelection::Visible).is_ok() as u64),
        3 => (0..frames).for_each(|f| s = s * 2 + af.render_frame(f, &mut buf, &LayerSelection::All).is_ok() as u64),
        4 => {
            let sel = af.select_layers(|l| l.opacity > 200);
            (0..frames).for_each(|f| s = s * 2 + af.render_frame(f, &mut buf, &sel).is_ok() as u64)
        }
        5 => {
            let sel = af.select_layers_by_name(&["L2", "Layer"]);
            (0..frames).for_each(|f| s = s * 2 + af.render_frame(f, &mut buf, &sel).is_ok() as u64)
        }
        6 => (0..frames).for_each(|f| s = s * 2 + af.combined_frame_image(f, &mut buf).is_ok() as u64),
        7 => (0..frames).for_each(|f| s = s * 2 + af.render_frame(f, &mut small, &LayerSelection::All).is_ok() as u64),
        _ => {
            s = (af.layers().len() + af.tags().len() * 7 + af.slices().len() * 31) as u64;
            black_box(format!("{:?}", af.tags()));
        }
    }
    s
}
/// A cycle of work leaves as much memory in use as the same cycle before it.
fn kept(c: &mut Ctx, len: usize) -> Res {
    let all = &bases().0;
    let k = c.all("file", all.len());
    let (name, b) = (all[k].0, &all[k].1);
    let how = c.all("level", 4);
    let seq: Vec<usize> = if how == 0 { (0..len).map(|_| c.all("operation", OPS)).collect() } else { vec![] };
    c.input(b);
    c.state ^= mix(&seq) ^ how as u64;
    let mut s = 0u64;
    let mut cycle = || match how {
        0 => match AsepriteFile::load(b) {
            Ok(af) => {
                for &k in &seq {
                    s = s.wrapping_mul(31).wrapping_add(op(&af, k));
                }
            }
            Err(e) => {
                black_box(format!("{e} {e:?}"));
            }
        },
        1 => s = AsepriteFile::load(b).is_ok() as u64,
        2 => s = aseprite_loader::binary::file::parse_file(b).is_ok() as u64,
        _ => s = aseprite_loader::binary::raw_file::parse_raw_file(b).is_ok() as u64,
    };
    // The first rounds may set up what is kept for good reason.
    let mut live = Vec::with_capacity(6);
    for _ in 0..6 {
        cycle();
        live.push(alloc::live());
    }
    ensure!(
        live[5] <= live[2],
        "{name}: three further rounds of the same work keep {} bytes",
        live[5] - live[2]
    );
    c.count("rounds of work", 6);
    Ok(s)
}
/// One sprite used again and again.
fn reused(c: &mut Ctx, len: usize) -> Res {
    let all = &bases().0;
    let k = c.all("file", 6);
    let (name, b) = (all[k].0, &all[k].1);
    let seq: Vec<usize> = (0..len).map(|_| c.all("operation", OPS)).collect();
    c.input(b);
    c.state ^= mix(&seq);
    let af = sprite(b)?;
    let mut s = 0u64;
    let mut live = Vec::with_capacity(6);
    for _ in 0..6 {
        for &k in &seq {
            s = s.wrapping_mul(31).wrapping_add(op(&af, k));
        }
        live.push(alloc::live());
    }
    ensure!(
        live[5] <= live[2],
        "{name}: three further rounds of {seq:?} on one sprite keep {} bytes",
        live[5] - live[2]
    );
    c.count("rounds of work", 6);
    Ok(s)
}

/// Ever new content: nothing of it is remembered.
fn novel(c: &mut Ctx) -> Res {
    let depth = c.all_of("depth", &[32u16, 16, 8]);
    let zip = c.all("compressed", 2) == 1;
    // Pixels, layer name, place, palette, user data, tag name, requested name, broken stream, broken file.
    let what = c.all("novel", 9);
    let one_sprite = what == 6;
    let id = (depth as u64 * 2 + zip as u64) * 16 + what as u64;
    let make = |n: u64| {
        let fresh = |w: usize| if what == w { (id << 24 | n).wrapping_mul(0x9e3779b97f4a7c15) } else { 5 };
        let name = |w: usize| format!("{:016x}", fresh(w)).into_bytes();
        let mut px: Vec<u8> = (0..12 * bpp(depth)).map(|i| (fresh(0) >> (i % 8 * 8)) as u8 ^ i as u8).collect();
        px.iter_mut().for_each(|p| *p %= 250);
        let f = fresh(2);
        let colors: Vec<[u8; 4]> = (0..=255u8).map(|i| [i, (fresh(3) >> 8) as u8, (fresh(3) >> 16) as u8 ^ i, 255]).collect();
        let content = if zip || what == 7 {
            let mut data = zlib_level(&px, 6);
            if what == 7 {
                data.truncate(8);
                data.extend(fresh(7).to_le_bytes());
            }
            Content::Zlib { w: 4, h: 3, data }
        } else {
            Content::Raw { w: 4, h: 3, data: px }
        };
        let mut text = vec![];
        text.extend(name(4));
        let mut b = file(
            &Header { depth, ..Default::default() },
            &[
                Frame::new(vec![
                    palette_from(0, &colors),
                    layer(&Layer { name: name(1), ..Default::default() }),
                    user_text(&text),
                    layer(&Layer { blend: 4, opacity: 70, ..Default::default() }),
                    tags(&[(0, 1, 0, 0, [0; 3], &name(5))]),
                    cel(&Cel { layer: 0, x: f as i16 % 4, y: (f >> 16) as i16 % 4, opacity: (f >> 32) as u8, content: content.clone(), ..Default::default() }),
                    cel(&Cel { layer: 1, content, ..Default::default() }),
                ]),
                Frame::new(vec![cel(&Cel { layer: 1, content: Content::Link(0), ..Default::default() })]),
            ],
        );
        if what == 8 {
            b.extend(fresh(8).to_le_bytes());
        }
        (b, String::from_utf8(name(6)).unwrap())
    };
    let (plain, _) = make(0);
    c.input(&plain);
    c.state ^= id << 20;
    let kept = if one_sprite { Some(sprite(&plain)?) } else { None };
    let mut n = 0;
    let mut s = 0u64;
    let mut live = Vec::with_capacity(6);
    let mut buf = vec![0u8; 256];
    let mut work = |af: &AsepriteFile, asked: &str| {
        for i in 0..af.image_count() {
            s = s.wrapping_mul(3) + af.load_image(i, &mut buf).is_ok() as u64;
        }
        let named = af.select_layers_by_name(&[asked, "Layer"]);
        let mask = af.select_layers(|l| l.name == asked || l.opacity < 100);
        for f in 0..af.frames().len() {
            for sel in [&LayerSelection::Visible, &LayerSelection::All, &named, &mask] {
                s = s.wrapping_mul(3) + af.render_frame(f, &mut buf, sel).is_ok() as u64;
            }
            s = s.wrapping_mul(3) + af.combined_frame_image(f, &mut buf).is_ok() as u64;
        }
    };
    for _ in 0..6 {
        for _ in 0..40 {
            n += 1;
            let (b, asked) = make(n);
            match (&kept, AsepriteFile::load(&b)) {
                (Some(af), _) => work(af, &asked),
                (None, Ok(af)) => work(&af, &asked),
                (None, Err(e)) => drop(black_box(e.to_string())),
            }
        }
        live.push(alloc::live());
    }
    ensure!(
        live[5] <= live[2],
        "120 further pieces of content (kind {what}) leave {} bytes in use",
        live[5] - live[2]
    );
    c.count("pieces of content", n);
    Ok(s)
}

pub fn c30(t: Tier) -> Vec<Driver> {
    let len = tier(t, 3, 4);
    vec![
        Driver::new("bomb", 0, "small images whose stream expands to 1, 3 or 32 MiB, whole, cut or damaged", bomb),
        Driver::new("neighbour", 0, "a small image beside one that declares itself huge and is not concerned", neighbour),
        Driver::new("far", 0, "two one-pixel cels at every pair of extreme places x z-index x canvas shape", far),
        Driver::new("crowd", 0, "one pixel among many large images, in one frame or in many, linked or not", crowd),
        Driver::new("kept", 0, "load, every sequence of operations, drop: six rounds on sound and broken files", move |c| {
            kept(c, len)
        }),
        Driver::new("novel", 0, "240 times new pixels, names, places, palettes, texts, requests, broken streams or broken files", novel),
        Driver::new("reused", 0, "every sequence of operations on one sprite, six rounds", move |c| reused(c, len + 1)),
    ]
}
