//! Drivers of the sprite-level properties other than compositing.
use super::mutate::{spoiled, string_chunk, STRINGS};
use super::parse::{late, outcome, LATE, LATE_AT, LATE_FAULTS};
use super::tier;
use crate::enc::*;
use crate::explore::*;
use crate::gen::*;
use crate::refcomp::{self, Sel};
use crate::refp::RErr;
use crate::{bad, cmp, ensure, lift, Tier};
use aseprite_loader::binary::file::parse_file;
use aseprite_loader::loader::{AsepriteFile, LayerSelection, LoadImageError, LoadSpriteError};

/// Two frames, three layers, raw, compressed and linked cels.
pub fn rgba_sprite() -> Vec<u8> {
    sprite_file(&mut Ctx::plain())
}
pub fn indexed_sprite() -> Vec<u8> {
    file(
        &Header { depth: 8, width: 3, height: 2, transparent: 2, ..Default::default() },
        &[
            Frame::new(vec![
                std_palette(),
                layer(&Layer { flags: 9, ..Default::default() }),
                layer(&Layer { blend: 1, opacity: 77, ..Default::default() }),
                cel(&image_cel(0, 0, 0, 3, 2, &[0, 1, 2, 3, 4, 255], true)),
                cel(&image_cel(1, 1, -1, 2, 2, &[9, 2, 8, 254], false)),
            ]),
            Frame::new(vec![cel(&Cel { layer: 1, x: 0, content: Content::Link(0), ..Default::default() })]),
        ],
    )
}
/// A loadable sprite in which every field is a choice point.
pub fn sprite_file(c: &mut Ctx) -> Vec<u8> {
    let h = gen_header(c, &Header { width: 3, height: 2, ..Default::default() });
    let mut f0 = vec![std_palette()];
    f0.push(gen_layer(c, Layer { name: b"L0".to_vec(), ..Default::default() }));
    f0.push(gen_layer(c, Layer { ty: 1, name: b"group".to_vec(), ..Default::default() }));
    f0.push(gen_layer(c, Layer { level: 1, name: b"L2".to_vec(), blend: 1, opacity: 99, ..Default::default() }));
    f0.push(gen_cel(c, image_cel(0, 0, 0, 3, 2, &pixels(24, 3), true), 3, 2));
    f0.push(gen_cel(c, image_cel(2, 1, -1, 2, 2, &pixels(16, 5), false), 3, 2));
    f0.push(gen_tags(c));
    f0.push(gen_slice(c, 3, "s0"));
    let f0 = gen_frame(c, 100, &f0);
    let f1 = vec![
        gen_cel(c, Cel { layer: 0, x: -1, y: 1, content: Content::Link(0), ..Default::default() }, 3, 2),
        gen_cel(c, image_cel(2, 0, 0, 1, 2, &pixels(8, 9), true), 3, 2),
        gen_slice(c, 0, "s1"),
    ];
    let f1 = gen_frame(c, 0x1234, &f1);
    file_raw(&h, &[f0, f1])
}

/// Everything a sprite with deviating fields shows.
pub fn fields(c: &mut Ctx) -> Res {
    let b = sprite_file(c);
    full(c, &b)
}

// ---------------------------------------------------------------- C10

/// Load, then compare every image and every frame with the model.
pub fn full(c: &mut Ctx, b: &[u8]) -> Res {
    c.input(b);
    match cmp::load(b)? {
        Ok(l) => {
            c.count("loaded", 1);
            let a = cmp::images(&l, 0, 0x11)?;
            Ok(a ^ cmp::renders(&l)?)
        }
        Err(e) => {
            c.count("rejected", 1);
            Ok(hash(format!("{e:?}").as_bytes()))
        }
    }
}
fn slot(c: &mut Ctx, layer: u16, id: u8, frames: u16) -> Option<Vec<u8>> {
    let k = c.all("slot", frames as usize + 5);
    let (x, y) = (id as i16 % 3 - 1, id as i16 % 2);
    let px = [id.wrapping_mul(40).wrapping_add(7), 255 - id, id, 200];
    match k {
        0 => None,
        1 => Some(cel(&image_cel(layer, x, y, 1, 1, &px, false))),
        2 => Some(cel(&image_cel(layer, x, y, 1, 1, &px, true))),
        3 => Some(cel(&Cel { layer, x, y, content: Content::Link(65535), ..Default::default() })),
        k => Some(cel(&Cel { layer, x, y, content: Content::Link(k as u16 - 4), ..Default::default() })),
    }
}
pub fn c10(t: Tier) -> Vec<Driver> {
    let grid = move |c: &mut Ctx, nf: u16, nl: u16| -> Res {
        let mut fs = vec![];
        for f in 0..nf {
            let mut ch = vec![];
            if f == 0 {
                for _ in 0..nl {
                    ch.push(layer(&Layer::default()));
                }
            }
            for l in 0..nl {
                if let Some(x) = slot(c, l, (f * nl + l + 1) as u8, nf) {
                    ch.push(x);
                }
            }
            fs.push(Frame::new(ch));
        }
        let b = file(&Header { width: 3, height: 3, ..Default::default() }, &fs);
        full(c, &b)
    };
    let mut v = vec![
        Driver::new("twice", 0, "up to three cels of one frame on two layers, of every content, equal but for one attribute", |c| {
            let b = super::parse::twice(c);
            full(c, &b)
        }),
        Driver::new("shapes", 0, "links between four layers and three frames whose images have the same bytes but not the same shape", |c| {
            let px: Vec<u8> = (1..=8).collect();
            let mut fs = vec![];
            for f in 0..3 {
                let mut ch = vec![];
                if f == 0 {
                    ch.extend((0..4).map(|_| layer(&Layer { opacity: 200, ..Default::default() })));
                }
                for l in [0u16, 2] {
                    ch.push(cel(&image_cel(l, l as i16 - 1, 1, 2 - f % 2, 1 + f % 2, &px, l == 2)));
                }
                for l in [1u16, 3] {
                    match c.all("slot", 6) {
                        0 => {}
                        1 => ch.push(cel(&image_cel(l, 0, 0, 2, 1, &px, false))),
                        2 => ch.push(cel(&image_cel(l, 0, 0, 1, 2, &px, false))),
                        k => ch.push(cel(&Cel { layer: l, x: 1, content: Content::Link(k as u16 - 3), ..Default::default() })),
                    }
                }
                fs.push(Frame::new(ch));
            }
            let b = file(&Header { width: 3, height: 3, ..Default::default() }, &fs);
            full(c, &b)
        }),
        Driver::new("mixture", 0, "every combination of the kinds of the parts of a file and of what follows them", |c| {
            let b = super::parse::mixture(c);
            full(c, &b)
        }),
        Driver::new("factors", 0, "every combination of depth, palette, compression, link, flags, group, mode, opacities, z-index, place and size of a cel", |c| {
            let b = super::render::factors(c);
            full(c, &b)
        }),
        Driver::new("late-items", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            full(c, &b)
        }),
        Driver::new("3x2", 0, "3 frames x 2 layers, every slot empty, raw, compressed or linked to any existing or missing frame", move |c| grid(c, 3, 2)),
        Driver::new("4x1", 0, "4 frames x 1 layer, every slot arbitrary", move |c| grid(c, 4, 1)),
        Driver::new("2x3", 0, "2 frames x 3 layers, every slot arbitrary", move |c| grid(c, 2, 3)),
        Driver::new("kinds", 0, "links to slots of every kind: image, link, tilemap, unknown, empty; any colour depth", |c| {
            let content = |c: &mut Ctx| match c.all("content", 7) {
                0 => None,
                1 => Some(Content::Raw { w: 0, h: 0, data: vec![] }),
                2 => Some(Content::Raw { w: 1, h: 1, data: vec![1] }),
                3 => Some(Content::Zlib { w: 1, h: 1, data: zlib(&[1, 2, 3, 4]) }),
                4 => Some(Content::Tilemap { w: 1, h: 1, bits: 32, id: 1, x: 2, y: 4, d: 8, reserved: 0, data: vec![] }),
                5 => Some(Content::Unknown { ty: 7, data: vec![1, 2] }),
                _ => Some(Content::Link(1)),
            };
            let depth = c.all_of("depth", &[32u16, 16, 8, 5]);
            let mut f0 = vec![std_palette(), layer(&Layer::default()), layer(&Layer::default())];
            let mut f1 = vec![];
            if let Some(x) = content(c) {
                f0.push(cel(&Cel { layer: 0, content: x, ..Default::default() }));
            }
            if let Some(x) = content(c) {
                f0.push(cel(&Cel { layer: 1, content: x, ..Default::default() }));
            }
            for layer in [0, 1] {
                let f = c.all("link", 4) as u16;
                if f < 3 {
                    f1.push(cel(&Cel { layer, x: 1, y: -1, opacity: 7, content: Content::Link(f), ..Default::default() }));
                }
            }
            let b = file(&Header { depth, width: 2, height: 2, ..Default::default() }, &[Frame::new(f0), Frame::new(f1)]);
            full(c, &b)
        }),
        Driver::new("repeat", 0, "frames that repeat a layer: the last cel is the one that counts, for links and link targets", |c| {
            let mut fs = vec![];
            let mut id = 0;
            for f in 0..3 {
                let mut ch = vec![];
                if f == 0 {
                    ch.push(layer(&Layer::default()));
                    ch.push(layer(&Layer::default()));
                }
                for _ in 0..2 {
                    id += 1;
                    let layer = c.all("layer", 2) as u16;
                    let (x, y) = (id as i16 % 2, id as i16 / 3);
                    let content = match c.all("content", 4) {
                        0 => Content::Raw { w: 1, h: 1, data: vec![id * 30, 1, 2, 255] },
                        k => Content::Link(k as u16 - 1),
                    };
                    ch.push(cel(&Cel { layer, x, y, content, ..Default::default() }));
                }
                fs.push(Frame::new(ch));
            }
            let b = file(&Header { width: 3, height: 3, ..Default::default() }, &fs);
            full(c, &b)
        }),
        Driver::new("many-frames", 0, "300 frames: links across 8-bit boundaries, forwards and backwards", |c| {
            let stored = c.all_of("stored frame", &[0u16, 1, 127, 128, 255, 256, 257, 299]);
            let target = c.all("linked frame", 303) as u16;
            let from = c.all_of("linking frame", &[0u16, 1, 128, 255, 256, 298]);
            let mut fs: Vec<Frame> = vec![Frame::new(vec![]); 300];
            fs[0].chunks.push(layer(&Layer::default()));
            // A decoy at the low byte of the stored frame.
            for (f, id) in [((stored & 0xff) as usize, 50u8), (stored as usize, 200)] {
                fs[f].chunks.push(cel(&image_cel(0, 0, 0, 1, 1, &[id, id, 1, 255], false)));
            }
            fs[from as usize].chunks.push(cel(&Cel { layer: 0, content: Content::Link(target), ..Default::default() }));
            let b = file(&Header { width: 1, height: 1, ..Default::default() }, &fs);
            c.input(&b);
            let r = cmp::load(&b)?;
            if let Ok(l) = &r {
                cmp::images(l, 0, 1)?;
                if l.s.frames[from as usize].1.len() == 1 {
                    cmp::render(l, from as usize, &Sel::All, &[0; 4])?;
                }
            }
            Ok(outcome(&r.map(|_| ())))
        }),
        Driver::new("many-layers", 0, "260 layers: links on layers across 8-bit boundaries", |c| {
            let stored = c.all_of("stored layer", &[0u16, 1, 2, 127, 128, 254, 255, 256, 257, 259]);
            let linking = c.all("linking layer", 260) as u16;
            let target = c.all("linked frame", 3) as u16;
            let mut f0: Vec<Vec<u8>> = vec![layer(&Layer::default()); 260];
            f0.push(cel(&image_cel(stored, 0, 0, 1, 1, &[1, 2, 3, 255], false)));
            let f1 = vec![
                cel(&image_cel(stored ^ 1, 0, 0, 1, 1, &[4, 5, 6, 255], true)),
                cel(&Cel { layer: linking, x: 0, content: Content::Link(target), ..Default::default() }),
            ];
            let b = file(&Header { width: 1, height: 1, ..Default::default() }, &[Frame::new(f0), Frame::new(f1)]);
            full(c, &b)
        }),
        Driver::new("late", 0, "65538 frames: links name frames by their 16-bit number", |c| {
            let stored = c.all_of("stored frame", &[0usize, 1, 65534, 65535, 65536]);
            let target = c.all_of("linked frame", &[0u16, 1, 2, 65534, 65535]);
            let mut fs: Vec<Frame> = vec![Frame::new(vec![]); 65538];
            fs[0].chunks.push(layer(&Layer::default()));
            fs[stored].chunks.push(cel(&image_cel(0, 0, 0, 1, 1, &[1, 2, 3, 255], false)));
            fs[65537].chunks.push(cel(&Cel { layer: 0, content: Content::Link(target), ..Default::default() }));
            let b = file(&Header { width: 1, height: 1, ..Default::default() }, &fs);
            c.input(&b);
            Ok(outcome(&cmp::load(&b)?.map(|_| ())))
        }),
    ];
    if t == Tier::Thorough {
        v.push(Driver::new("5x1", 0, "5 frames x 1 layer, every slot arbitrary", move |c| grid(c, 5, 1)));
        v.push(Driver::new("2x4", 0, "2 frames x 4 layers, every slot arbitrary", move |c| grid(c, 2, 4)));
        v.push(Driver::new("7x1", 0, "7 frames x 1 layer, every slot arbitrary", move |c| grid(c, 7, 1)));
    }
    v
}

// ---------------------------------------------------------------- C11

/// The 256 colours as the crate assembles them, and what decoding makes of them.
fn palette_views(c: &mut Ctx, h: &Header, frames: &[Frame]) -> Res {
    let mut fs = frames.to_vec();
    let px: Vec<u8> = (0..=255).collect();
    let px: Vec<u8> = match h.depth {
        32 => px.iter().flat_map(|v| [*v, 1, 2, 3]).collect(),
        16 => px.iter().flat_map(|v| [*v, 9]).collect(),
        _ => px,
    };
    fs[0].chunks.push(layer(&Layer::default()));
    fs[0].chunks.push(cel(&image_cel(0, 0, 0, 16, 16, &px, false)));
    let h = Header { width: 16, height: 16, ..h.clone() };
    let b = file(&h, &fs);
    c.input(&b);
    let f = cmp::file(&b)?;
    let o = outcome(&f);
    let l = cmp::load(&b)?;
    if let Ok(l) = &l {
        c.count("palettes decoded", l.s.palette.is_some() as u64);
        return Ok(o ^ cmp::images(l, 0, 0xee)?);
    }
    Ok(o)
}
fn colours(n: usize, seed: u8) -> Vec<[u8; 4]> {
    (0..n).map(|i| [(i as u8).wrapping_mul(3).wrapping_add(seed), seed, i as u8, if i % 3 == 1 { 100 } else { 255 }]).collect()
}
fn pal_chunk(kind: usize, seed: u8) -> Vec<u8> {
    let six = |n: usize| -> Vec<[u8; 3]> { (0..n).map(|i| [(i % 64) as u8, (i as u8).wrapping_mul(5).wrapping_add(seed) % 64, 63 - (i % 64) as u8]).collect() };
    let eight = |n: usize| -> Vec<[u8; 3]> { (0..n).map(|i| [i as u8 ^ seed, 200, seed]).collect() };
    match kind {
        0 => palette_from(0, &colours(4, seed)),
        1 => palette_from(2, &colours(1, seed)),
        2 => palette_from(254, &colours(2, seed)),
        3 => {
            // Named entries, palette size unrelated to the range.
            let c = colours(3, seed);
            palette(999, 1, 3, &[(c[0], Some(b"n")), (c[1], None), (c[2], Some(b""))])
        }
        4 => palette_from(0, &colours(256, seed)),
        5 => old_palette(OLD04, &[(0, 3, eight(3))]),
        6 => old_palette(OLD04, &[(1, 2, eight(2)), (2, 1, eight(1))]),
        7 => old_palette(OLD04, &[]),
        8 => old_palette(OLD04, &[(0, 0, eight(256))]),
        9 => old_palette(OLD04, &[(255, 2, eight(2))]),
        10 => old_palette(OLD11, &[(0, 4, six(4))]),
        11 => old_palette(OLD11, &[(3, 1, six(1)), (0, 2, six(2))]),
        12 => old_palette(OLD11, &[(0, 0, six(256)), (0, 1, six(1))]),
        13 => old_palette(OLD11, &[]),
        _ => layer(&Layer::default()),
    }
}
pub fn c11(t: Tier) -> Vec<Driver> {
    let len = tier(t, 3usize, 4);
    vec![
        Driver::new("factors", 0, "every combination of depth, palette, compression, link, flags, group, mode, opacities, z-index, place and size of a cel", |c| {
            let b = super::render::factors(c);
            full(c, &b)
        }),
        Driver::new("backgrounds", 0, "background layers and others: every depth, transparent index, alpha, palette kind and way of storing a cel", |c| {
            let b = super::render::backgrounds(c);
            full(c, &b)
        }),
        Driver::new("late", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            full(c, &b)
        }),
        Driver::new("sequences", 0, "every sequence of palette chunks of all kinds, spread over two frames", move |c| {
            let n = c.all("chunks", len + 1);
            let split = c.all("second frame from", n + 1);
            let mut f = [vec![], vec![]];
            for i in 0..n {
                let k = c.all("palette chunk", 15);
                f[(i >= split) as usize].push(pal_chunk(k, 17 * (i as u8 + 1)));
            }
            let [a, b] = f;
            palette_views(c, &Header { depth: 8, transparent: 2, ..Default::default() }, &[Frame::new(a), Frame::new(b)])
        }),
        Driver::new("ranges", 0, "every first x last colour index of a palette chunk", |c| {
            let first = c.all("first", 256) as u32;
            let last = c.all("last", 256) as u32;
            let base = c.all("on top of", 2);
            if base == 1 && (first > 7 && first < 248) {
                return Ok(0);
            }
            let n = last.saturating_sub(first) as usize + 1;
            let e: Vec<_> = colours(n, 99).into_iter().map(|x| (x, None)).collect();
            let mut ch = vec![];
            if base == 1 {
                ch.push(palette_from(0, &colours(256, 1)));
            }
            ch.push(palette(n as u32, first, last, &e));
            palette_views(c, &Header { depth: 8, transparent: 0, ..Default::default() }, &[Frame::new(ch)])
        }),
        Driver::new("resizes", 0, "three palette chunks of several ranges and declared sizes: sizes never drop a colour", |c| {
            let mut ch = vec![];
            for i in 0..3u8 {
                let (first, last) = c.all_of("range", &[(0u32, 0u32), (0, 3), (2, 5), (5, 5), (0, 255), (200, 255)]);
                let n = last - first + 1;
                let size = c.all_of("size", &[n, last + 1, 0, 1, 4, 256]);
                let e: Vec<_> = colours(n as usize, 20 * i + 1).into_iter().map(|x| (x, None)).collect();
                ch.push(palette(size, first, last, &e));
            }
            let (a, b) = if c.all("third chunk in another frame", 2) == 1 { (ch[..2].to_vec(), ch[2..].to_vec()) } else { (ch, vec![]) };
            palette_views(c, &Header { depth: 8, transparent: 1, ..Default::default() }, &[Frame::new(a), Frame::new(b)])
        }),
        Driver::new("bounds", 0, "first and last colour indices beyond 255", |c| {
            let v = [0u32, 1, 255, 256, 257, 511, 65535, 65536, 0x01000000, 0x7fffffff, 0xffffffff];
            let (first, last) = (c.all_of("first", &v), c.all_of("last", &v));
            let size = c.all_of("size", &[0u32, 1, 256, 257, 0xffffffff]);
            let have = c.all_of("entries", &[0usize, 1, 255, 256, 257]);
            let e: Vec<_> = colours(have, 5).into_iter().map(|x| (x, None)).collect();
            let depth = c.all_of("depth", &[8u16, 32]);
            palette_views(
                c,
                &Header { depth, ..Default::default() },
                &[Frame::new(vec![palette(size, first, last, &e)])],
            )
        }),
        Driver::new("packets", 0, "every skip x colour count of an old palette packet, both kinds, followed by a second packet", |c| {
            let ty = c.all_of("kind", &[OLD04, OLD11]);
            let skip = c.all("skip", 256) as u8;
            let n = c.all("colours", 256) as u8;
            let cols = |k: usize| -> Vec<[u8; 3]> { (0..k).map(|i| [i as u8 % 64, 63 - i as u8 % 64, 7]).collect() };
            let k = if n == 0 { 256 } else { n as usize };
            let mut p = vec![(skip, n, cols(k))];
            if let Some(s) = c.all_of("second packet", &[None, Some(0u8), Some(1), Some(255)]) {
                p.push((s, 1, vec![[60, 50, 40]]));
            }
            palette_views(
                c,
                &Header { depth: 8, transparent: 255, ..Default::default() },
                &[Frame::new(vec![old_palette(ty, &p)])],
            )
        }),
        Driver::new("skips", 0, "three packets with boundary skips: skipping is cumulative", |c| {
            let ty = c.all_of("kind", &[OLD04, OLD11]);
            let mut p = vec![];
            for i in 0..3u8 {
                let s = c.all_of("skip", &[0u8, 1, 2, 63, 64, 127, 128, 250, 255]);
                let n = c.all_of("colours", &[1u8, 2, 64, 128, 0]);
                let k = if n == 0 { 256 } else { n as usize };
                p.push((s, n, (0..k).map(|j| [j as u8 % 64, i, 33]).collect()));
            }
            palette_views(c, &Header { depth: 8, transparent: 7, ..Default::default() }, &[Frame::new(vec![old_palette(ty, &p)])])
        }),
        Driver::new("levels", 0, "every colour level in every channel, all three palette kinds", |c| {
            let kind = c.all("kind", 3);
            let v = c.all("level", if kind == 1 { 64 } else { 256 }) as u8;
            let ch = c.all("channel", 4);
            let mut x = [10u8, 20, 30, 40];
            x[ch] = v;
            let p = match kind {
                0 => old_palette(OLD04, &[(0, 1, vec![[x[0], x[1], x[2]]])]),
                1 => old_palette(OLD11, &[(0, 1, vec![[x[0], x[1], x[2]]])]),
                _ => palette_from(0, &[x]),
            };
            palette_views(c, &Header { depth: 8, transparent: 1, ..Default::default() }, &[Frame::new(vec![p])])
        }),
        Driver::new("transparent", 0, "every transparent index x palette kind x colour depth", |c| {
            let depth = c.all_of("depth", &[8u16, 16, 32, 7]);
            let ti = c.all("transparent index", 256) as u8;
            let k = c.all("palette", 16);
            let mut ch = vec![];
            if k < 15 {
                ch.push(pal_chunk(k, 3));
            }
            palette_views(c, &Header { depth, transparent: ti, ..Default::default() }, &[Frame::new(ch)])
        }),
        Driver::new("colour-count", 0, "the header's colour count never matters", |c| {
            let n = c.all_of("colour count", &[0u16, 1, 2, 3, 255, 256, 257, 65535]);
            let k = c.all("palette", 15);
            let flags = c.all_of("header flags", &[0u32, 1, 3, 7]);
            let p = pal_chunk(k, 9);
            palette_views(
                c,
                &Header { depth: 8, colors: n, flags, transparent: 3, ..Default::default() },
                &[Frame::new(vec![p])],
            )
        }),
    ]
}

// ---------------------------------------------------------------- C12

fn one_image(depth: u16, w: u16, h: u16, data: Vec<u8>, z: bool) -> Vec<u8> {
    let content = if z { Content::Zlib { w, h, data } } else { Content::Raw { w, h, data } };
    file(
        &Header { depth, width: w, height: h, transparent: 3, ..Default::default() },
        &[Frame::new(vec![std_palette(), layer(&Layer::default()), cel(&Cel { content, ..Default::default() })])],
    )
}
pub fn bpp(depth: u16) -> usize {
    match depth {
        32 => 4,
        16 => 2,
        _ => 1,
    }
}
fn decode_all(c: &mut Ctx, b: &[u8], extra: usize) -> Res {
    c.input(b);
    let l = cmp::must_load(b)?;
    let h = cmp::images(&l, extra, 0)?;
    let _ = cmp::images(&l, extra, 0xa5)?;
    c.count("decoded", l.s.images.len() as u64);
    Ok(h)
}
pub fn c12(t: Tier) -> Vec<Driver> {
    let max = tier(t, 5usize, 9);
    vec![
        Driver::new("factors", 0, "every combination of depth, palette, compression, link, flags, group, mode, opacities, z-index, place and size of a cel", |c| {
            let b = super::render::factors(c);
            full(c, &b)
        }),
        Driver::new("backgrounds", 0, "background layers and others: every depth, transparent index, alpha, palette kind and way of storing a cel", |c| {
            let b = super::render::backgrounds(c);
            full(c, &b)
        }),
        Driver::new("late", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            full(c, &b)
        }),
        Driver::new("sizes", 0, "depth x encoding x width x height x missing or surplus bytes", move |c| {
            let depth = c.all_of("depth", &[32u16, 16, 8, 24]);
            let z = c.all("compressed", 2) == 1;
            let (w, h) = (c.all("width", max), c.all("height", max));
            let n = w * h * bpp(depth);
            let d = c.all_of("surplus", &[0i64, -1, 1, -2, 2, -3, 3, -4, 4, 8, -8, 1000]);
            let n2 = n as i64 + d;
            if n2 < 0 {
                return Ok(0);
            }
            let px = pixels(n2 as usize, (w * 16 + h) as u8);
            let data = if z { zlib(&px) } else { px };
            let b = one_image(depth, w as u16, h as u16, data, z);
            let e = c.all_of("buffer surplus", &[0usize, 1, 4, 100]);
            decode_all(c, &b, e)
        }),
        Driver::new("extents", 0, "every width or height up to 300 with a short other side", move |c| {
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let z = c.all("compressed", 2) == 1;
            let (a, b) = (c.all("long side", 301), c.all_of("short side", &[1usize, 2, 3, 8]));
            let (w, h) = if c.all("upright", 2) == 1 { (b, a) } else { (a, b) };
            let px = pixels(w * h * bpp(depth), (w * 16 + h) as u8);
            let data = if z { zlib(&px) } else { px };
            let b = one_image(depth, w as u16, h as u16, data, z);
            decode_all(c, &b, 0)
        }),
        Driver::new("values", 0, "every grey value x alpha, every palette index x transparent index, every byte in every RGBA channel", |c| {
            let z = c.all("compressed", 2) == 1;
            let (depth, ti, px): (u16, u8, Vec<u8>) = match c.all("depth", 3) {
                0 => {
                    let v = c.all("grey", 256) as u8;
                    (16, 0, (0..=255).flat_map(|a| [v, a]).collect())
                }
                1 => (8, c.all("transparent index", 256) as u8, (0..=255).collect()),
                _ => {
                    let (k, v) = (c.all("channel", 4), c.all("base", 256) as u8);
                    (
                        32,
                        0,
                        (0..=255u8)
                            .flat_map(|i| {
                                let mut p = [v, v ^ 0x55, !v, v.wrapping_add(3)];
                                p[k] = i;
                                p
                            })
                            .collect(),
                    )
                }
            };
            let data = if z { zlib(&px) } else { px };
            let content = if z { Content::Zlib { w: 16, h: 16, data } } else { Content::Raw { w: 16, h: 16, data } };
            let b = file(
                &Header { depth, width: 16, height: 16, transparent: ti, ..Default::default() },
                &[Frame::new(vec![std_palette(), layer(&Layer::default()), cel(&Cel { content, ..Default::default() })])],
            );
            decode_all(c, &b, 0)
        }),
        Driver::new("streams", 0, "zlib encoders: every level, stored blocks of every split, trailing bytes, wrong header or checksum", |c| {
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let (w, h) = c.all_of("size", &[(0u16, 0u16), (1, 1), (3, 2), (7, 5), (40, 30)]);
            let n = w as usize * h as usize * bpp(depth);
            let px: Vec<u8> = match c.all("content", 3) {
                0 => vec![0; n],
                1 => pixels(n, 1),
                _ => (0..n).map(|i| (i / 9) as u8).collect(),
            };
            let mut d = match c.all("encoder", 3) {
                0 => {
                    let l = c.all("level", 10);
                    zlib_level(&px, l as u32)
                }
                1 => zlib_stored(&px),
                _ => {
                    // Several stored blocks, empty ones between.
                    let k = 1 + c.all("block size", 4);
                    let mut v = vec![0x78, 0x9c];
                    for b in px.chunks(k * 7) {
                        v.u8(0).u16(0).u16(0xffff);
                        v.u8(0).u16(b.len() as u16).u16(!(b.len() as u16)).raw(b);
                    }
                    v.u8(1).u16(0).u16(0xffff);
                    let s = zlib_stored(&px);
                    v.raw(&s[s.len() - 4..]);
                    v
                }
            };
            match c.all("damage", 5) {
                0 => {}
                1 => {
                    let k = c.all_of("trailing", &[1usize, 2, 4, 100]);
                    d.fill(k, 0xcc);
                }
                2 => {
                    let n = d.len();
                    d[n - 1] ^= 1;
                }
                3 => d[0] ^= 1 << c.all("header bit", 8),
                _ => d[1] ^= 1 << c.all("header bit", 8),
            }
            let b = one_image(depth, w, h, d, true);
            decode_all(c, &b, 3)
        }),
        Driver::new("corrupt", 0, "every byte of a compressed image replaced by every value; every truncation", |c| {
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let px = pixels(3 * 2 * bpp(depth), 4);
            let mut d = match c.all("encoder", 3) {
                0 => zlib_level(&px, 9),
                1 => zlib_stored(&px),
                _ => zlib_level(&vec![7; px.len()], 9),
            };
            if c.all("truncate", 2) == 1 {
                let n = c.all("length", d.len());
                d.truncate(n);
            } else {
                let at = c.all("offset", d.len());
                d[at] = c.all("byte", 256) as u8;
            }
            let b = one_image(depth, 3, 2, d, true);
            decode_all(c, &b, 0)
        }),
        Driver::new("large", 0, "images across 8- and 16-bit size limits and beyond the zlib window", |c| {
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let (w, h) = c.all_of(
                "size",
                &[(255u16, 1u16), (256, 1), (257, 1), (1, 256), (256, 256), (257, 255), (300, 300), (65535, 1), (1, 65535), (32768, 2), (2, 32768), (500, 700)],
            );
            let n = w as usize * h as usize * bpp(depth);
            let mut px: Vec<u8> = (0..n as u32).map(|i| (i.wrapping_mul(2654435761) >> 13) as u8).collect();
            match c.all("surplus", 3) {
                0 => {}
                1 => px.push(0),
                _ => {
                    px.pop();
                }
            }
            let z = c.all("encoding", 3);
            let d = match z {
                0 => px,
                1 => zlib_stored(&px),
                _ => zlib_level(&px, 6),
            };
            let b = one_image(depth, w, h, d, z > 0);
            decode_all(c, &b, 5)
        }),
        Driver::new("empty-blocks", 0, "streams with very many empty blocks before, between and after the data", |c| {
            const N: [usize; 9] = [0, 1, 2, 50, 820, 1639, 3300, 6600, 13_200];
            let kind = c.all("empty block", 2);
            let (before, between, after) = (c.all_of("before", &N), c.all_of("between", &[0usize, 1, 3300]), c.all_of("after", &N));
            if before.min(after) > 50 {
                return Ok(0);
            }
            let px = pixels(4 * 4 * 4, 5);
            let mut v = vec![0x78, 0x9c];
            let empty = |v: &mut Vec<u8>, n: usize| {
                for _ in 0..n {
                    match kind {
                        0 => v.u8(0).u16(0).u16(0xffff),
                        // A block of fixed codes that ends at once, then a stored one to get back to a byte boundary.
                        _ => v.raw(&[0x02, 0x00]).raw(&[0, 0, 0xff, 0xff]),
                    };
                }
            };
            let block = |v: &mut Vec<u8>, b: &[u8]| {
                v.u8(0).u16(b.len() as u16).u16(!(b.len() as u16)).raw(b);
            };
            empty(&mut v, before);
            block(&mut v, &px[..30]);
            empty(&mut v, between);
            block(&mut v, &px[30..]);
            empty(&mut v, after);
            v.u8(1).u16(0).u16(0xffff);
            let s = zlib_stored(&px);
            v.raw(&s[s.len() - 4..]);
            let b = one_image(32, 4, 4, v, true);
            decode_all(c, &b, 3)
        }),
        #[cfg(feature = "inner")]
        Driver::new("decompress", 0, "the decompression function alone: every stream length x target length, levels, splits, truncations, trailing bytes", move |c| {
            let n = c.all("stream holds", 40);
            let m = c.all("target", 40);
            let level = c.all("encoder", 4);
            let px = if level == 1 { vec![5; n] } else { pixels(n, 9) };
            let mut d = if level == 2 { zlib_stored(&px) } else { zlib_level(&px, [1, 9, 0, 0][level]) };
            let (whole, cut) = (d.len(), c.all("cut or extend", 12));
            match cut {
                0 => {}
                k @ 1..=8 => d.truncate(whole - k),
                k => {
                    d.fill([1, 4, 300][k - 9], 0xcc);
                }
            }
            c.input(&d);
            c.state ^= (m as u64) << 40;
            let start: Vec<u8> = (0..m).map(|i| px.get(i).map_or(0xee, |p| !p)).collect();
            let mut t = start.clone();
            let r = aseprite_loader::loader::decompress(&d, &mut t);
            let ok = n == m && !(1..=8).contains(&cut);
            match r {
                Ok(()) => {
                    ensure!(ok, "{} of {whole} stream bytes holding {n} bytes decompress into {m}", d.len());
                    ensure!(t == px, "wrong bytes");
                    Ok(1)
                }
                Err(e) => {
                    ensure!(!ok, "a valid stream of {n} bytes does not decompress into {m}: {e:?}");
                    Ok(2)
                }
            }
        }),
        Driver::new("placement", 0, "file and buffer at every offset from a 16-byte boundary", placement),
        Driver::new("order", 0, "several images of different sizes in one sprite keep their own pixels", |c| {
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let mut fs = vec![];
            for f in 0..2 {
                let mut ch = vec![];
                if f == 0 {
                    ch.push(std_palette());
                    ch.extend(vec![layer(&Layer::default()); 3]);
                }
                for l in 0..3u16 {
                    let (w, h) = c.all_of("size", &[(2u16, 1u16), (1, 2), (0, 3)]);
                    let px = pixels(w as usize * h as usize * bpp(depth), (f * 3 + l) as u8 * 9);
                    ch.push(cel(&image_cel(l, 0, 0, w, h, &px, (f + l) % 2 == 0)));
                }
                fs.push(Frame::new(ch));
            }
            let b = file(&Header { depth, width: 2, height: 2, ..Default::default() }, &fs);
            decode_all(c, &b, 0)
        }),
    ]
}

/// The same bytes at every memory offset, decoded into buffers at every offset.
fn placement(c: &mut Ctx) -> Res {
    let depth = c.all_of("depth", &[32u16, 16, 8]);
    let z = c.all("compressed", 2) == 1;
    let (w, h) = c.all_of("size", &[(1u16, 1u16), (2, 1), (3, 1), (4, 1), (1, 5), (7, 1), (4, 2), (3, 3), (16, 1), (17, 1), (8, 8)]);
    let (from, to) = (c.all("offset of the file", 16), c.all("offset of the buffer", 16));
    let px = pixels(w as usize * h as usize * bpp(depth), 3);
    let f = one_image(depth, w, h, if z { zlib(&px) } else { px }, z);
    let at = |v: &Vec<u8>, o: usize| (16 - v.as_ptr() as usize % 16) % 16 + o;
    let mut store = vec![0u8; f.len() + 64];
    let o = at(&store, from);
    store[o..o + f.len()].copy_from_slice(&f);
    let b = &store[o..o + f.len()];
    c.input(&f);
    let l = cmp::must_load(b)?;
    let need = w as usize * h as usize * 4;
    let mut t = vec![0x21u8; need + 64];
    let o = at(&t, to);
    let r = l.af.load_image(0, &mut t[o..o + need]);
    ensure!(r.is_ok(), "decoding fails: {r:?}");
    let want = cmp::ref_image(&l.s, 0).map_err(|e| format!("{e:?}")).expect("valid image");
    ensure!(t[o..o + need] == want.concat(), "the pixels depend on where file and buffer lie in memory");
    ensure!(t[..o].iter().chain(&t[o + need..]).all(|x| *x == 0x21), "decoding wrote outside the buffer");
    let mut t = vec![0x21u8; need + 64];
    let o = at(&t, to);
    let start = t[o..o + need].to_vec();
    let r = l.af.render_frame(0, &mut t[o..o + need], &LayerSelection::All);
    cmp::rendered(&l.s, 0, &Sel::All, &start, &t[o..o + need], need, r)
}

// ---------------------------------------------------------------- C19

const TOO_SMALL: &str = "TargetBufferTooSmall";
fn is_small(r: &Result<(), LoadImageError>) -> bool {
    matches!(r, Err(e) if cmp::err_name(e) == TOO_SMALL)
}
fn fill(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + 5) as u8).collect()
}
#[allow(deprecated)]
pub fn c19(t: Tier) -> Vec<Driver> {
    let top = tier(t, 5usize, 8);
    vec![
        Driver::new("lengths", 0, "every buffer length from zero to beyond the required size, for decoding, rendering and hashing", move |c| {
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let (w, h) = (c.all("width", top) as u16, c.all("height", top) as u16);
            let z = c.all("compressed", 2) == 1;
            let fault = c.all("pixel data fault", 3);
            let n = w as usize * h as usize * bpp(depth);
            let px = pixels(n + (fault == 1) as usize, 3);
            let mut data = if z { zlib(&px) } else { px };
            if fault == 2 {
                data.truncate(data.len() / 2);
            }
            let b = one_image(depth, w, h, data, z);
            let need = w as usize * h as usize * 4;
            let len = c.all("buffer", need + 10);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let start = fill(len);
            for op in 0..3 {
                let mut buf = start.clone();
                let r = match op {
                    0 => l.af.load_image(0, &mut buf),
                    1 => l.af.render_frame(0, &mut buf, &LayerSelection::All),
                    _ => l.af.combined_frame_image(0, &mut buf).map(|_| ()),
                };
                if len < need {
                    ensure!(is_small(&r), "operation {op} with a buffer of {len} bytes instead of {need}: {r:?}");
                    ensure!(buf == start, "operation {op} refused the buffer but modified it");
                } else {
                    ensure!(!is_small(&r), "operation {op} refuses a buffer of {len} bytes, {need} are enough");
                    ensure!(buf[need..] == start[need..], "operation {op} wrote beyond {need} bytes");
                    // Same result as with the exact length.
                    let mut b2 = start[..need].to_vec();
                    let r2 = match op {
                        0 => l.af.load_image(0, &mut b2),
                        1 => l.af.render_frame(0, &mut b2, &LayerSelection::All),
                        _ => l.af.combined_frame_image(0, &mut b2).map(|_| ()),
                    };
                    ensure!(
                        format!("{r:?}") == format!("{r2:?}") && b2 == buf[..need],
                        "operation {op}: the result depends on the buffer's length"
                    );
                }
            }
            if len >= need {
                cmp::image(&l, 0, len - need, 0x21)?;
                cmp::render(&l, 0, &Sel::All, &start)?;
            }
            Ok((len < need) as u64 + fault as u64 * 2)
        }),
        Driver::new("extents", 0, "images of every extent up to 40 (thorough: 100) in one direction, buffers of many lengths", move |c| {
            let top = tier(t, 40, 100);
            let n = 1 + c.all("extent", top) as u16;
            let m = 1 + c.all("other extent", 3) as u16;
            let (w, h) = if c.all("direction", 2) == 1 { (m, n) } else { (n, m) };
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let z = c.all("compressed", 2) == 1;
            let px = pixels(w as usize * h as usize * bpp(depth), 3);
            let b = one_image(depth, w, h, if z { zlib(&px) } else { px }, z);
            let need = w as usize * h as usize * 4;
            let len = (need as i64 + c.all_of("missing or surplus", &[-1i64, 0, 1, 3, 4, 15, 16, 17, 64, 4096, -4, -16])).max(0) as usize;
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let start = fill(len);
            for op in 0..3 {
                let mut buf = start.clone();
                let r = match op {
                    0 => l.af.load_image(0, &mut buf),
                    1 => l.af.render_frame(0, &mut buf, &LayerSelection::All),
                    _ => l.af.combined_frame_image(0, &mut buf).map(|_| ()),
                };
                if len < need {
                    ensure!(is_small(&r), "operation {op} with a buffer of {len} bytes instead of {need}: {r:?}");
                    ensure!(buf == start, "operation {op} refused the buffer but modified it");
                } else {
                    ensure!(r.is_ok(), "operation {op} fails on a buffer of {len} bytes, {need} are enough: {r:?}");
                    ensure!(buf[need..] == start[need..], "operation {op} wrote beyond {need} bytes");
                }
            }
            if len >= need {
                cmp::image(&l, 0, len - need, 0x21)?;
                cmp::render(&l, 0, &Sel::All, &start)?;
            }
            Ok((len < need) as u64)
        }),
        Driver::new("placement", 0, "file and buffer at every offset from a 16-byte boundary", placement),
        Driver::new("huge", 0, "declared sizes up to 65535 x 65535 with small buffers: no wrap-around in the size check", |c| {
            let v = [0u16, 1, 2, 181, 182, 255, 256, 257, 4096, 16384, 23170, 32768, 46341, 65535];
            let (w, h) = (c.all_of("width", &v), c.all_of("height", &v));
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let z = c.all("compressed", 2) == 1;
            let need = w as u64 * h as u64 * 4;
            let len = c.all_of("buffer", &[0usize, 1, 3, 4, 5, 64, 65535, 65536, 262143, 262144]);
            let b = one_image(depth, w, h, if z { zlib(&[1; 64]) } else { vec![1; 64] }, z);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let start = fill(len);
            if (len as u64) < need {
                for op in 0..3 {
                    let mut buf = start.clone();
                    let r = match op {
                        0 => l.af.load_image(0, &mut buf),
                        1 => l.af.render_frame(0, &mut buf, &LayerSelection::All),
                        _ => l.af.combined_frame_image(0, &mut buf).map(|_| ()),
                    };
                    ensure!(is_small(&r), "operation {op} with a buffer of {len} bytes instead of {need}: {r:?}");
                    ensure!(buf == start, "operation {op} refused the buffer but modified it");
                }
            } else {
                let mut buf = start.clone();
                let r = l.af.load_image(0, &mut buf);
                ensure!(!is_small(&r), "a buffer of {len} bytes is refused, {need} are enough");
                ensure!(buf[need as usize..] == start[need as usize..], "decoding wrote beyond {need} bytes");
            }
            Ok(((len as u64) < need) as u64)
        }),
        Driver::new("canvas", 0, "rendering cels that stick out of the canvas, buffers longer than the canvas: nothing outside is written", |c| {
            let (cw, ch) = c.all_of("canvas", &[(2u16, 2u16), (1, 3), (3, 1), (0, 2), (2, 0)]);
            let (w, h) = c.all_of("cel", &[(1u16, 1u16), (3, 3), (2, 4), (5, 1)]);
            let (ox, oy) = (c.all("x", 11) as i16 - 5, c.all("y", 11) as i16 - 5);
            let mode = c.all_of("mode", &[0u16, 16]);
            let b = file(
                &Header { width: cw, height: ch, ..Default::default() },
                &[Frame::new(vec![
                    layer(&Layer { blend: mode, ..Default::default() }),
                    cel(&image_cel(0, ox, oy, w, h, &pixels(w as usize * h as usize * 4, 8), false)),
                ])],
            );
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let need = cw as usize * ch as usize * 4;
            let mut o = 0;
            for extra in [0, 1, 4, 4 * cw as usize, 64] {
                o ^= cmp::render(&l, 0, &Sel::All, &fill(need + extra))?;
            }
            Ok(o)
        }),
        Driver::new("empty-frame", 0, "frames without cels and selections without layers still check the buffer and write nothing", |c| {
            let (w, h) = (c.all("width", 4) as u16, c.all("height", 4) as u16);
            let len = c.all("buffer", 45);
            let sel = c.all("selection", 3);
            let b = file(
                &Header { width: w, height: h, ..Default::default() },
                &[
                    Frame::new(vec![layer(&Layer::default())]),
                    Frame::new(vec![cel(&image_cel(0, 0, 0, 1, 1, &[9, 9, 9, 255], false))]),
                ],
            );
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let s = match sel {
                0 => LayerSelection::Visible,
                1 => LayerSelection::All,
                _ => LayerSelection::Mask(vec![]),
            };
            let need = w as usize * h as usize * 4;
            for f in 0..2 {
                let start = fill(len);
                let mut buf = start.clone();
                let r = l.af.render_frame(f, &mut buf, &s);
                if len < need {
                    ensure!(is_small(&r), "rendering an empty frame into {len} of {need} bytes: {r:?}");
                    ensure!(buf == start, "refused buffer was modified");
                } else {
                    ensure!(r.is_ok(), "rendering failed: {r:?}");
                    if f == 0 || sel == 2 {
                        ensure!(buf == start, "nothing is painted, but the buffer changed");
                    }
                }
            }
            Ok((len < need) as u64)
        }),
    ]
}

// ---------------------------------------------------------------- C20

/// Two sprites: one intact, one with a corrupt image and an unknown blend mode.
fn history_files() -> [Vec<u8>; 2] {
    let a = {
        let mut f0 = vec![
            layer(&Layer { name: b"a".to_vec(), ..Default::default() }),
            layer(&Layer { name: b"b".to_vec(), blend: 13, opacity: 180, ..Default::default() }),
        ];
        f0.push(cel(&image_cel(0, 0, 0, 2, 2, &pixels(16, 1), true)));
        f0.push(cel(&image_cel(1, 1, 0, 2, 1, &pixels(8, 2), false)));
        let f1 = vec![
            cel(&Cel { layer: 0, content: Content::Link(0), ..Default::default() }),
            cel(&image_cel(1, 0, 1, 1, 1, &pixels(4, 6), true)),
        ];
        file(&Header { width: 2, height: 2, ..Default::default() }, &[Frame::new(f0), Frame::new(f1)])
    };
    let b = {
        let mut broken = zlib(&[1, 2, 3, 4]);
        broken.truncate(9);
        let f0 = vec![
            std_palette(),
            layer(&Layer { name: b"a".to_vec(), ..Default::default() }),
            layer(&Layer { name: b"c".to_vec(), blend: 77, ..Default::default() }),
            cel(&image_cel(0, 0, 0, 2, 2, &[1, 2, 3, 4], true)),
            cel(&Cel { layer: 1, content: Content::Zlib { w: 2, h: 2, data: broken }, ..Default::default() }),
        ];
        let f1 = vec![cel(&Cel { layer: 0, x: 1, content: Content::Link(0), ..Default::default() })];
        file(&Header { depth: 8, width: 2, height: 2, ..Default::default() }, &[Frame::new(f0), Frame::new(f1)])
    };
    [a, b]
}
const OPS: usize = 20;
/// Everything a loaded sprite shows to its user.
fn digest(f: &AsepriteFile<'_>) -> String {
    let layers: Vec<_> = f.layers().iter().map(|l| (&l.name, l.opacity, l.blend_mode, l.visible, l.layer_type)).collect();
    let frames: Vec<_> = f
        .frames()
        .iter()
        .map(|f| {
            let cels: Vec<_> = f.cels.iter().map(|c| (c.origin, c.size, c.opacity, c.layer_index, c.image_index)).collect();
            (f.duration, f.origin, cels)
        })
        .collect();
    let tags: Vec<_> = f.tags().iter().map(|t| (&t.name, &t.range, t.direction, t.repeat)).collect();
    let images: Vec<_> = f.images.iter().map(|i| (i.width, i.height, i.data, i.compressed)).collect();
    format!("{:?} {:?} {layers:?} {frames:?} {tags:?} {images:?} {}", f.size(), crate::lift::file(&f.file), f.slices().len())
}
fn digests(f: &Result<AsepriteFile<'_>, LoadSpriteError>) -> String {
    match f {
        Ok(f) => digest(f),
        Err(e) => format!("{e:?}"),
    }
}
/// Operation `op` of one of the sprites, as a comparable value.
#[allow(deprecated)]
fn op_result(f: &[AsepriteFile<'_>; 2], data: &[Vec<u8>; 2], op: usize) -> String {
    let (s, k) = (op & 1, op >> 1);
    let f = &f[s];
    let mut buf = [0x40u8; 19];
    match k {
        0 | 1 => {
            let r = f.load_image(k.min(f.image_count() - 1), &mut buf);
            format!("{r:?} {buf:?}")
        }
        2 => {
            let r = f.load_image(0, &mut buf[..15]);
            format!("{r:?} {buf:?}")
        }
        3 => {
            let r = f.render_frame(0, &mut buf, &LayerSelection::Visible);
            format!("{r:?} {buf:?}")
        }
        4 => {
            let r = f.render_frame(1, &mut buf, &LayerSelection::All);
            format!("{r:?} {buf:?}")
        }
        5 => {
            let sel = f.select_layers_by_name(&["a"]);
            let r = f.render_frame(0, &mut buf, &sel);
            format!("{r:?} {buf:?} {sel:?}")
        }
        6 => {
            let r = f.combined_frame_image(1, &mut buf);
            format!("{r:?} {buf:?}")
        }
        7 => {
            let r = f.render_frame(0, &mut buf[..3], &LayerSelection::All);
            format!("{r:?} {buf:?}")
        }
        8 => {
            let g = AsepriteFile::load(&data[s]);
            digests(&g)
        }
        _ => {
            // A load that fails.
            let g = AsepriteFile::load(&data[s][..data[s].len() - 5]);
            format!("{:?} {}", g.is_ok(), digest(f))
        }
    }
}
/// Sprites that differ from the first in exactly one respect and are all equally long.
fn variants() -> Vec<Vec<u8>> {
    let make = |k: usize| {
        let is = |n: usize| (k == n) as u8;
        let mut pal: Vec<[u8; 4]> = (0..8).map(|i| [i * 30, 200 - i * 9, i, 255]).collect();
        pal[2][0] += is(1);
        let es: Vec<([u8; 4], Option<&[u8]>)> = pal.iter().map(|p| (*p, None)).collect();
        let px = |n: u8| [1 + n, 2, 3, 4 + n];
        let stream = zlib_level(&px(is(2)), 0);
        let f0 = vec![
            palette(8, 0, 7, &es),
            layer(&Layer { name: vec![b'a' + is(3)], opacity: 255 - is(4), ..Default::default() }),
            layer(&Layer { name: vec![b'b'], flags: 1 - is(5) as u16, blend: is(6) as u16, ..Default::default() }),
            cel(&Cel { content: Content::Zlib { w: 2, h: 2, data: stream }, opacity: 255 - is(7), ..Default::default() }),
            cel(&image_cel(1, 1 - is(8) as i16, 0, 2, 1, &[5, 6 + is(9)], false)),
        ];
        let f1 = vec![cel(&Cel { layer: 0, x: 1, z: is(10) as i16, content: Content::Link(0), ..Default::default() })];
        file(
            &Header { depth: 8, width: 2, height: 2, transparent: 3 + is(11), ..Default::default() },
            &[Frame { duration: 100 + is(12) as u16, ..Frame::new(f0) }, Frame::new(f1)],
        )
    };
    let v: Vec<_> = (0..13).map(make).collect();
    assert!(v.iter().all(|b| b.len() == v[0].len()));
    v
}
const VOPS: usize = 6;
#[allow(deprecated)]
fn variant_result(b: &[u8], op: usize) -> String {
    let f = match AsepriteFile::load(b) {
        Ok(f) => f,
        Err(e) => return format!("{e:?}"),
    };
    let mut buf = [0x40u8; 19];
    match op {
        0 => digest(&f),
        1 | 2 => {
            let r = f.load_image(op - 1, &mut buf);
            format!("{r:?} {buf:?}")
        }
        3 => {
            let r = f.combined_frame_image(0, &mut buf);
            format!("{r:?} {buf:?}")
        }
        4 => {
            let r = f.render_frame(1, &mut buf, &LayerSelection::All);
            format!("{r:?} {buf:?}")
        }
        _ => {
            let sel = f.select_layers_by_name(&["a"]);
            let r = f.render_frame(0, &mut buf, &sel);
            format!("{r:?} {buf:?} {sel:?}")
        }
    }
}
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

mod auto {
    //! Detects auto traits without failing to compile when they are missing.
    use std::marker::PhantomData;
    pub struct W<T>(pub PhantomData<T>);
    pub trait No {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    impl<T> No for W<T> {}
    pub struct S<T>(pub PhantomData<T>);
    impl<T> No for S<T> {}
    impl<T: Send> W<T> {
        pub const SEND: bool = true;
    }
    impl<T: Sync> S<T> {
        pub const SYNC: bool = true;
    }
}
/// Small sprites that differ in everything an operation could leave behind.
fn shared_files() -> Vec<Vec<u8>> {
    let rgba = |zip: bool| {
        file(
            &Header { width: 2, height: 1, ..Default::default() },
            &[Frame::new(vec![
                layer(&Layer { name: b"a".to_vec(), opacity: 180, ..Default::default() }),
                layer(&Layer { name: b"b".to_vec(), blend: 13, opacity: 90, ..Default::default() }),
                cel(&image_cel(0, 1, 0, 1, 1, &[200, 100, 50, 230], zip)),
                cel(&image_cel(1, 0, 0, 2, 1, &[20, 110, 150, 130, 40, 60, 80, 90], zip)),
            ])],
        )
    };
    let indexed = |zip: bool| {
        let es: Vec<([u8; 4], Option<&[u8]>)> = vec![([1, 2, 3, 4], None), ([50, 60, 70, 80], None), ([9, 99, 199, 255], None)];
        file(
            &Header { depth: 8, width: 1, height: 1, transparent: 1, ..Default::default() },
            &[Frame::new(vec![
                palette(3, 0, 2, &es),
                layer(&Layer { name: b"b".to_vec(), flags: 9, ..Default::default() }),
                cel(&Cel { opacity: 77, ..image_cel(0, 0, 0, 1, 1, &[1], zip) }),
            ])],
        )
    };
    let gray = |zip: bool| {
        file(
            &Header { depth: 16, width: 1, height: 2, flags: 0, ..Default::default() },
            &[Frame::new(vec![
                layer(&Layer { name: b"a".to_vec(), opacity: 3, blend: 18, ..Default::default() }),
                cel(&image_cel(0, 0, 1, 1, 1, &[77, 88], zip)),
            ])],
        )
    };
    vec![rgba(false), indexed(false), gray(false), rgba(true), indexed(true), gray(true)]
}
/// What an operation gives, kept as it is: describing it takes place later.
enum Out<'a> {
    Pixels(Result<u64, LoadImageError>, [u8; 17]),
    File(Result<AsepriteFile<'a>, LoadSpriteError>),
    Selection(LayerSelection),
}
#[derive(Debug, PartialEq)]
enum Key {
    Pixels(Result<u64, std::mem::Discriminant<LoadImageError>>, [u8; 17]),
    Text(String),
}
impl Out<'_> {
    fn key(&self) -> Key {
        match self {
            Out::Pixels(r, b) => Key::Pixels(r.as_ref().map(|n| *n).map_err(std::mem::discriminant), *b),
            Out::File(f) => Key::Text(digests(f)),
            Out::Selection(s) => Key::Text(format!("{s:?}")),
        }
    }
}
const SHARED_OPS: usize = 5;
#[allow(deprecated)]
fn shared_op<'a>(f: &AsepriteFile<'_>, data: &'a [u8], op: usize) -> Out<'a> {
    let mut buf = [0x40; 17];
    match op {
        0 => Out::Pixels(f.render_frame(0, &mut buf, &LayerSelection::All).map(|_| 0), buf),
        1 => Out::Pixels(f.load_image(f.image_count() - 1, &mut buf).map(|_| 0), buf),
        2 => Out::Pixels(f.combined_frame_image(0, &mut buf), buf),
        3 => Out::File(AsepriteFile::load(data)),
        _ => Out::Selection(f.select_layers_by_name(&["b"])),
    }
}
/// One operation is stopped while another thread runs a second one: before
/// every instruction, or before any one of them.
fn preempt(c: &mut Ctx, once: Option<Tier>) -> Res {
    use super::interleave::{run, Plan};
    use std::sync::OnceLock;
    type Fresh = (Vec<Vec<u8>>, Vec<Key>, std::sync::Mutex<std::collections::HashMap<usize, usize>>);
    static FRESH: OnceLock<Fresh> = OnceLock::new();
    let (data, fresh, lengths) = FRESH.get_or_init(|| {
        let data = shared_files();
        let fresh = (0..data.len() * SHARED_OPS)
            .map(|i| {
                let b = &data[i / SHARED_OPS];
                shared_op(&AsepriteFile::load(b).unwrap(), b, i % SHARED_OPS).key()
            })
            .collect();
        (data, fresh, Default::default())
    });
    let n = match once {
        None => data.len(),
        Some(_) => 3,
    };
    let (x, y) = (c.all("sprite", n), c.all("other sprite", n));
    let ops: &[usize] = match once {
        None => &[0, 1, 2, 3, 4],
        Some(Tier::Quick) => &[0],
        Some(Tier::Thorough) => &[0, 1, 2, 3],
    };
    let (op, other) = (c.all_of("operation", ops), c.all_of("other operation", ops));
    let f = Share([AsepriteFile::load(&data[x]).unwrap(), AsepriteFile::load(&data[y]).unwrap()]);
    let [fx, _] = f.get();
    let lim = |k: &Key| cmp::lim(&format!("{k:?}"));
    let second = || {
        // The same sprite twice is one sprite that both threads share.
        let fy = if x == y { &f.get()[0] } else { &f.get()[1] };
        let r = shared_op(fy, &data[y], other).key();
        let e = &fresh[y * SHARED_OPS + other];
        if r != *e {
            return Err(format!("operation {other} on sprite {y} during operation {op} on sprite {x} gives {} instead of {}", lim(&r), lim(e)));
        }
        Ok(())
    };
    let plan = match once {
        None => Plan::Everywhere,
        Some(_) => {
            let mut l = lengths.lock().unwrap();
            let len = *l.entry(x * SHARED_OPS + op).or_insert_with(|| {
                let (_, n, _, _) = run(Plan::Nowhere, || shared_op(fx, &data[x], op), || Ok(()));
                (n as usize).next_multiple_of(64)
            });
            drop(l);
            Plan::At(c.all("instruction", len.max(1)) as u64)
        }
    };
    c.input(&[x as u8, y as u8, op as u8, other as u8]);
    let (r, points, ran, complaint) = run(plan, || shared_op(fx, &data[x], op), second);
    c.count("instructions traced", points);
    c.count("preemptions", ran);
    c.visit(points);
    let Ok(r) = r else { bad!("operation {op} on sprite {x} panics while operation {other} on sprite {y} runs on another thread") };
    if let Some(e) = complaint {
        return Err(Bad(e));
    }
    let r = r.key();
    let e = &fresh[x * SHARED_OPS + op];
    ensure!(r == *e, "operation {op} on sprite {x} gives {} instead of {} when operation {other} on sprite {y} runs meanwhile", lim(&r), lim(e));
    Ok(hash(format!("{r:?}").as_bytes()))
}
pub fn c20(t: Tier) -> Vec<Driver> {
    let depth = tier(t, 3usize, 4);
    vec![
        Driver::new("sequences", 0, "every sequence of operations on two sprites gives the results of freshly loaded sprites", move |c| {
            use std::sync::OnceLock;
            static FRESH: OnceLock<([Vec<u8>; 2], Vec<String>)> = OnceLock::new();
            let (data, fresh) = FRESH.get_or_init(|| {
                let data = history_files();
                let fresh = (0..OPS)
                    .map(|op| {
                        let f = [AsepriteFile::load(&data[0]).unwrap(), AsepriteFile::load(&data[1]).unwrap()];
                        op_result(&f, &data, op)
                    })
                    .collect();
                (data, fresh)
            });
            let f = [AsepriteFile::load(&data[0]).unwrap(), AsepriteFile::load(&data[1]).unwrap()];
            let mut seq = vec![];
            for _ in 0..depth {
                let op = c.all("operation", OPS + 1);
                if op == OPS {
                    break;
                }
                seq.push(op as u8);
                let r = op_result(&f, data, op);
                if r != fresh[op] {
                    bad!("after {seq:?} operation {op} gives {} instead of {}", cmp::lim(&r), cmp::lim(&fresh[op]));
                }
            }
            c.input(&seq);
            Ok(hash(&seq))
        }),
        Driver::new("all-after", 0, "after every pair of operations every operation still gives its fresh result", |c| {
            let data = history_files();
            let f = [AsepriteFile::load(&data[0]).unwrap(), AsepriteFile::load(&data[1]).unwrap()];
            let g = [AsepriteFile::load(&data[0]).unwrap(), AsepriteFile::load(&data[1]).unwrap()];
            let seq = [c.all("operation", OPS), c.all("operation", OPS)];
            for &op in &seq {
                let _ = op_result(&f, &data, op);
            }
            for op in 0..OPS {
                let (a, b) = (op_result(&f, &data, op), op_result(&g, &data, op));
                ensure!(a == b, "after {seq:?} operation {op} gives {} instead of {}", cmp::lim(&a), cmp::lim(&b));
            }
            c.input(&[seq[0] as u8, seq[1] as u8]);
            Ok(0)
        }),
        Driver::new("threads", 0, "every pair of operations, each on either of two other threads sharing the sprites", |c| {
            let data = history_files();
            let f = Share([AsepriteFile::load(&data[0]).unwrap(), AsepriteFile::load(&data[1]).unwrap()]);
            let seq = [c.all("operation", OPS), c.all("operation", OPS)];
            let th = [0, c.all("second on the same thread", 2)];
            let run = |k: usize| -> Vec<(usize, String)> {
                let f = f.get();
                (0..2).filter(|i| th[*i] == k).map(|i| (seq[i], op_result(f, &data, seq[i]))).collect()
            };
            for k in 0..2 {
                let rs = std::thread::scope(|s| s.spawn(|| Share(run(k))).join()).map(|r| r.0);
                let Ok(rs) = rs else { bad!("panic in operations {seq:?} on another thread") };
                for (op, r) in rs {
                    let g = [AsepriteFile::load(&data[0]).unwrap(), AsepriteFile::load(&data[1]).unwrap()];
                    let e = op_result(&g, &data, op);
                    ensure!(r == e, "operation {op} on thread {k} gives {} instead of {}", cmp::lim(&r), cmp::lim(&e));
                }
            }
            c.input(&[seq[0] as u8, seq[1] as u8, th[1] as u8]);
            Ok(0)
        }),
        Driver::new("preempt-everywhere", 0, "every pair of operations: the second runs on another thread before every instruction of the first", |c| preempt(c, None)).threads(1),
        Driver::new("preempt-once", 0, "every pair of short operations: the first is stopped before any one instruction while the second runs on another thread", move |c| {
            preempt(c, Some(t))
        })
        .threads(1),
        Driver::new("in-place", 0, "sprites of the same length loaded one after the other in the same memory", move |c| {
            use std::sync::OnceLock;
            static FRESH: OnceLock<(Vec<Vec<u8>>, Vec<String>)> = OnceLock::new();
            let (data, fresh) = FRESH.get_or_init(|| {
                let data = variants();
                let fresh = (0..data.len() * VOPS).map(|k| variant_result(&data[k / VOPS], k % VOPS)).collect();
                (data, fresh)
            });
            let mut buf = data[0].clone();
            let mut seq = vec![];
            for i in 0..depth {
                if i > 0 && c.all("stop", 2) == 1 {
                    break;
                }
                let (v, op) = (c.all("sprite", data.len()), c.all("operation", VOPS));
                buf.copy_from_slice(&data[v]);
                seq.push(v as u8);
                seq.push(op as u8);
                let r = variant_result(&buf, op);
                let e = &fresh[v * VOPS + op];
                ensure!(r == *e, "after {seq:?} (sprite, operation) the last gives {} instead of {}", cmp::lim(&r), cmp::lim(e));
            }
            c.input(&seq);
            Ok(hash(&seq))
        }),
        Driver::new("repeat", 0, "after any number of repetitions of one operation every operation still gives its fresh result", move |c| {
            let data = history_files();
            let f = [AsepriteFile::load(&data[0]).unwrap(), AsepriteFile::load(&data[1]).unwrap()];
            let op = c.all("repeated operation", OPS);
            let n = c.all_of("times", tier(t, &[16, 64, 127, 128, 255, 256, 257, 1024], &[16, 64, 127, 128, 255, 256, 257, 1024, 4096, 66000]));
            let first = op_result(&f, &data, op);
            for i in 1..n {
                let r = op_result(&f, &data, op);
                ensure!(r == first, "repetition {i} of operation {op} gives {} instead of {}", cmp::lim(&r), cmp::lim(&first));
            }
            for op in 0..OPS {
                let g = [AsepriteFile::load(&data[0]).unwrap(), AsepriteFile::load(&data[1]).unwrap()];
                let (a, b) = (op_result(&f, &data, op), op_result(&g, &data, op));
                ensure!(a == b, "after {n} repetitions operation {op} gives {} instead of {}", cmp::lim(&a), cmp::lim(&b));
            }
            c.input(&[op as u8]);
            Ok(n as u64)
        }),
        Driver::new("images", 0, "sprites of up to 1000 different images and frames: every order of decoding and rendering them", |c| {
            let n = c.all_of("images", &[2usize, 255, 256, 257, 300, 600, 1000]);
            let zip = c.all("compressed", 2) == 1;
            let mut fs = vec![];
            for i in 0..n {
                let mut ch = if i == 0 { vec![layer(&Layer::default())] } else { vec![] };
                ch.push(cel(&image_cel(0, 0, 0, 1, 1, &[i as u8, (i >> 8) as u8, 7, 255], zip)));
                fs.push(Frame::new(ch));
            }
            let b = file(&Header { width: 1, height: 1, ..Default::default() }, &fs);
            c.input(&b);
            let f = match AsepriteFile::load(&b) {
                Ok(f) => f,
                Err(e) => bad!("load of a valid file fails: {e:?}"),
            };
            // Where each image went is not for this property to say.
            let mut of = vec![usize::MAX; n];
            for (i, fr) in f.frames().iter().enumerate() {
                ensure!(fr.cels.len() == 1, "frame {i} has {} cels", fr.cels.len());
                of[i] = fr.cels[0].image_index;
            }
            let orders: [&dyn Fn(usize) -> usize; 5] = [&|i| i, &|i| n - 1 - i, &|i| i * 257 % n, &|i| i % 2 * (n / 2) + i / 2, &|_| n - 1];
            let (first, second) = (c.all("order", orders.len()), c.all("then", orders.len()));
            let how = c.all("how", 4);
            for (round, o) in [first, second].into_iter().enumerate() {
                for i in (0..n).map(orders[o]) {
                    let mut buf = [0xaa; 4];
                    let r = match how >> round & 1 {
                        0 => f.load_image(of[i], &mut buf),
                        _ => {
                            buf = [0; 4];
                            f.render_frame(i, &mut buf, &LayerSelection::All)
                        }
                    };
                    ensure!(r.is_ok() && buf == [i as u8, (i >> 8) as u8, 7, 255], "image {i} of {n} gives {r:?} {buf:?} in round {round}");
                }
            }
            Ok(how as u64)
        }),
        Driver::new("auto-traits", 0, "loaded sprites are Send and Sync", |c| {
            use auto::{No, S, W};
            let _ = (<W<()> as No>::SYNC, <S<()> as No>::SEND);
            let t = [
                ("AsepriteFile is Send", W::<AsepriteFile<'static>>::SEND),
                ("AsepriteFile is Sync", S::<AsepriteFile<'static>>::SYNC),
                ("LayerSelection is Send", W::<LayerSelection>::SEND),
                ("LayerSelection is Sync", S::<LayerSelection>::SYNC),
            ];
            let (what, ok) = t[c.all("trait", t.len())];
            c.input(what.as_bytes());
            ensure!(ok, "not true: {what}");
            Ok(ok as u64)
        }),
        Driver::new("reload", tier(t, 1, 2), "loading the same bytes twice gives equal sprites, images and frames", |c| {
            let b = sprite_file(c);
            c.input(&b);
            let (x, y) = (AsepriteFile::load(&b), AsepriteFile::load(&b));
            ensure!(digests(&x) == digests(&y), "two loads of the same bytes differ");
            let copy = b.clone();
            let z = AsepriteFile::load(&copy);
            ensure!(digests(&x) == digests(&z), "loads of equal bytes differ");
            let (Ok(x), Ok(_)) = (x, y) else { return Ok(0) };
            let mut o = 0;
            for i in 0..x.image_count() {
                if x.images[i].width as usize * x.images[i].height as usize > 10000 {
                    continue;
                }
                let mut p = vec![1u8; 40000];
                let mut q = vec![1u8; 40000];
                let r = x.load_image(i, &mut p);
                let s = x.load_image(i, &mut q);
                ensure!(format!("{r:?}") == format!("{s:?}") && p == q, "decoding twice differs");
                o += r.is_ok() as u64;
            }
            Ok(o)
        }),
    ]
}

// ---------------------------------------------------------------- C21

#[allow(deprecated)]
fn hashes(c: &mut Ctx, b: &[u8]) -> Res {
    c.input(b);
    let l = cmp::must_load(b)?;
    let again = AsepriteFile::load(b).expect("loads once, loads twice");
    let n = l.s.size.0 as usize * l.s.size.1 as usize * 4;
    let mut seen: Vec<(usize, u64, Vec<u8>)> = vec![];
    for f in 0..l.s.frames.len() {
        for start in [vec![0u8; n], fill(n + 3)] {
            let mut a = start.clone();
            let mut v = start.clone();
            let r = l.af.combined_frame_image(f, &mut a);
            let s = l.af.render_frame(f, &mut v, &LayerSelection::Visible);
            ensure!(r.is_ok() == s.is_ok(), "hashing call gives {r:?}, rendering the visible layers gives {s:?}");
            let h = match r {
                Ok(h) => h,
                Err(e) => {
                    ensure!(cmp::err_name(&e) == cmp::err_name(&s.unwrap_err()), "the two calls fail differently");
                    continue;
                }
            };
            ensure!(a == v, "the hashing call renders something else than the visible layers");
            cmp::rendered(&l.s, f, &Sel::Visible, &start, &a, n, Ok(()))?;
            let mut q = start.clone();
            let h2 = l.af.combined_frame_image(f, &mut q).ok();
            ensure!(h2 == Some(h), "the hash of frame {f} changes between calls");
            let h3 = again.combined_frame_image(f, &mut q).ok();
            ensure!(h3 == Some(h), "the hash of frame {f} changes between loads");
            if start.len() == n {
                seen.push((f, h, a));
            } else {
                ensure!(seen.last().map(|s| s.1) == Some(h), "the hash of frame {f} depends on the buffer's content");
            }
        }
    }
    // The same cels: same layers, images, positions, opacities.
    let key = |f: usize| -> Vec<_> {
        let mut v: Vec<_> = l.s.frames[f].1.iter().map(|k| (k.layer, k.image, k.origin, k.size, k.opacity, k.z)).collect();
        v.sort();
        v
    };
    for i in 0..seen.len() {
        for j in 0..i {
            let (fi, fj) = (seen[i].0, seen[j].0);
            if seen[i].1 == seen[j].1 {
                ensure!(seen[i].2 == seen[j].2, "frames {fj} and {fi} get equal hashes but render differently");
                c.count("equal hashes", 1);
            } else {
                ensure!(key(fi) != key(fj), "frames {fj} and {fi} have the same cels but different hashes");
                c.count("different hashes", 1);
            }
        }
    }
    Ok(seen.iter().fold(0, |a, s| a.rotate_left(9) ^ s.1))
}
#[allow(deprecated)]
pub fn c21(t: Tier) -> Vec<Driver> {
    let mut v = vec![
        Driver::new("factors", 0, "every combination of depth, palette, compression, link, flags, group, mode, opacities, z-index, place and size of a cel", |c| {
            let b = super::render::factors(c);
            hashes(c, &b)
        }),
        Driver::new("reuse", 0, "3 frames x 2 layers of stored or linked cels, equal and different images", |c| {
            let mut fs = vec![];
            for f in 0..3u16 {
                let mut ch = vec![];
                if f == 0 {
                    ch.push(layer(&Layer::default()));
                    ch.push(layer(&Layer { blend: 1, ..Default::default() }));
                }
                for l in 0..2u16 {
                    let k = c.all("cel", if f == 0 { 3 } else { 5 });
                    let content = match k {
                        0 => continue,
                        1 => Content::Raw { w: 1, h: 1, data: vec![50, 60, 70, 255] },
                        2 => Content::Raw { w: 1, h: 1, data: vec![90, 60, 70, 255] },
                        k => Content::Link(k as u16 - 3),
                    };
                    if matches!(content, Content::Link(x) if x >= f) {
                        continue;
                    }
                    ch.push(cel(&Cel { layer: l, content, ..Default::default() }));
                }
                fs.push(Frame::new(ch));
            }
            let b = file(&Header { width: 2, height: 1, ..Default::default() }, &fs);
            if cmp::ref_sprite(&b).is_err() {
                return Ok(0);
            }
            hashes(c, &b)
        }),
        Driver::new("attributes", 0, "linked cels that differ from the original in position, opacity or z-index", |c| {
            let mut f0 = vec![layer(&Layer::default()), layer(&Layer { blend: 17, ..Default::default() })];
            f0.push(cel(&image_cel(0, 0, 0, 2, 2, &[40, 80, 120, 255].repeat(4), false)));
            f0.push(cel(&image_cel(1, 0, 0, 2, 2, &[200, 10, 30, 200].repeat(4), true)));
            let mut fs = vec![Frame::new(f0)];
            for _ in 0..2 {
                let mut ch = vec![];
                for l in 0..2u16 {
                    let x = c.all_of("x", &[0i16, 1, 2]);
                    let y = if l == 0 { c.all_of("y", &[0i16, -1]) } else { 0 };
                    let opacity = c.all_of("opacity", &[255u8, 254, 0]);
                    let z = if l == 0 { c.all_of("z", &[0i16, 2]) } else { 0 };
                    ch.push(cel(&Cel { layer: l, x, y, opacity, z, content: Content::Link(0), ..Default::default() }));
                }
                fs.push(Frame::new(ch));
            }
            let b = file(&Header { width: 3, height: 3, ..Default::default() }, &fs);
            hashes(c, &b)
        }),
        Driver::new("layers", 0, "cels of equal images on different, hidden and group layers", |c| {
            let mut f0: Vec<Vec<u8>> = vec![];
            for i in 0..3u16 {
                let k = c.all("layer", 4);
                f0.push(layer(&Layer {
                    flags: (k != 1) as u16,
                    ty: (k == 2) as u16,
                    blend: if k == 3 { 10 } else { 0 },
                    opacity: 255 - i as u8 * 40,
                    ..Default::default()
                }));
            }
            let mut fs = vec![Frame::new(f0)];
            for f in 0..3 {
                let l = c.all("layer of the cel", 3) as u16;
                let ch = cel(&image_cel(l, 0, 0, 1, 1, &[90, 80, 70, 255], f == 1));
                if f == 0 {
                    fs[0].chunks.push(ch);
                } else {
                    let l2 = c.all("layer of the second cel", 4) as u16;
                    let mut v = vec![ch];
                    if l2 < 3 && l2 != l {
                        v.push(cel(&image_cel(l2, 0, 0, 1, 1, &[9, 180, 70, 155], false)));
                    }
                    fs.push(Frame::new(v));
                }
            }
            let b = file(&Header { width: 1, height: 1, ..Default::default() }, &fs);
            hashes(c, &b)
        }),
        Driver::new("sizes", 0, "images of the same bytes but different shapes and depths", |c| {
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let mut fs = vec![];
            for f in 0..3 {
                let (w, h) = c.all_of("shape", &[(4u16, 1u16), (1, 4), (2, 2), (0, 0)]);
                let n = w as usize * h as usize * bpp(depth);
                let mut ch = if f == 0 { vec![std_palette(), layer(&Layer::default())] } else { vec![] };
                let x = c.all_of("x", &[0i16, 1]);
                ch.push(cel(&image_cel(0, x, 0, w, h, &(0..n).map(|i| i as u8 * 13 | 1).collect::<Vec<_>>(), f == 2)));
                fs.push(Frame::new(ch));
            }
            let b = file(&Header { depth, width: 4, height: 4, ..Default::default() }, &fs);
            hashes(c, &b)
        }),
        Driver::new("extents", 0, "canvases of every extent up to 65535, cels at boundary positions, different images or positions", |c| {
            let long = c.all_of("long side", &[1u16, 2, 127, 128, 255, 256, 257, 32767, 32768, 32769, 40000, 65535]);
            let tall = c.all("tall", 2) == 1;
            let (w, h) = if tall { (1, long) } else { (long, 1) };
            let at = c.all_of("position", &[0i16, -1, 1, 254, 255, 256, 32766, 32767, i16::MIN]);
            let at2 = if c.all("second position", 2) == 1 { at ^ c.all_of("moved by", &[1i16, 0x100, i16::MIN]) } else { at };
            let px = c.all_of("pixel", &[1u8, 9]);
            let p = |v: i16| if tall { (0, v) } else { (v, 0) };
            let (p1, p2) = (p(at), p(at2));
            let mut fs = vec![Frame::new(vec![
                layer(&Layer::default()),
                cel(&image_cel(0, p1.0, p1.1, 1, 1, &[1, 2, 3, 255], false)),
            ])];
            fs.push(Frame::new(vec![cel(&image_cel(0, p2.0, p2.1, 1, 1, &[px, 2, 3, 255], false))]));
            fs.push(Frame::new(vec![cel(&Cel { x: p2.0, y: p2.1, content: Content::Link(0), ..Default::default() })]));
            let b = file(&Header { width: w, height: h, ..Default::default() }, &fs);
            hashes(c, &b)
        }),
        Driver::new("faults", 0, "frames that cannot be rendered: the hashing call fails exactly when rendering fails", |c| {
            let depth = c.all_of("depth", &[32u16, 8, 24]);
            let mode = c.all_of("blend", &[0u16, 77]);
            let flags = c.all_of("flags", &[1u16, 0]);
            let n = c.all("bytes", 6);
            let b = file(
                &Header { depth, width: 1, height: 1, ..Default::default() },
                &[
                    Frame::new(vec![
                        std_palette(),
                        layer(&Layer::default()),
                        layer(&Layer { flags, blend: mode, ..Default::default() }),
                        cel(&image_cel(1, 0, 0, 1, 1, &vec![3; n], false)),
                    ]),
                    Frame::new(vec![cel(&image_cel(0, 0, 0, 1, 1, &vec![3; bpp(depth)], true))]),
                ],
            );
            hashes(c, &b)
        }),
        Driver::new("many", 0, "sprites of very many different frames: no two of them share a hash", move |c| {
            // Three cels on pixels of their own, so that all frames show different images.
            let n = tier(t, 70_000u32, 400_000);
            let step = c.all_of("order", &[1u32, 7919]);
            let mut f0 = vec![layer(&Layer::default()), layer(&Layer::default()), layer(&Layer::default())];
            for l in 0..3u16 {
                f0.push(cel(&image_cel(l, l as i16, 0, 1, 1, &[1, 2, 3, 255], false)));
            }
            let mut fs = vec![Frame::new(f0)];
            for i in 0..n {
                let v = i.wrapping_mul(step) % (255 * 255 * 255);
                let o = [v % 255, v / 255 % 255, v / 65025];
                fs.push(Frame::new(
                    (0..3u16)
                        .map(|l| cel(&Cel { layer: l, x: l as i16, opacity: o[l as usize] as u8, content: Content::Link(0), ..Default::default() }))
                        .collect(),
                ));
            }
            let b = file(&Header { width: 3, height: 1, ..Default::default() }, &fs);
            c.input(&b);
            let Ok(f) = AsepriteFile::load(&b) else { bad!("a valid sprite of {n} frames does not load") };
            let mut seen = std::collections::HashMap::new();
            for i in 0..=n as usize {
                let mut t = [0u8; 12];
                match f.combined_frame_image(i, &mut t) {
                    Err(e) => bad!("frame {i} does not render: {e:?}"),
                    Ok(h) => {
                        let (j, u) = *seen.entry(h).or_insert((i, t));
                        ensure!(u == t, "frames {j} and {i} get equal hashes but render differently");
                    }
                }
            }
            c.count("different hashes", seen.len() as u64);
            Ok(seen.len() as u64)
        })
        .threads(2),
        Driver::new("surroundings", tier(t, 2, 3), "frames of the same cels in different surroundings: duration, user data, other chunks, chunk order", |c| {
            let mut fs = vec![];
            for f in 0..3u16 {
                let mut ch = vec![];
                if f == 0 {
                    ch.push(std_palette());
                    ch.push(layer(&Layer::default()));
                    ch.push(layer(&Layer { opacity: 130, ..Default::default() }));
                }
                let mut cels = vec![];
                for l in 0..2u16 {
                    let content = if f == 0 {
                        Content::Raw { w: 2, h: 1, data: pixels(8, l as u8) }
                    } else {
                        Content::Link(0)
                    };
                    let reserved = c.of("reserved bytes of a cel", &[[0u8; 5], [0xff; 5], [0, 0, 0, 0, 1]]);
                    let mut v = vec![cel(&Cel { layer: l, content, reserved, ..Default::default() })];
                    match c.pick("after the cel", 5) {
                        0 => {}
                        1 => v.push(user_text(b"data")),
                        2 => v.push(cel_extra()),
                        3 => v.push(chunk(0x3333, &[1])),
                        _ => {
                            let mut u = vec![];
                            u.u32(2).raw(&[1, 2, 3, 4]);
                            v.push(chunk(USER_DATA, &u));
                        }
                    }
                    cels.push(v.concat());
                }
                if c.flag("cels in reverse") {
                    cels.reverse();
                }
                // More than one chunk may hide in an element: count them below.
                let mut body: Vec<u8> = ch.concat();
                body.raw(&cels.concat());
                match c.pick("at the end", 6) {
                    0 => {}
                    1 => {
                        body.raw(&slice(b"s", 1));
                    }
                    2 => {
                        body.raw(&tags(&[(f, f, 0, 0, [0; 3], b"t")]));
                    }
                    3 => {
                        body.raw(&std_palette());
                    }
                    4 => {
                        body.raw(&layer(&Layer { name: b"late".to_vec(), ..Default::default() }));
                    }
                    _ => {
                        body.raw(&color_profile());
                    }
                }
                let (mut n, mut at) = (0u32, 0usize);
                while at < body.len() {
                    at += u32::from_le_bytes(body[at..at + 4].try_into().unwrap()) as usize;
                    n += 1;
                }
                body.raw(&vec![0; c.of("surplus bytes", &[0usize, 1, 16])]);
                let duration = c.of("duration", &[100u16, 0, 1, 65535]);
                let reserved = c.of("reserved bytes of the frame", &[[0u8; 2], [0xff; 2]]);
                fs.push(frame_raw(n as u16, n, duration, reserved, &body));
            }
            let b = file_raw(&Header { width: 3, height: 1, ..Default::default() }, &fs);
            hashes(c, &b)
        }),
        Driver::new("crowd", 0, "frames of many cels: the same cels again, and the same but for one", |c| {
            const NS: [usize; 24] = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 127, 128, 129, 255, 256, 257];
            let n = c.all_of("cels", &NS);
            let k = c.all("changed cel", n);
            let how = c.all("change", 4);
            let link = |l: usize| Cel { layer: l as u16, x: l as i16, content: Content::Link(0), ..Default::default() };
            let mut f0 = vec![layer(&Layer::default()); n];
            f0.extend((0..n).map(|l| cel(&image_cel(l as u16, l as i16, 0, 1, 1, &[l as u8, 2, 3, 255], false))));
            let f1 = (0..n).map(|l| cel(&link(l))).collect();
            let f2 = (0..n)
                .map(|l| {
                    let mut x = link(l);
                    if l == k {
                        match how {
                            0 => x.y = 1,
                            1 => x.opacity = 100,
                            2 => x.content = Content::Raw { w: 1, h: 1, data: vec![l as u8, 2, 200, 255] },
                            _ => x.x = -1,
                        }
                    }
                    cel(&x)
                })
                .collect();
            let b = file(
                &Header { width: n as u16, height: 2, ..Default::default() },
                &[Frame::new(f0), Frame::new(f1), Frame::new(f2)],
            );
            hashes(c, &b)
        }),
        Driver::new("long", 0, "a long animation of links: one hash per distinct frame", |c| {
            let period = 1 + c.all("period", 7);
            let mut fs = vec![];
            for f in 0..40usize {
                let mut ch = if f == 0 { vec![layer(&Layer::default())] } else { vec![] };
                if f < period {
                    ch.push(cel(&image_cel(0, 0, 0, 1, 1, &[f as u8 * 20, 1, 2, 255], false)));
                } else {
                    ch.push(cel(&Cel { content: Content::Link((f % period) as u16), ..Default::default() }));
                }
                fs.push(Frame::new(ch));
            }
            let b = file(&Header { width: 1, height: 1, ..Default::default() }, &fs);
            hashes(c, &b)
        }),
    ];
    if t == Tier::Thorough {
        v.push(
            Driver::new("fields", 2, "every field of a loadable sprite", |c| {
                let b = sprite_file(c);
                match cmp::ref_sprite(&b) {
                    Ok((_, s)) if (0..s.frames.len()).all(|f| cmp::affordable(&s, f)) && s.size.0 as usize * s.size.1 as usize <= 4096 => {
                        hashes(c, &b)
                    }
                    _ => Ok(0),
                }
            })
            .live(LAYERS | CELS),
        );
    }
    v
}

// ---------------------------------------------------------------- C25

fn expect(b: &[u8], want: &[RErr]) -> Res {
    match parse_file(b) {
        Ok(_) => bad!("a file whose only defect is {want:?} is accepted"),
        Err(e) => {
            let g = lift::err(&e);
            ensure!(want.contains(&g), "a file whose only defect is {want:?} is reported as {}", cmp::lim(&format!("{e:?}")));
            // Loading wraps it.
            let l = AsepriteFile::load(b);
            ensure!(
                matches!(&l, Err(aseprite_loader::loader::LoadSpriteError::Parse { message }) if !message.is_empty()),
                "loading reports {}",
                cmp::lim(&format!("{l:?}"))
            );
            Ok(hash(format!("{g:?}").as_bytes()))
        }
    }
}
/// Three frames of valid chunks of all kinds.
fn rich() -> Vec<Frame> {
    vec![
        Frame::new(vec![
            color_profile(),
            std_palette(),
            user_text(b"sprite"),
            layer(&Layer::default()),
            user_text(b"layer"),
            layer(&Layer { name: b"two".to_vec(), ..Default::default() }),
            cel(&image_cel(0, 0, 0, 1, 1, &[1, 2, 3, 4], false)),
            cel_extra(),
            tags(&[(0, 1, 0, 0, [0; 3], b"t")]),
            slice(b"s", 1),
        ]),
        Frame::new(vec![cel(&image_cel(1, 0, 0, 1, 1, &[1, 2, 3, 4], true)), chunk(0x7777, b"unknown"), chunk(PATH, &[])]),
        Frame::new(vec![cel(&Cel { layer: 0, content: Content::Link(0), ..Default::default() })]),
    ]
}
pub fn c25(_t: Tier) -> Vec<Driver> {
    vec![
        Driver::new("late", 0, "252 to 300 items of one kind and a defect before, between or after", |c| {
            let (b, want) = late(c, &LATE_AT, LATE_FAULTS, 3);
            c.input(&b);
            want.map_or(Ok(0), |w| expect(&b, &[w]))
        }),
        Driver::new("later", 0, "65536 items of one kind followed by a defect", |c| {
            let (b, want) = late(c, &[65536], LATE_FAULTS, 1);
            c.input(&b);
            want.map_or(Ok(0), |w| expect(&b, &[w]))
        }),
        Driver::new("sizes", 0, "every frame and every chunk in turn declares a size below its minimum", |c| {
            let fs = rich();
            let n = c.all("size", 4) as u32;
            let f = c.all("frame", fs.len());
            let k = c.all("frame itself or chunk", fs[f].chunks.len() + 1);
            let mut raw: Vec<Vec<u8>> = fs.iter().map(frame).collect();
            let want = if k == 0 {
                raw[f][..4].copy_from_slice(&n.to_le_bytes());
                RErr::FrameSize(n)
            } else {
                let at = 16 + fs[f].chunks[..k - 1].iter().map(|x| x.len()).sum::<usize>();
                raw[f][at..at + 4].copy_from_slice(&n.to_le_bytes());
                RErr::ChunkSize(n)
            };
            let b = file_raw(&Header::default(), &raw);
            c.input(&b);
            expect(&b, &[want])
        }),
        Driver::new("utf8", 0, "invalid UTF-8 of every kind in every string, in every frame, first or last chunk", |c| {
            let mut fs = rich();
            let s = spoiled(c);
            let k = c.all("string", STRINGS);
            let f = c.all("frame", fs.len());
            let at = if c.all("last", 2) == 1 { fs[f].chunks.len() } else { 0 };
            fs[f].chunks.insert(at, string_chunk(k, &s));
            let b = file(&Header::default(), &fs);
            c.input(&b);
            expect(&b, &[RErr::Utf8])
        }),
        Driver::new("palette", 0, "missing, empty, out-of-range and reversed palettes in any frame", |c| {
            let mut fs = rich();
            fs[0].chunks.remove(1);
            fs[0].chunks.remove(1);
            let f = c.all("frame", fs.len());
            let big = [256u32, 257, 65535, 65536, 0x7fffffff, 0xffffffff];
            let ty = c.all_of("old kind", &[OLD04, OLD11]);
            let mut depth = 8;
            let want = match c.all("fault", 6) {
                0 => RErr::PalMissing,
                1 => {
                    let p = c.all("packets", 2);
                    let ch = if p == 0 { vec![] } else { vec![old_palette(ty, &[])] };
                    fs[f].chunks.extend(ch);
                    fs[f].chunks.push(old_palette(ty, &[]));
                    RErr::PalEmpty
                }
                2 => {
                    // Only the last packet runs past the end, after valid packets and chunks.
                    let mut at = 0;
                    let mut ps = vec![];
                    for _ in 0..c.all("packets before", 3) {
                        let (s, n) = c.all_of("valid packet", &[(0u8, 1u8), (3, 2), (100, 20), (0, 100)]);
                        at += s as usize + n as usize;
                        ps.push((s, n, vec![[1, 2, 3]; n as usize]));
                    }
                    let (s, n) =
                        c.all_of("packet", &[(255u8, 2u8), (1, 0), (254, 3), (200, 57), (128, 129), (0, 255), (255, 255), (56, 101)]);
                    let k = if n == 0 { 256 } else { n as usize };
                    if at > 256 || at + s as usize + k <= 256 {
                        return Ok(0);
                    }
                    ps.push((s, n, vec![[1, 2, 3]; k]));
                    if c.all("valid chunk before", 2) == 1 {
                        fs[c.all("its frame", f + 1)].chunks.push(old_palette(ty, &[(0, 1, vec![[9, 9, 9]])]));
                    }
                    fs[f].chunks.push(old_palette(ty, &ps));
                    RErr::PalOob
                }
                3 => {
                    depth = c.all_of("depth", &[8u16, 32, 16]);
                    let v = c.all_of("first", &big);
                    fs[f].chunks.push(palette(1, v, c.all_of("last", &[255u32, 3]), &[([1; 4], None)]));
                    RErr::PalFirst
                }
                4 => {
                    depth = c.all_of("depth", &[8u16, 32, 16]);
                    let v = c.all_of("last", &big);
                    fs[f].chunks.push(palette(1, c.all_of("first", &[0u32, 255]), v, &[([1; 4], None)]));
                    RErr::PalLast
                }
                _ => {
                    depth = c.all_of("depth", &[8u16, 32, 16]);
                    let a = c.all_of("first", &[1u32, 2, 100, 255]);
                    let b = c.all_of("last", &[0u32, 1, 99, 254]);
                    if a <= b {
                        return Ok(0);
                    }
                    fs[f].chunks.push(palette(1, a, b, &[([1; 4], None)]));
                    RErr::PalOrder
                }
            };
            let b = file(&Header { depth, ..Default::default() }, &fs);
            c.input(&b);
            expect(&b, &[want])
        }),
        Driver::new("tags", 0, "reversed tag ranges at every position of a tag list in any frame", |c| {
            let mut fs = rich();
            let f = c.all("frame", fs.len());
            let v = [0u16, 1, 2, 255, 256, 32767, 32768, 65534, 65535];
            let (a, b) = (c.all_of("from", &v), c.all_of("to", &v));
            if a <= b {
                return Ok(0);
            }
            let n = 1 + c.all("tags", 3);
            let at = c.all("position", n);
            let l: Vec<(u16, u16, u8, u16, [u8; 3], &[u8])> =
                (0..n).map(|i| if i == at { (a, b, 0, 0, [0; 3], b"x".as_slice()) } else { (1, 1, 0, 0, [0; 3], b"y".as_slice()) }).collect();
            fs[f].chunks.push(tags(&l));
            let bb = file(&Header::default(), &fs);
            c.input(&bb);
            expect(&bb, &[RErr::TagRange(a, b)])
        }),
        Driver::new("layer-index", 0, "a cel of every kind naming a missing layer, in any frame", |c| {
            let mut fs = rich();
            let f = c.all("frame", fs.len());
            let i = c.all_of("layer index", &[2u16, 3, 4, 255, 256, 257, 32768, 65535]);
            let content = match c.all("content", 4) {
                0 => Content::Raw { w: 0, h: 0, data: vec![] },
                1 => Content::Link(0),
                2 => Content::Zlib { w: 0, h: 0, data: vec![] },
                _ => Content::Tilemap { w: 1, h: 1, bits: 32, id: 1, x: 2, y: 4, d: 8, reserved: 0, data: vec![] },
            };
            let at = if c.all("first", 2) == 1 { 0 } else { fs[f].chunks.len() };
            fs[f].chunks.insert(at, cel(&Cel { layer: i, content, ..Default::default() }));
            let b = file(&Header::default(), &fs);
            c.input(&b);
            expect(&b, &[RErr::LayerOob])
        }),
        Driver::new("properties", 0, "every unknown property type as value, vector element or nested; invalid UTF-8 in names and strings", |c| {
            let n = c.all("type", 65536 - 19);
            let n = if n == 0 { 0 } else { n + 19 } as u16;
            let place = c.all("place", 4);
            let mut m = vec![];
            m.u32(0).u32(1).str(b"p");
            let want = match place {
                0 => {
                    m.u16(n);
                    RErr::PropType(n)
                }
                1 => {
                    // Element type 0 means a mixed vector.
                    let n = n.max(20);
                    m.u16(17).u32(1).u16(n);
                    RErr::PropType(n)
                }
                2 => {
                    m.u16(17).u32(1).u16(0).u16(n);
                    RErr::PropType(n)
                }
                _ => {
                    m.u16(18).u32(0).u32(1).str(b"q").u16(n);
                    RErr::PropType(n)
                }
            };
            m.fill(8, 0);
            prop_error(c, &m, want)
        }),
        Driver::new("property-text", 0, "invalid UTF-8 in property names, strings and string vectors", |c| {
            let s = spoiled(c);
            let mut m = vec![];
            m.u32(0).u32(1);
            match c.all("place", 5) {
                0 => m.str(&s).u16(1).u8(1),
                1 => m.str(b"p").u16(13).str(&s),
                2 => m.str(b"p").u16(17).u32(2).u16(13).str(b"ok").str(&s),
                3 => m.str(b"p").u16(17).u32(1).u16(0).u16(13).str(&s),
                _ => m.str(b"p").u16(18).u32(0).u32(1).str(&s).u16(1).u8(1),
            };
            prop_error(c, &m, RErr::Utf8)
        }),
        Driver::new("images", 0, "each single defect of an image: buffer, depth, blend mode, length, stream", |c| {
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let n = 2 * 2 * bpp(depth);
            let (mut d, mut blend, mut z, mut data, mut len) = (depth, 0u16, c.all("compressed", 2) == 1, pixels(n, 2), 16usize);
            let want: &[&str] = match c.all("fault", 6) {
                0 => {
                    len = c.all("buffer", 16);
                    &["TargetBufferTooSmall"]
                }
                1 => {
                    d = c.all_of("unknown depth", &[0u16, 1, 24, 31, 33, 64, 255, 256, 65535]);
                    &["UnsupportedColorDepth"]
                }
                2 => {
                    blend = c.all_of("unknown mode", &[19u16, 20, 255, 256, 32768, 65535]);
                    &["UnsupportedBlendMode"]
                }
                3 => {
                    z = false;
                    let k = c.all_of("bytes", &[0usize, 1, n - 1, n + 1, 2 * n, 4 * n]);
                    data = pixels(k, 3);
                    &["InvalidImageData"]
                }
                4 => {
                    z = true;
                    let full = zlib(&data);
                    let k = c.all("cut", full.len());
                    data = full[..k].to_vec();
                    &["DecompressError"]
                }
                _ => {
                    z = true;
                    let full = zlib(&data);
                    let k = c.all("byte", full.len());
                    data = full;
                    data[k] ^= 0xff;
                    &["DecompressError"]
                }
            };
            let is_stream = z && matches!(want, ["DecompressError"]);
            if z && !is_stream {
                data = zlib(&data);
            }
            let content = if z { Content::Zlib { w: 2, h: 2, data } } else { Content::Raw { w: 2, h: 2, data } };
            let b = file(
                &Header { depth: d, width: 2, height: 2, ..Default::default() },
                &[Frame::new(vec![
                    std_palette(),
                    layer(&Layer { blend, ..Default::default() }),
                    cel(&Cel { content, ..Default::default() }),
                ])],
            );
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let mut buf = vec![0u8; len];
            let r = l.af.load_image(0, &mut buf);
            let s = l.af.render_frame(0, &mut buf, &LayerSelection::All);
            let blend_fault = want[0] == "UnsupportedBlendMode";
            for (what, r) in [("load_image", r), ("render_frame", s)] {
                match r {
                    Ok(()) => {
                        ensure!(blend_fault && what == "load_image", "{what} succeeds although the only defect is {want:?}")
                    }
                    Err(e) => {
                        let g = cmp::err_name(&e);
                        let ok = if blend_fault { g.contains("BlendMode") && what == "render_frame" } else { want.contains(&g.as_str()) };
                        ensure!(ok, "{what} reports {g}, the only defect is {want:?}");
                    }
                }
            }
            Ok(hash(want[0].as_bytes()))
        }),
        Driver::new("links", 0, "dangling links and cels without an image are parse errors of load, not of parse_file", |c| {
            let mut fs = rich();
            let f = c.all("frame", fs.len());
            let (layer, content) = match c.all("fault", 4) {
                0 => (0, Content::Link(c.all_of("frame", &[3u16, 4, 255, 256, 65535]))),
                1 => (1, Content::Link(0)),
                2 => (1, Content::Tilemap { w: 1, h: 1, bits: 32, id: 1, x: 2, y: 4, d: 8, reserved: 0, data: vec![] }),
                _ => (1, Content::Unknown { ty: 9, data: vec![] }),
            };
            fs[f].chunks.push(cel(&Cel { layer, content, ..Default::default() }));
            let b = file(&Header::default(), &fs);
            c.input(&b);
            ensure!(parse_file(&b).is_ok(), "the low-level view rejects the file");
            match AsepriteFile::load(&b) {
                Err(aseprite_loader::loader::LoadSpriteError::Parse { message }) => {
                    ensure!(!message.is_empty(), "empty message");
                    Ok(1)
                }
                r => bad!("load gives {}", cmp::lim(&format!("{r:?}"))),
            }
        }),
    ]
}
fn prop_error(c: &mut Ctx, m: &[u8], want: RErr) -> Res {
    let mut u = vec![];
    u.u32(5).str(b"text").u32(8 + m.len() as u32).u32(1).raw(m);
    let b = file(
        &Header::default(),
        &[Frame::new(vec![layer(&Layer::default()), chunk(USER_DATA, &u), layer(&Layer::default()), user_text(b"after")])],
    );
    c.input(&b);
    let Ok(f) = parse_file(&b) else { bad!("an error in the properties keeps the file from loading") };
    let Some(u) = &f.layers[0].user_data else { bad!("user data is missing") };
    ensure!(u.text == Some("text"), "the text is lost");
    ensure!(f.layers.len() == 2 && f.layers[1].user_data.is_some(), "what follows is lost");
    match &u.properties_maps {
        Some(Err(e)) => {
            let g = lift::err(e);
            ensure!(g == want, "properties whose only defect is {want:?} report {}", cmp::lim(&format!("{e:?}")));
            Ok(hash(format!("{g:?}").as_bytes()))
        }
        r => bad!("properties whose only defect is {want:?} give {}", cmp::lim(&format!("{r:?}"))),
    }
}

// ---------------------------------------------------------------- C26

/// Three image layers and a group, three frames; optionally damaged.
fn isolation(depth: u16, target: (usize, usize), damage: usize) -> Vec<u8> {
    let mut fs = vec![];
    for f in 0..3usize {
        let mut ch = vec![];
        if f == 0 {
            ch.push(std_palette());
            for l in 0..3usize {
                let blend = match damage {
                    5 if target.1 == l => 99,
                    _ => [0u16, 9, 17][l],
                };
                ch.push(layer(&Layer { name: vec![b'a' + l as u8], flags: if l == 1 { 0 } else { 1 }, blend, ..Default::default() }));
            }
        }
        for l in 0..3usize {
            // Layer 2 of frame 2 is empty; layer 0 of frame 1 links to frame 0.
            if (f, l) == (2, 2) {
                continue;
            }
            if (f, l) == (1, 0) {
                ch.push(cel(&Cel { layer: 0, x: 1, content: Content::Link(0), ..Default::default() }));
                continue;
            }
            let px = pixels(4 * bpp(depth), (f * 3 + l) as u8 * 7 + 1);
            let z = (f + l) % 2 == 0;
            let content = if (f, l) == target {
                match damage {
                    1 => Content::Zlib { w: 2, h: 2, data: zlib(&px)[..8].to_vec() },
                    2 => Content::Zlib { w: 2, h: 2, data: zlib(&px[1..]) },
                    3 => Content::Raw { w: 2, h: 2, data: px[1..].to_vec() },
                    4 => {
                        let mut d = px.clone();
                        d.push(7);
                        Content::Raw { w: 2, h: 2, data: d }
                    }
                    6 => {
                        let mut d = px.clone();
                        d.push(7);
                        Content::Zlib { w: 2, h: 2, data: zlib(&d) }
                    }
                    7 => {
                        let mut d = zlib_level(&px, 9);
                        let n = d.len();
                        d[n - 1] ^= 0x10;
                        Content::Zlib { w: 2, h: 2, data: d }
                    }
                    _ => image_cel(0, 0, 0, 2, 2, &px, z).content,
                }
            } else {
                image_cel(0, 0, 0, 2, 2, &px, z).content
            };
            ch.push(cel(&Cel { layer: l as u16, x: l as i16 - 1, y: f as i16 % 2, content, ..Default::default() }));
        }
        fs.push(Frame::new(ch));
    }
    file(&Header { depth, width: 3, height: 3, ..Default::default() }, &fs)
}
#[allow(deprecated)]
pub fn c26(t: Tier) -> Vec<Driver> {
    vec![
        Driver::new("factors", 0, "every combination of depth, palette, compression, link, flags, group, mode, opacities, z-index, place and size of a cel", |c| {
            let b = super::render::factors(c);
            full(c, &b)
        }),
        Driver::new("backgrounds", 0, "background layers and others: every depth, transparent index, alpha, palette kind and way of storing a cel", |c| {
            let b = super::render::backgrounds(c);
            full(c, &b)
        }),
        Driver::new("late", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            full(c, &b)
        }),
        Driver::new("fields", tier(t, 2, 3), "every field of a loadable sprite, among them wrong sizes and lengths of pixel data", fields)
            .live(LAYERS | CELS),
        Driver::new("attributes", tier(t, 2, 3), "a broken cel with deviating attributes of its own, its layer and its surroundings", broken_attributes),
        Driver::new("damage", 0, "every kind of damage to every image or layer; every image, frame and selection afterwards", |c| {
        let depth = c.all_of("depth", &[32u16, 16, 8]);
        let cells = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 0), (2, 1)];
        let target = c.all_of("target", &cells);
        let damage = 1 + c.all("damage", 7);
        // Does an operation on frame f, layer l involve the damaged image or layer?
        let hit = |f: usize, l: usize| -> bool {
            let src = if (f, l) == (1, 0) { (0, 0) } else { (f, l) };
            (f, l) != (2, 2) && if damage == 5 { l == target.1 } else { src == target }
        };
        let good = isolation(depth, target, 0);
        let broken = isolation(depth, target, damage);
        c.input(&broken);
        let (a, b) = (AsepriteFile::load(&good), AsepriteFile::load(&broken));
        let (Ok(a), Ok(b)) = (a, b) else { bad!("a sprite with a broken image does not load") };
        ensure!(a.image_count() == 7 && b.image_count() == 7, "image count");
        let mut n = 0;
        // Images, found through the cels that store them.
        for (f, l) in cells {
            let find = |x: &AsepriteFile<'_>| x.frames()[f].cels.iter().find(|k| k.layer_index == l).map(|k| k.image_index);
            let (Some(i), Some(j)) = (find(&a), find(&b)) else { bad!("cel ({f}, {l}) is missing") };
            let mut p = [3u8; 20];
            let mut q = [3u8; 20];
            let r = a.load_image(i, &mut p);
            let s = b.load_image(j, &mut q);
            ensure!(r.is_ok(), "intact image ({f}, {l}) fails: {r:?}");
            if damage != 5 && (f, l) == target {
                ensure!(s.is_err(), "the damaged image decodes without an error");
            } else {
                ensure!(s.is_ok() && p == q, "image ({f}, {l}) is affected by damage to {target:?}: {s:?}");
            }
            n += 1;
        }
        for f in 0..3 {
            for m in 0..10usize {
                let sel = match m {
                    8 => LayerSelection::Visible,
                    9 => LayerSelection::All,
                    m => LayerSelection::Mask((0..3).map(|i| m >> i & 1 == 1).collect()),
                };
                let involved = (0..3).any(|l| {
                    hit(f, l)
                        && match m {
                            8 => l != 1,
                            9 => true,
                            m => m >> l & 1 == 1,
                        }
                });
                let mut p = [9u8; 40];
                let mut q = [9u8; 40];
                let r = a.render_frame(f, &mut p, &sel);
                let s = b.render_frame(f, &mut q, &sel);
                ensure!(r.is_ok(), "intact frame {f} fails: {r:?}");
                if involved {
                    ensure!(s.is_err(), "frame {f} with {sel:?} needs the broken cel {target:?} but reports success");
                } else {
                    ensure!(s.is_ok() && p == q, "frame {f} with {sel:?} is affected by the broken cel {target:?}: {s:?}");
                }
                n += 1;
                if m == 8 {
                    let mut p = [9u8; 40];
                    let mut q = [9u8; 40];
                    let r = a.combined_frame_image(f, &mut p);
                    let s = b.combined_frame_image(f, &mut q);
                    if involved {
                        ensure!(s.is_err(), "hashing frame {f} needs the broken cel but reports success");
                    } else {
                        ensure!(s.is_ok() && r.ok() == s.ok() && p == q, "the hash of frame {f} is affected");
                    }
                }
            }
        }
        c.count("operations compared", n);
        // And again in the same sprite, after the failures, against the model.
        let l = cmp::must_load(&broken)?;
        let x = cmp::images(&l, 1, 9)? ^ cmp::renders(&l)?;
        let y = cmp::images(&l, 1, 9)? ^ cmp::renders(&l)?;
        ensure!(x == y, "results change after failures");
        Ok(x)
    })]
}
/// One broken image among good ones; every operation against the model.
fn broken_attributes(c: &mut Ctx) -> Res {
    let depth = c.all_of("depth", &[32u16, 16, 8]);
    let kind = c.all("defect", 8);
    let second = c.all("place", 2) == 1;
    let (lo, co) = (c.of("layer opacity", &[255u8, 0, 1, 128]), c.of("cel opacity", &[255u8, 0, 1, 128]));
    let (x, y) = c.of("origin", &[(0i16, 0i16), (1, 1), (-1, 0), (3, 0), (0, 2), (-2, 0), (0, -2), (32767, 32767), (-32768, 0)]);
    let (w, h) = c.of("size", &[(2u16, 2u16), (1, 1), (0, 2), (2, 0), (3, 2), (40, 1)]);
    let flags = c.of("layer flags", &[3u16, 2, 0x43, 0xb, 0x23]);
    let ty = c.of("layer type", &[0u16, 1, 3]);
    let z = c.of("z-index", &[0i16, -3, 3]);
    let blend = c.of("blend mode", &[0u16, 1, 12, 18, 19, 0xffff]);
    let header = c.of("header flags", &[1u32, 0, !0]);
    let user = c.flag("user data");
    let n = w as usize * h as usize * bpp(depth);
    let px = pixels(n, 60);
    let (z_, data) = match kind {
        0 => (false, px[..n.saturating_sub(1)].to_vec()),
        1 => (false, [px.as_slice(), &[9]].concat()),
        2 => (true, zlib(&px[..n.saturating_sub(1)])),
        3 => (true, zlib(&[px.as_slice(), &[9]].concat())),
        4 => (true, {
            let mut d = zlib(&px);
            d.truncate(d.len() - 5);
            d
        }),
        5 => (true, vec![]),
        6 => (true, {
            let mut d = zlib_stored(&px);
            let k = d.len();
            d[k - 1] ^= 0x40;
            d
        }),
        _ => (true, px.clone()),
    };
    let content = if z_ { Content::Zlib { w, h, data } } else { Content::Raw { w, h, data } };
    let good = |layer: u16, k: u8| cel(&image_cel(layer, 0, 0, 2, 2, &pixels(4 * bpp(depth), k), k % 2 == 0));
    let mut f0 = vec![
        std_palette(),
        layer(&Layer::default()),
        layer(&Layer { flags, ty, blend, opacity: lo, ..Default::default() }),
        layer(&Layer::default()),
        good(0, 1),
    ];
    let bad_cel = Cel { layer: 1, x, y, z, opacity: co, content, ..Default::default() };
    let mut f1 = vec![good(0, 4)];
    if second {
        f1.push(cel(&bad_cel));
        f0.push(cel(&Cel { x: 1, content: Content::Link(1), ..bad_cel.clone() }));
    } else {
        f0.push(cel(&bad_cel));
        f1.push(cel(&Cel { opacity: 255 - co, content: Content::Link(0), ..bad_cel }));
    }
    if user {
        f0.push(user_text(b"u"));
    }
    f0.push(good(2, 2));
    f1.push(good(2, 7));
    let f2 = vec![good(0, 8), good(2, 9)];
    let b = file(&Header { width: 2, height: 2, depth, flags: header, ..Default::default() }, &[Frame::new(f0), Frame::new(f1), Frame::new(f2)]);
    c.input(&b);
    let l = cmp::must_load(&b)?;
    let mut r = cmp::images(&l, 1, 0x77)?;
    for f in 0..3 {
        for m in 0..10usize {
            let sel = match m {
                8 => Sel::Visible,
                9 => Sel::All,
                m => Sel::Mask((0..3).map(|i| m >> i & 1 == 1).collect()),
            };
            r = r.rotate_left(3) ^ cmp::render(&l, f, &sel, &[0x21; 19])?;
        }
    }
    Ok(r)
}

// ---------------------------------------------------------------- C27

fn sprite_view(c: &mut Ctx, b: &[u8]) -> Res {
    c.input(b);
    let r = cmp::load(b)?;
    if let Ok(l) = &r {
        c.count("loaded", 1);
        return Ok(l.s.images.len() as u64 ^ hash(format!("{:?}", l.s.layers).as_bytes()));
    }
    Ok(outcome(&r.map(|_| ())))
}
pub fn c27(t: Tier) -> Vec<Driver> {
    vec![
        Driver::new("twice", 0, "up to three cels of one frame on two layers, of every content, equal but for one attribute", |c| {
            let b = super::parse::twice(c);
            sprite_view(c, &b)
        }),
        Driver::new("mixture", 0, "every combination of the kinds of the parts of a file and of what follows them", |c| {
            let b = super::parse::mixture(c);
            sprite_view(c, &b)
        }),
        Driver::new("factors", 0, "every combination of depth, palette, compression, link, flags, group, mode, opacities, z-index, place and size of a cel", |c| {
            let b = super::render::factors(c);
            sprite_view(c, &b)
        }),
        Driver::new("late", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            sprite_view(c, &b)
        }),
        Driver::new("later", 0, "65536 items of one kind followed by one of 48 others, sound or faulty", |c| {
            let (b, _) = late(c, &[65536], LATE, 1);
            sprite_view(c, &b)
        }),
        Driver::new("triples", 0, "any three chunks of 25 kinds in a row, in one to three frames, layers before or after", |c| {
            let b = super::parse::triples(c);
            sprite_view(c, &b)
        }),
        Driver::new("rows", 0, "any four (thorough: five) chunks of 25 kinds in a row, in one or two frames, layers before or after", move |c| {
            let b = super::parse::row(c, tier(t, 4, 5), true);
            sprite_view(c, &b)
        }),
        Driver::new("fields", tier(t, 2, 3), "every field of a loadable sprite, boundary values", |c| {
            let b = sprite_file(c);
            sprite_view(c, &b)
        })
        .live(HEADER | FRAME | LAYERS | CELS),
        Driver::new("lists", 2, "every field of tags and slices", |c| {
            let b = sprite_file(c);
            sprite_view(c, &b)
        })
        .live(TAGSG | SLICES | FRAME),
        Driver::new("fields-wide", 1, "every field of a loadable sprite, all 8/16-bit values", |c| {
            let b = sprite_file(c);
            sprite_view(c, &b)
        })
        .wide(),
        Driver::new("structure", 0, "layer kinds, cel placement over two frames and where layers are defined", |c| {
            let nl = 1 + c.all("layers", 4);
            let late = c.all("layers defined late", nl + 1);
            let mut fs = vec![vec![], vec![]];
            for i in 0..nl {
                let ty = c.all("layer type", 4) as u16;
                fs[(i >= nl - late) as usize].push(layer(&Layer {
                    ty,
                    name: vec![b'a' + i as u8],
                    opacity: 200 + i as u8,
                    level: (i > 0 && i % 2 == 1) as u16,
                    ..Default::default()
                }));
            }
            let where_ = c.all("cels", 4);
            for i in 0..nl as u16 {
                let px = [i as u8 * 20 + 1, 2, 3, 255];
                match where_ {
                    0 => {}
                    1 => fs[0].push(cel(&image_cel(i, i as i16, 1, 1, 1, &px, false))),
                    2 => fs[1].insert(0, cel(&image_cel(i, i as i16, 1, 1, 1, &px, true))),
                    _ => {
                        fs[0].insert(0, cel(&image_cel(i, i as i16, 1, 1, 1, &px, true)));
                        fs[1].push(cel(&Cel { layer: i, x: 2, content: Content::Link(0), ..Default::default() }));
                    }
                }
            }
            let f: Vec<Frame> = fs.into_iter().map(Frame::new).collect();
            let b = file(&Header { width: 2, height: 2, ..Default::default() }, &f);
            let o = sprite_view(c, &b)?;
            full(c, &b).map(|x| x ^ o)
        }),
        Driver::new("counts", 0, "numbers of layers, frames, tags, slices and images around 8-bit limits", |c| {
            let v = [0usize, 1, 2, 255, 256, 257, 300];
            let nl = c.all_of("layers", &v[1..]);
            let nf = c.all_of("frames", &v[1..]);
            let nt = c.all_of("tags", &v);
            let ns = c.all_of("slices", &v);
            let names: Vec<String> = (0..300).map(|i| format!("n{i}")).collect();
            let mut f0: Vec<Vec<u8>> =
                (0..nl).map(|i| layer(&Layer { name: names[i].clone().into_bytes(), opacity: i as u8, ..Default::default() })).collect();
            let l: Vec<(u16, u16, u8, u16, [u8; 3], &[u8])> =
                (0..nt).map(|i| (i as u16, 2 * i as u16, i as u8 % 4, i as u16, [0; 3], names[i].as_bytes())).collect();
            f0.push(tags(&l));
            f0.extend((0..ns).map(|i| slice(names[i].as_bytes(), i as u32 % 3)));
            let mut fs = vec![Frame::new(f0)];
            fs.resize(nf, Frame::new(vec![]));
            for (i, f) in fs.iter_mut().enumerate() {
                f.duration = i as u16 * 3;
                f.chunks.push(cel(&image_cel((i % nl) as u16, i as i16, 0, 1, 1, &[i as u8, 1, 2, 3], i % 2 == 1)));
            }
            let b = file(&Header { width: 2, height: 2, ..Default::default() }, &fs);
            sprite_view(c, &b)
        }),
        Driver::new("uniform", 0, "many frames that are empty, equal, linked or alternating", |c| {
            let nf = c.all_of("frames", &[1usize, 2, 3, 127, 128, 129, 255, 256, 257, 258, 300, 1000, 32768, 65535, 65536, 70000]);
            let kind = c.all("cels", 6);
            let dur = c.all("durations", 4);
            let nl = c.all_of("layers", &[1u16, 2]);
            let mut fs = vec![];
            for i in 0..nf {
                let mut ch: Vec<Vec<u8>> = if i == 0 { (0..nl).map(|_| layer(&Layer::default())).collect() } else { vec![] };
                let image = match kind {
                    0 => false,
                    1 => i == 0,
                    2 => i + 1 == nf,
                    3 => i % 2 == 0,
                    4 => true,
                    _ => i == 0 || i == 255,
                };
                let last = nf.saturating_sub(1).min(65535);
                if image {
                    ch.push(cel(&image_cel(0, 0, 0, 1, 1, &[1, 2, 3, 4], false)));
                } else if kind == 1 || kind == 5 {
                    let to = if kind == 5 && i > 255 { 255 } else { 0 };
                    ch.push(cel(&Cel { content: Content::Link(to), ..Default::default() }));
                } else if kind == 2 && last + 1 == nf {
                    ch.push(cel(&Cel { content: Content::Link(last as u16), ..Default::default() }));
                }
                let duration = [100, 0, i as u16, 65535 - (i as u16) % 2][dur];
                fs.push(Frame { duration, ..Frame::new(ch) });
            }
            let b = file(&Header { width: 1, height: 1, ..Default::default() }, &fs);
            sprite_view(c, &b)
        }),
        Driver::new("tags", 0, "two tags of every direction, range and repeat count over three frames", |c| {
            let mut l: Vec<(u16, u16, u8, u16, [u8; 3], &[u8])> = vec![];
            for name in [b"a", b"b"] {
                let dir = c.all_of("direction", &[0u8, 1, 2, 3, 4, 255]);
                let (from, to) = c.all_of("range", &[(0u16, 0u16), (0, 2), (1, 2), (2, 2), (0, 3), (0, 65535), (65535, 65535), (7, 7)]);
                let repeat = c.all_of("repeat", &[0u16, 1, 2, 3, 255, 256, 65535]);
                let colour = if l.is_empty() { c.all_of("colour", &[[0u8; 3], [9, 8, 7]]) } else { [0; 3] };
                l.push((from, to, dir, repeat, colour, name));
            }
            let mut fs = vec![Frame::new(vec![]); 3];
            let at = c.all("frame", 2);
            fs[at].chunks.push(tags(&l));
            let b = file(&Header { width: 1, height: 1, ..Default::default() }, &fs);
            sprite_view(c, &b)
        }),
        Driver::new("common-names", 0, "common and odd names in every place a string can be", |c| {
            let b = super::parse::named(c);
            sprite_view(c, &b)
        }),
        Driver::new("names", 0, "layer and tag names of every kind, including duplicates and empty ones", |c| {
            let names: [&str; 8] = ["", "a", "A", "a ", "\u{0}", "\u{e9}", "e\u{301}", "\u{1f600}"];
            let n = 1 + c.all("layers", 3);
            let mut ch = vec![];
            for _ in 0..n {
                let s = c.all_of("name", &names);
                ch.push(layer(&Layer { name: s.as_bytes().to_vec(), ..Default::default() }));
            }
            let s = c.all_of("tag name", &names);
            ch.push(tags(&[(0, 0, 0, 1, [0; 3], s.as_bytes()), (0, 0, 0, 0, [0; 3], s.as_bytes())]));
            let b = file(&Header { width: 1, height: 1, ..Default::default() }, &[Frame::new(ch)]);
            sprite_view(c, &b)
        }),
        Driver::new("groups", 0, "every visibility and nesting of five layers", |c| {
            let b = super::render::tree(c, 5, |_| vec![]);
            sprite_view(c, &b)
        }),
    ]
}
#[allow(unused)]
fn _unused() {
    let _ = refcomp::IErr::Depth;
}
