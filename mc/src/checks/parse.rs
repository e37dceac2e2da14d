//! Drivers of the parsing properties.
use super::tier;
use crate::cmp;
use crate::enc::*;
use crate::explore::*;
use crate::gen::{self, *};
use crate::refp::{self, RErr, GUARANTEED_DEPTH};
use crate::{bad, ensure, lift, Tier};

pub fn outcome<T, E: std::fmt::Debug>(r: &Result<T, E>) -> u64 {
    match r {
        Ok(_) => 1,
        Err(e) => hash(format!("{e:?}").as_bytes()),
    }
}
/// File-level views against the model.
fn views(c: &mut Ctx, b: &[u8]) -> Res {
    c.input(b);
    let r = cmp::raw(b)?;
    if r.is_err() {
        c.count("rejected files", 1);
    }
    let f = cmp::file(b)?;
    // C31 loads all of this in other drivers.
    if f.is_ok() && cfg!(not(target_arch = "wasm32")) {
        cmp::load(b)?.is_ok();
    }
    Ok(outcome(&r) ^ outcome(&f))
}

/// Any three chunks of any kind in a row, in one to three frames, among them
/// the same chunk twice and chunks that differ in one respect.
pub fn triples(c: &mut Ctx) -> Vec<u8> {
    row(c, 3, false)
}
/// `n` chunks in a row; `slim`: in one or two frames, one colour depth.
pub fn row(c: &mut Ctx, n: usize, slim: bool) -> Vec<u8> {
    use std::sync::OnceLock;
    static KINDS: [OnceLock<Vec<Vec<u8>>>; 2] = [const { OnceLock::new() }; 2];
    let depth = if slim { 32 } else { c.all_of("depth", &[32u16, 8]) };
    let kinds = KINDS[(depth == 8) as usize].get_or_init(|| {
        let x = &mut Ctx::plain();
        let mut props = vec![];
        props.u32(6).raw(&[1, 2, 3, 4]).u32(25).u32(1).u32(7).u32(1).str(b"k").u16(4).i16(-2);
        let es: Vec<([u8; 4], Option<&[u8]>)> = vec![([1, 2, 3, 4], None), ([5, 6, 7, 255], Some(b"n"))];
        let (w, h) = if depth == 32 { (2, 1) } else { (4, 2) };
        let image = |zip| image_cel(0, zip as i16, -(h as i16 / 2), w, h, &[1, 2, 3, 4, 5, 6, 7, 255], zip);
        vec![
            layer(&Layer { name: b"a".to_vec(), ..Default::default() }),
            layer(&Layer { name: b"a".to_vec(), opacity: 9, ..Default::default() }),
            layer(&Layer { ty: 1, name: b"g".to_vec(), ..Default::default() }),
            layer(&Layer { level: 1, name: b"b".to_vec(), ..Default::default() }),
            cel(&image(false)),
            cel(&image(true)),
            cel(&Cel { opacity: 7, z: 1, layer: 1, ..image(false) }),
            cel(&Cel { layer: 1, x: 3, content: Content::Link(0), ..Default::default() }),
            cel_extra(),
            color_profile(),
            gen_external(x),
            gen_mask(x),
            chunk(PATH, &[]),
            tags(&[(0, 1, 0, 0, [0; 3], b"t"), (0, 0, 1, 2, [1, 2, 3], b"u")]),
            tags(&[(0, 1, 0, 0, [0; 3], b"t")]),
            palette(2, 0, 1, &es),
            palette(4, 1, 2, &es),
            old_palette(OLD04, &[(0, 2, vec![[1, 2, 3], [4, 5, 6]]), (1, 1, vec![[9; 3]])]),
            old_palette(OLD11, &[(0, 2, vec![[1, 2, 3], [4, 5, 63]])]),
            user_text(b"text"),
            chunk(USER_DATA, &props),
            slice(b"s", 1),
            slice(b"s", 2),
            gen_tileset(x, 2),
            chunk(0x3333, b"??"),
        ]
    });
    let early = c.all("layers first", 2) == 1;
    let base = vec![layer(&Layer { name: b"l0".to_vec(), ..Default::default() }), layer(&Layer { name: b"l1".to_vec(), ..Default::default() })];
    let mut fs = vec![if early { base.clone() } else { vec![] }];
    let cut = if slim { c.all("next frame at", n) } else { 0 };
    for i in 0..n {
        let k = c.all("chunk", kinds.len());
        if i > 0 && if slim { i == cut } else { c.all("next frame", 2) == 1 } {
            fs.push(vec![]);
        }
        fs.last_mut().unwrap().push(kinds[k].clone());
    }
    if !early {
        fs.last_mut().unwrap().extend(base);
    }
    let fs: Vec<Frame> = fs.into_iter().map(Frame::new).collect();
    file(&Header { depth, width: 2, height: 2, ..Default::default() }, &fs)
}

/// Files with every combination of the kinds of their parts and of what follows them.
pub fn mixture(c: &mut Ctx) -> Vec<u8> {
    let depth = c.all_of("depth", &[32u16, 8]);
    let kind = c.all("palette", 4);
    let at = if kind == 0 { 0 } else { c.all("place of the palette", 3) };
    let data = if kind == 0 { 0 } else { c.all("data of the sprite", 2) };
    let ty = c.all("layer type", 3) as u16;
    let data = data | c.all("data of the layer", 2) << 1 | c.all("data of the cel", 2) << 2;
    let content = c.all("cel", 4);
    let extra = c.all("cel extra", 2) == 1;
    let ntags = c.all("tags", 3);
    let ndata = c.all("data of tags", ntags + 2);
    let sf = c.all("slice flags", 4) as u32;
    let data = data | c.all("data of the slice", 2) << 3;
    let noise = c.all("unknown chunks", 2) == 1;
    let old = c.all("16-bit chunk count", 2) == 1;
    let mut head: Vec<Vec<u8>> = vec![];
    let px: &[u8] = if depth == 8 { &[1] } else { &[9, 8, 7, 255] };
    match kind {
        0 => {}
        1 => head.push(palette_from(0, &[[1, 2, 3, 4], [5, 6, 7, 255]])),
        k => head.push(old_palette(if k == 2 { OLD04 } else { OLD11 }, &[(0, 2, vec![[1, 2, 3], [4, 5, 6]])])),
    }
    if data & 1 != 0 {
        head.push(user_text(b"sprite"));
    }
    let mut main = vec![layer(&Layer { ty, name: b"layer".to_vec(), ..Default::default() })];
    if data & 2 != 0 {
        main.push(user_text(b"of the layer"));
    }
    main.push(layer(&Layer { level: 1, name: b"second".to_vec(), ..Default::default() }));
    main.push(match content {
        0 | 1 => cel(&Cel { layer: 1, ..image_cel(0, 2, 1, 1, 1, px, content == 1) }),
        2 => cel(&Cel { layer: 1, content: Content::Link(1), ..Default::default() }),
        _ => cel(&Cel { layer: 1, content: Content::Tilemap { w: 1, h: 1, bits: 32, id: 1, x: 2, y: 4, d: 8, reserved: 0, data: b"tiles".to_vec() }, ..Default::default() }),
    });
    if data & 4 != 0 {
        main.push(user_text(b"of the cel"));
    }
    if extra {
        main.push(cel_extra());
    }
    if noise {
        main.push(chunk(0x7777, b"noise"));
    }
    if ntags > 0 {
        main.push(match ntags {
            1 => tags(&[(0, 1, 1, 2, [1, 2, 3], b"t")]),
            _ => tags(&[(0, 1, 1, 2, [1, 2, 3], b"t"), (1, 1, 2, 0, [0; 3], b"u")]),
        });
    }
    for i in 0..ndata {
        main.push(user_text(&[b'0' + i as u8]));
    }
    let mut sl = vec![];
    sl.u32(2).u32(sf).u32(0).str(b"slice");
    for i in 0..2u32 {
        sl.u32(i).i32(-1).i32(2).u32(30).u32(40);
        (0..[0, 4, 2, 6][sf as usize]).for_each(|k| { sl.u32(100 * i + k); });
    }
    main.push(chunk(SLICE, &sl));
    if data & 8 != 0 {
        main.push(user_text(b"of the slice"));
    }
    let mut next = vec![cel(&Cel { layer: 1, y: 1, ..image_cel(0, 0, 0, 1, 1, px, true) }), user_text(b"of the next")];
    if noise {
        next.insert(1, chunk(PATH, b"path"));
    }
    match at {
        0 => main.splice(0..0, head),
        1 => main.splice(main.len().., head),
        _ => next.splice(0..0, head),
    };
    let fs: Vec<Vec<u8>> = [main, next]
        .iter()
        .map(|ch| {
            let n = ch.len();
            frame_raw(n as u16, if old { 0 } else { n as u32 }, 7, [0, 0], &ch.concat())
        })
        .collect();
    file_raw(&Header { depth, width: 2, height: 2, frames: Some(2), ..Default::default() }, &fs)
}
/// Up to three cels in one frame on two layers, equal but for content or one attribute.
pub fn twice(c: &mut Ctx) -> Vec<u8> {
    let px = |n: u8| [n, 2, 3, 255];
    let first = vec![
        layer(&Layer { name: b"a".to_vec(), ..Default::default() }),
        layer(&Layer { name: b"b".to_vec(), ..Default::default() }),
        cel(&image_cel(0, 0, 0, 1, 1, &px(50), true)),
        cel(&image_cel(1, 0, 0, 1, 1, &px(60), true)),
    ];
    let mut second = vec![];
    for i in 0..2 + c.all("cels", 2) as u8 {
        let l = c.all("layer", 2) as u16;
        let content = match c.all("content", 5) {
            0 => image_cel(0, 0, 0, 1, 1, &px(i), false).content,
            1 => image_cel(0, 0, 0, 1, 1, &px(7), true).content,
            2 => Content::Link(0),
            3 => Content::Link(2),
            _ => image_cel(0, 0, 0, 0, 1, &[], false).content,
        };
        let mut k = Cel { layer: l, content, ..Default::default() };
        match c.all("attribute", 4) {
            0 => {}
            1 => k.x = 1,
            2 => k.opacity = 100,
            _ => k.z = 1,
        }
        second.push(cel(&k));
    }
    let third = vec![cel(&image_cel(0, 0, 0, 1, 1, &px(70), true)), cel(&image_cel(1, 0, 0, 1, 1, &px(80), false))];
    file(&Header { width: 2, height: 1, ..Default::default() }, &[Frame::new(first), Frame::new(second), Frame::new(third)])
}
/// Kinds of the item in [`late`], the first `LATE_FAULTS` of them reported as a known error.
pub const LATE: usize = 48;
pub const LATE_FAULTS: usize = 18;
/// Very many items of one kind, and another item before, between or after them.
pub fn late(c: &mut Ctx, numbers: &[usize], items: usize, places: usize) -> (Vec<u8>, Option<RErr>) {
    let n = c.all_of("number", numbers);
    let filler = c.all("others", 10);
    let item = c.all("item", items);
    let place = c.all("place", places);
    let at = [n, n / 2, 0][place];
    let x = &mut Ctx::plain();
    let plain = |l: u16| image_cel(l, 0, 0, 1, 1, &[9, 8, 7, 255], false);
    let nlayers = (2 + if filler == 2 { n } else { 0 }).min(65535) as u16;
    let nframes = (if filler <= 1 { n + 1 } else { 2 }).min(65535) as u16;
    let indexed = filler == 7 || (12..18).contains(&item) || (38..42).contains(&item);
    let pal = |first: u8| palette_from(first, &[[1, 2, 3, 4], [5, 6, 7, 255]]);
    let px: &[u8] = if indexed { &[1] } else { &[9, 8, 7, 255] };
    let with = |content| Cel { layer: 1, content, ..Default::default() };
    let want = match item {
        0..=7 => Some(RErr::Utf8),
        8 => Some(RErr::TagRange(1, 0)),
        9 => Some(RErr::LayerOob),
        10 => Some(RErr::ChunkSize(3)),
        11 => Some(RErr::FrameSize(3)),
        12 => Some(RErr::PalFirst),
        13 => Some(RErr::PalLast),
        14 => Some(RErr::PalOrder),
        15 => Some(RErr::PalOob),
        16 => Some(RErr::PalOob),
        17 => Some(RErr::PalEmpty),
        _ => None,
    };
    let oob = if filler == 2 && n > 65533 { nlayers } else { nlayers.max(3) };
    if item == 9 && 2 + n * (filler == 2) as usize > oob as usize {
        // Every index there can be is one of a layer.
        return (vec![], None);
    }
    let mut special = match item {
        0..=7 => super::mutate::string_chunk(item, b"ok\xff"),
        8 => tags(&[(0, 0, 0, 0, [0; 3], b"t"), (1, 0, 0, 0, [0; 3], b"u")]),
        9 => cel(&Cel { layer: oob, ..plain(0) }),
        10 | 11 => layer(&Layer::default()),
        12 => palette(2, 256, 257, &[([1; 4], None), ([2; 4], None)]),
        13 => palette(2, 0, 256, &[([1; 4], None), ([2; 4], None)]),
        14 => palette(2, 1, 0, &[([1; 4], None), ([2; 4], None)]),
        15 => old_palette(OLD04, &[(255, 2, vec![[1; 3]; 2])]),
        16 => old_palette(OLD11, &[(255, 2, vec![[1; 3]; 2])]),
        17 => old_palette(OLD04, &[]),
        // Faults that concern the sprite only, and unknown kinds.
        18 => cel(&with(Content::Link(nframes))),
        19 => cel(&with(Content::Link(1))),
        20 => cel(&with(Content::Unknown { ty: 9, data: vec![1] })),
        21 => cel(&with(Content::Tilemap { w: 1, h: 1, bits: 32, id: 1, x: 2, y: 4, d: 8, reserved: 0, data: vec![] })),
        22 => cel(&with(Content::Zlib { w: 1, h: 1, data: b"junk".to_vec() })),
        23 => cel(&image_cel(1, 0, 0, 3, 1, &[1], false)),
        24 => layer(&Layer { ty: 0x101, name: b"odd".to_vec(), ..Default::default() }),
        25 => layer(&Layer { blend: 0x1203, name: b"odd".to_vec(), ..Default::default() }),
        26 => tags(&[(0, 65535, 200, 65535, [1, 2, 3], b"far"), (0, 0, 1, 0, [0; 3], b"near")]),
        27 => chunk(0x2021, b"\x01\x02"),
        28 => layer(&Layer { flags: 2, ty: 1, name: b"hidden group".to_vec(), ..Default::default() }),
        29 => layer(&Layer { level: 1, opacity: 3, name: b"child".to_vec(), ..Default::default() }),
        30 => cel(&Cel { layer: nlayers - 1, ..image_cel(0, -1, 2, 1, 1, px, true) }),
        31 => cel(&Cel { z: -1, opacity: 7, ..image_cel(1, 1, 0, 1, 1, px, false) }),
        32 => cel(&with(Content::Link(nframes - 1))),
        33 => cel(&with(Content::Link(0))),
        34 => tags(&[(0, 1, 3, 1, [0; 3], b"t")]),
        35 => slice(b"slice", 3),
        36 => gen_external(x),
        37 => gen_mask(x),
        38 => pal(7),
        39 => pal(254),
        40 => old_palette(OLD04, &[(3, 1, vec![[1, 2, 3]])]),
        41 => old_palette(OLD11, &[(3, 1, vec![[1, 2, 63]])]),
        42 => cel_extra(),
        43 => color_profile(),
        44 => chunk(PATH, b"x"),
        45 => gen_tileset(x, 3),
        46 => user_text(b"more"),
        _ => {
            let mut u = vec![];
            u.u32(6).raw(&[1, 2, 3, 4]).u32(25).u32(1).u32(7).u32(1).str(b"k").u16(4).i16(-2);
            chunk(USER_DATA, &u)
        }
    };
    if item == 10 {
        special[..4].copy_from_slice(&3u32.to_le_bytes());
    }
    special.raw(&if item == 10 { vec![] } else { user_text(b"of the item") });
    let count = if item == 10 { 1 } else { 2 };
    let mut head = vec![];
    // Some faults are those of the only palette.
    if indexed && !(15..18).contains(&item) && !(40..42).contains(&item) && filler != 7 {
        head.push(pal(0));
    }
    head.push(layer(&Layer { name: b"l0".to_vec(), ..Default::default() }));
    head.push(layer(&Layer { name: b"l1".to_vec(), ..Default::default() }));
    head.push(cel(&image_cel(0, 0, 0, 1, 1, px, false)));
    let old = (15..18).contains(&item) || (40..42).contains(&item);
    let piece = |i: usize| match filler {
        2 => layer(&Layer { name: i.to_string().into_bytes(), opacity: i as u8, ..Default::default() }),
        3 => tags(&[(0, i as u16, i as u8 % 4, i as u16, [0; 3], i.to_string().as_bytes())]),
        4 => slice(i.to_string().as_bytes(), 0),
        5 => user_text(i.to_string().as_bytes()),
        6 => chunk(0x7777, &[i as u8]),
        7 if item == 17 => old_palette(OLD04, &[]),
        7 if old => old_palette(if item == 16 || item == 41 { OLD11 } else { OLD04 }, &[(i as u8, 1, vec![[i as u8 & 63, 2, 3]])]),
        7 => palette_from(i as u8, &[[i as u8, (i >> 8) as u8, 3, 200]]),
        8 => cel(&image_cel(0, i as i16, 0, 1, 1, px, false)),
        _ => cel_extra(),
    };
    let mut fs: Vec<Vec<u8>> = vec![];
    let spoil = |mut f: Vec<u8>| {
        if item == 11 {
            f[..4].copy_from_slice(&3u32.to_le_bytes());
        }
        f
    };
    if filler <= 1 {
        for i in 0..=n {
            let mut body = vec![];
            let mut k = 0;
            if i == 0 {
                head.iter().for_each(|h| { body.raw(h); });
                k += head.len();
            } else if filler == 1 {
                body.raw(&cel(&image_cel(0, i as i16, 0, 1, 1, px, false)));
                k += 1;
            }
            if i == at {
                body.raw(&special);
                k += count;
            }
            let f = frame_raw(k as u16, k as u32, i as u16, [0, 0], &body);
            fs.push(if i == at { spoil(f) } else { f });
        }
    } else {
        let mut body = vec![];
        head.iter().for_each(|h| { body.raw(h); });
        for i in 0..=n {
            if i == at {
                body.raw(&special);
            }
            if i < n {
                body.raw(&piece(i));
            }
        }
        let k = head.len() + n + count;
        fs.push(spoil(frame_raw(k.min(65535) as u16, k as u32, 5, [0, 0], &body)));
        fs.push(frame_raw(1, 0, 6, [0, 0], &cel(&Cel { content: Content::Link(0), ..Default::default() })));
    }
    (file_raw(&Header { depth: if indexed { 8 } else { 32 }, width: 2, height: 2, frames: Some(nframes), ..Default::default() }, &fs), want)
}
pub const LATE_AT: [usize; 7] = [252, 253, 254, 255, 256, 257, 300];
pub const LATER_AT: [usize; 5] = [65533, 65534, 65535, 65536, 65600];

// ---------------------------------------------------------------- C03, C04

pub fn c03(t: Tier) -> Vec<Driver> {
    vec![
        Driver::new("mixture", 0, "every combination of the kinds of the parts of a file and of what follows them", |c| {
            let b = mixture(c);
            views(c, &b)
        }),
        Driver::new("late", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            views(c, &b)
        }),
        Driver::new("triples", 0, "any three chunks of 25 kinds in a row, in one to three frames, layers before or after", |c| {
            let b = triples(c);
            views(c, &b)
        }),
        Driver::new("rows", 0, "any four (thorough: five) chunks of 25 kinds in a row, in one or two frames, layers before or after", move |c| {
            let b = row(c, tier(t, 4, 5), true);
            views(c, &b)
        }),
        Driver::new("blobs", 0, "data of every pattern and many lengths in every place data can be", |c| {
            let b = blobs(c);
            views(c, &b)
        }),
        Driver::new("names", 0, "common and odd names in every place a string can be", |c| {
            let b = named(c);
            views(c, &b)
        }),
        Driver::new("fields", tier(t, 2, 3), "every field of header, frames, layers and cels, boundary values", |c| {
            let b = main_file(c);
            views(c, &b)
        }),
        Driver::new("fields-wide", 1, "every field of header, frames, layers and cels, all 8/16-bit values", |c| {
            let b = main_file(c);
            views(c, &b)
        })
        .wide(),
        Driver::new("many", 0, "numbers of layers, frames and cels around 8- and 16-bit limits", move |c| {
            let n = c.all_of("layers", &[0usize, 1, 2, 127, 128, 129, 255, 256, 257, 300]);
            let m = c.all_of("frames", &[1usize, 2, 127, 128, 255, 256, 257, 300]);
            many(c, n, m)
        }),
        Driver::new("huge", 0, "more than 65535 frames, layers and chunks", |c| match c.all("kind", 4) {
            0 => many(c, 1, 66000),
            1 => {
                // Cels can only name the first 65536 layers.
                let l: Vec<Vec<u8>> = (0..65600u32)
                    .map(|i| layer(&Layer { name: i.to_string().into_bytes(), ..Default::default() }))
                    .chain([
                        cel(&image_cel(65535, 1, 2, 1, 1, &[1, 2, 3, 4], false)),
                        cel(&image_cel(0, 1, 2, 1, 1, &[5, 6, 7, 8], false)),
                    ])
                    .collect();
                let b = file(&Header::default(), &[Frame::new(l)]);
                views(c, &b)
            }
            k => {
                // Chunk count of 65535 + k, announced in the 32-bit field.
                let n = 65534 + k as u32;
                let mut body = vec![];
                for i in 0..n - 1 {
                    body.raw(&chunk(0x7000 + (i % 7) as u16, &[]));
                }
                body.raw(&layer(&Layer::default()));
                let f = frame_raw(0xffff.min(n) as u16, n, 5, [0, 0], &body);
                let f2 = frame_raw(1, 0, 6, [0, 0], &cel(&image_cel(0, 1, 1, 0, 0, &[], false)));
                let b = file_raw(&Header::default(), &[f, f2]);
                views(c, &b)
            }
        })
        .threads(2),
    ]
}
fn many(c: &mut Ctx, layers: usize, frames: usize) -> Res {
    let mut fs = vec![];
    let mut f0: Vec<Vec<u8>> = (0..layers)
        .map(|i| {
            layer(&Layer {
                opacity: i as u8,
                level: (i / 256) as u16,
                name: format!("layer {i}").into_bytes(),
                ..Default::default()
            })
        })
        .collect();
    for i in 0..layers {
        f0.push(cel(&image_cel(i as u16, i as i16, -(i as i16), 1, 1, &[i as u8, (i >> 8) as u8, 0, 0], false)));
    }
    fs.push(Frame { duration: 1, chunks: f0 });
    for i in 1..frames {
        let l = if layers > 0 { i % layers } else { 0 };
        let chunks = if layers == 0 {
            vec![]
        } else {
            vec![cel(&Cel { layer: l as u16, content: Content::Link(i as u16), z: i as i16, ..Default::default() })]
        };
        fs.push(Frame { duration: i as u16, chunks });
    }
    let b = file(&Header { frames: Some(frames as u16), ..Default::default() }, &fs);
    views(c, &b)
}

pub fn c04(t: Tier) -> Vec<Driver> {
    vec![
        Driver::new("mixture", 0, "every combination of the kinds of the parts of a file and of what follows them", |c| {
            let b = mixture(c);
            views(c, &b)
        }),
        Driver::new("late", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            views(c, &b)
        }),
        Driver::new("triples", 0, "any three chunks of 25 kinds in a row, in one to three frames, layers before or after", |c| {
            let b = triples(c);
            views(c, &b)
        }),
        Driver::new("rows", 0, "any four (thorough: five) chunks of 25 kinds in a row, in one or two frames, layers before or after", move |c| {
            let b = row(c, tier(t, 4, 5), true);
            views(c, &b)
        }),
        Driver::new("blobs", 0, "data of every pattern and many lengths in every place data can be", |c| {
            let b = blobs(c);
            views(c, &b)
        }),
        Driver::new("names", 0, "common and odd names in every place a string can be", |c| {
            let b = named(c);
            views(c, &b)
        }),
        Driver::new("fields", tier(t, 1, 2), "every field of tags, slices, palettes and auxiliary chunks", |c| {
            let b = aux_file(c);
            views(c, &b)
        }),
        Driver::new("tags-slices", 2, "pairs of fields of tags and slices", |c| {
            let b = aux_file(c);
            views(c, &b)
        })
        .live(TAGSG | SLICES),
        Driver::new("palettes", 2, "pairs of fields of new and old palettes", |c| {
            let b = aux_file(c);
            views(c, &b)
        })
        .live(PAL | OLDPAL),
        Driver::new("aux-slim", 2, "pairs of fields inside one auxiliary chunk", |c| {
            let k = c.all("chunk", 8);
            let ch = match k {
                0 => gen_profile(c, 1),
                1 => gen_profile(c, 2),
                2 => gen_external(c),
                3 => gen_mask(c),
                4 => gen_tileset(c, 3),
                5 => gen_extra(c),
                6 => gen_user(c),
                _ => gen_tileset(c, 0),
            };
            let b = file(&Header::default(), &[Frame::new(vec![ch, layer(&Layer::default())])]);
            views(c, &b)
        }),
        Driver::new("fields-wide", 1, "every field, all 8/16-bit values, long lists, strings and blobs", |c| {
            let b = aux_file(c);
            views(c, &b)
        })
        .wide(),
        Driver::new("flag-lanes", 0, "all combinations of the low flag bits of slices, tilesets, palettes, profiles", |c| {
            let k = c.all("chunk", 5);
            let f = c.all("flags", 256) as u32;
            let hi = c.all_of("high bits", &[0u32, 0xffffff00]);
            let f = f | hi;
            let mut v = vec![];
            let ch = match k {
                0 => {
                    v.u32(1).u32(f).u32(0).str(b"s");
                    let mut n = vec![];
                    for i in 0..11 {
                        n.u32(0x01010101 * (i + 1));
                    }
                    let len = 20 + if f & 1 != 0 { 16 } else { 0 } + if f & 2 != 0 { 8 } else { 0 };
                    v.raw(&n[..len]);
                    chunk(SLICE, &v)
                }
                1 => {
                    v.u32(1).u32(f).u32(2).u16(3).u16(4).i16(5).fill(14, 0).str(b"t");
                    if f & 1 != 0 {
                        v.u32(8).u32(9);
                    }
                    if f & 2 != 0 {
                        v.u32(3).raw(b"xyz");
                    }
                    chunk(TILESET, &v)
                }
                2 => {
                    v.u32(1).u32(0).u32(0).fill(8, 0).u16(f as u16).raw(&[1, 2, 3, 4]);
                    if f & 1 != 0 {
                        v.str(b"nm");
                    }
                    chunk(PALETTE, &v)
                }
                3 => {
                    v.u16(1).u16(f as u16).u16(3).u16(4).fill(8, 0);
                    chunk(COLOR_PROFILE, &v)
                }
                _ => {
                    v.u32(f).fill(16, 3);
                    chunk(CEL_EXTRA, &v)
                }
            };
            let b = file(&Header::default(), &[Frame::new(vec![ch, layer(&Layer::default())])]);
            views(c, &b)
        }),
        Driver::new("long-lists", 0, "tag, key, file and packet counts around 8- and 16-bit limits", |c| {
            let n = c.all_of("count", &[255usize, 256, 257, 4096, 65535, 65536, 65537, 70000]);
            let b = match c.all("list", 4) {
                0 => {
                    let n = n.min(65535);
                    let names: Vec<String> = (0..n).map(|i| i.to_string()).collect();
                    let l: Vec<_> = names
                        .iter()
                        .enumerate()
                        .map(|(i, s)| (0, i as u16, 0, 1, [1, 2, 3], s.as_bytes()))
                        .collect();
                    tags(&l)
                }
                1 => slice(b"s", n as u32),
                2 => {
                    let mut v = vec![];
                    v.u32(n as u32).fill(8, 0);
                    for i in 0..n {
                        v.u32(i as u32).u8(i as u8).fill(7, 0).str(b"f");
                    }
                    chunk(EXTERNAL, &v)
                }
                _ => {
                    let n = n.min(65535);
                    let p: Vec<_> = (0..n).map(|i| (i as u8, 1u8, vec![[i as u8, 2, 3]])).collect();
                    old_palette(OLD04, &p)
                }
            };
            let b = file(&Header::default(), &[Frame::new(vec![b, layer(&Layer::default())])]);
            views(c, &b)
        }),
    ]
}

// ---------------------------------------------------------------- C05

/// (chunk, may carry trailing bytes)
fn c05_base() -> Vec<Vec<(Vec<u8>, bool)>> {
    let mut props = vec![];
    props.u32(7).str(b"t").raw(&[1, 2, 3, 4]).u32(8 + 8 + 6).u32(1).u32(0).u32(1).str(b"p").u16(3).u8(9);
    let mut c = Ctx::plain();
    let mut f0: Vec<(Vec<u8>, bool)> = vec![
        (color_profile(), true),
        (palette_from(0, &[[1, 2, 3, 255], [4, 5, 6, 7]]), true),
        (user_text(b"sprite"), true),
        (layer(&Layer::default()), true),
        (user_text(b"layer"), true),
        (layer(&Layer { name: b"second".to_vec(), ..Default::default() }), true),
        (cel(&image_cel(0, 1, 2, 1, 1, &[7], true)), false),
        (user_text(b"cel"), true),
        (cel(&image_cel(1, 1, 2, 1, 1, &[8], true)), false),
        (tags(&[(0, 0, 0, 0, [1, 2, 3], b"A"), (0, 1, 1, 2, [4, 5, 6], b"B")]), true),
        (user_text(b"tag A"), true),
        (chunk(USER_DATA, &props), true),
        (slice(b"slice", 1), true),
        (user_text(b"slice"), true),
    ];
    f0.push((gen_tileset(&mut c, 3), true));
    f0.push((gen_external(&mut c), true));
    f0.push((old_palette(OLD04, &[(0, 1, vec![[1, 2, 3]])]), true));
    let f1 = vec![
        (cel(&Cel { layer: 0, content: Content::Link(0), ..Default::default() }), true),
        (user_text(b"cel 2"), true),
        (layer(&Layer { ty: 2, tileset: 3, ..Default::default() }), true),
        (chunk(0x3333, b"??"), true),
    ];
    vec![f0, f1]
}
fn grow(ch: &[u8], n: usize, fill: u8) -> Vec<u8> {
    let mut v = ch.to_vec();
    v.fill(n, fill);
    let len = v.len() as u32;
    v[..4].copy_from_slice(&len.to_le_bytes());
    v
}
fn noise(i: usize) -> Vec<u8> {
    let mut c = Ctx::plain();
    match i {
        0 => chunk(0x0000, &[]),
        1 => chunk(0xffff, &[1]),
        2 => chunk(0x2021, &[0; 6]),
        3 => chunk(0x2005 ^ 0x8000, &layer(&Layer::default())),
        4 => chunk(PATH, &[9; 30]),
        5 => gen_mask(&mut c),
        6 => gen_extra(&mut c),
        7 => color_profile(),
        8 => gen_tileset(&mut c, 2),
        9 => gen_external(&mut c),
        10 => chunk(0x2012, &vec![0xcc; 70000]),
        _ => chunk(0x0104, &user_text(b"not user data")),
    }
}
const NOISE: usize = 12;

fn c05_run(c: &mut Ctx) -> Res {
    let base = c05_base();
    let clean = file(
        &Header { depth: 8, ..Default::default() },
        &base
            .iter()
            .map(|f| Frame { duration: 70, chunks: f.iter().map(|x| x.0.clone()).collect() })
            .collect::<Vec<_>>(),
    );
    // A noise chunk between an object and its user data separates them.
    let mut separated = false;
    let mut frames = vec![];
    for f in &base {
        let mut body = vec![];
        let mut n = 0u32;
        for (i, (ch, tail)) in f.iter().enumerate() {
            let g = c.pick("noise before chunk", NOISE + 1);
            if g > 0 {
                body.raw(&noise(g - 1));
                n += 1;
                separated |= ch[4..6] == USER_DATA.to_le_bytes() && i > 0;
            }
            let t = if *tail { c.pick("extra bytes in chunk", 5) } else { 0 };
            let (k, v) = [(0, 0), (1, 0), (1, 0xff), (6, 6), (300, 0x20)][t];
            body.raw(&grow(ch, k, v));
            n += 1;
        }
        if c.flag("noise at end of frame") {
            body.raw(&noise(2));
            n += 1;
        }
        // Bytes after the announced chunks, among them something shaped like a chunk.
        match c.pick("extra bytes in frame", 5) {
            0 => {}
            1 => {
                body.u8(0);
            }
            2 => {
                body.raw(&[0xff; 7]);
            }
            3 => {
                body.raw(&layer(&Layer { name: b"ghost".to_vec(), ..Default::default() }));
            }
            _ => {
                body.raw(&[0; 4096]);
            }
        }
        let (old, new) = match c.pick("chunk count fields", 7) {
            0 => (n as u16, n),
            1 => (n as u16, 0),
            2 => (0, n),
            3 => (0xffff, n),
            4 => (1, n),
            5 => (n as u16 + 1, n),
            _ => (n as u16 - 1, n),
        };
        let r = c.of("frame reserved bytes", &[0u8, 0xff, 0x10]);
        frames.push(frame_raw(old, new, 70, [r, r], &body));
    }
    let mut h = Header { depth: 8, ..Default::default() };
    h.file_size = c.of("file size field", &[Some(clean.len() as u32), Some(0), Some(u32::MAX), Some(128)]);
    h.frames = c.of("frame count field", &[None, None]);
    h.ignore = c.of("ignored header bytes", &[[0; 3], [0xff; 3], [1, 2, 3]]);
    h.future = c.of("future header bytes", &[0u8, 0xff]);
    let b = file_raw(&h, &frames);
    let o = views(c, &b)?;
    let mut got = match aseprite_loader::binary::file::parse_file(&b) {
        Ok(f) => lift::file(&f),
        Err(e) => bad!("file with noise rejected: {:?}", lift::err(&e)),
    };
    let exp = aseprite_loader::binary::file::parse_file(&clean);
    let mut exp = match &exp {
        Ok(f) => lift::file(f),
        Err(e) => bad!("plain file rejected: {:?}", lift::err(e)),
    };
    got.header.file_size = 0;
    exp.header.file_size = 0;
    if !separated {
        c.count("equal to the file without noise", 1);
        if got != exp {
            bad!("noise changed the result: {}", cmp::diff(&exp, &got));
        }
    }
    Ok(o)
}

pub fn c05(t: Tier) -> Vec<Driver> {
    vec![
        Driver::new(
            "noise",
            tier(t, 2, 3),
            "unknown and ignored chunks in every gap, extra bytes in every chunk and frame, reserved fields, all ways to state the chunk count",
            c05_run,
        ),
        Driver::new("mixture", 0, "every combination of the kinds of the parts of a file and of what follows them", |c| {
            let b = mixture(c);
            views(c, &b)
        }),
        Driver::new("late", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            views(c, &b)
        }),
        Driver::new("padding", 0, "every number of extra bytes at the end of every kind of chunk and of every frame", move |c| {
            let base = c05_base();
            let most = tier(t, 66usize, 300);
            let n = c.all("extra bytes", most);
            let like = [layer(&Layer::default()), frame(&Frame::new(vec![])), user_text(b"ghost")];
            let fill: Vec<u8> = match c.all("content", 5) {
                0 => vec![0; n],
                1 => vec![0xff; n],
                k => like[k - 2].iter().copied().cycle().take(n).collect(),
            };
            let f = c.all("frame", base.len());
            let k = c.all("chunk, or the frame itself", base[f].len() + 1);
            if k < base[f].len() && !base[f][k].1 {
                return Ok(0);
            }
            let mut frames = vec![];
            for (i, fr) in base.iter().enumerate() {
                let mut body = vec![];
                for (j, (ch, _)) in fr.iter().enumerate() {
                    let mut ch = ch.clone();
                    if (i, j) == (f, k) {
                        ch.extend(&fill);
                        let len = ch.len() as u32;
                        ch[..4].copy_from_slice(&len.to_le_bytes());
                    }
                    body.raw(&ch);
                }
                if i == f && k == fr.len() {
                    body.raw(&fill);
                }
                frames.push(frame_raw(fr.len() as u16, fr.len() as u32, 70, [0, 0], &body));
            }
            let b = file_raw(&Header { depth: 8, ..Default::default() }, &frames);
            views(c, &b)
        }),
        Driver::new("big", 0, "chunks and frames around 64 KiB and 16 MiB of every kind that may hold or carry that much", |c| {
            let size = c.all_of("chunk size", &[65535usize, 65536, 65537, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 80]);
            let kind = c.all("kind", 8);
            let place = c.all("place", 3);
            let m = size - 6;
            let ch = match kind {
                0 => chunk(0x3333, &vec![0x20; m]),
                1 => chunk(PATH, &vec![7; m]),
                2 => grow(&layer(&Layer::default()), size - layer(&Layer::default()).len(), 1),
                3 => cel(&Cel { content: Content::Raw { w: 1, h: 1, data: vec![5; m - 20] }, ..Default::default() }),
                4 => cel(&Cel { content: Content::Unknown { ty: 9, data: vec![5; m - 16] }, ..Default::default() }),
                5 => grow(&user_text(b"x"), size - user_text(b"x").len(), 0x20),
                6 => grow(&tags(&[(0, 0, 0, 0, [0; 3], b"t")]), size - tags(&[(0, 0, 0, 0, [0; 3], b"t")]).len(), 0),
                _ => {
                    let mut c2 = Ctx::plain();
                    let t = gen_tileset(&mut c2, 0);
                    let n = size - t.len();
                    grow(&t, n, 0xff)
                }
            };
            assert_eq!(ch.len(), size);
            let rest = || vec![slice(b"s", 1), user_text(b"rest")];
            let head = layer(&Layer { name: b"head".to_vec(), ..Default::default() });
            let b = match place {
                0 => {
                    let mut v = vec![head, ch];
                    v.extend(rest());
                    file(&Header::default(), &[Frame::new(v), Frame::new(rest())])
                }
                1 => file(&Header::default(), &[Frame::new(rest()), Frame::new(vec![head, ch]), Frame::new(rest())]),
                _ => {
                    // The same bytes after the last chunk of a frame.
                    let mut body = head.clone();
                    body.raw(&ch);
                    file_raw(&Header::default(), &[frame_raw(1, 1, 9, [0, 0], &body), frame(&Frame::new(rest()))])
                }
            };
            views(c, &b)
        })
        .threads(4),
        Driver::new("unknown-types", 0, "every unknown chunk type (65536 values) with several bodies between real chunks", |c| {
            let ty = c.all("type", 65536) as u16;
            let body: &[u8] = match c.all("body", 3) {
                0 => &[],
                1 => &[0xff; 3],
                _ => &[0, 0, 0, 0, 4, 0x20, 1, 0, 0, 0],
            };
            const KNOWN: [u16; 14] =
                [4, 0x11, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2016, 0x2017, 0x2018, 0x2019, 0x2020, 0x2022, 0x2023];
            let ty = if KNOWN.contains(&ty) { 0x7777 } else { ty };
            let b = file(
                &Header::default(),
                &[Frame::new(vec![
                    layer(&Layer::default()),
                    chunk(ty, body),
                    user_text(b"not mine"),
                    cel(&image_cel(0, 1, 2, 1, 1, &[1, 2, 3, 4], false)),
                    chunk(ty, body),
                    slice(b"s", 1),
                ])],
            );
            views(c, &b)
        }),
        Driver::new("counts", 0, "chunk counts in both fields: which one counts", |c| {
            let n = c.all("chunks in frame", 5) as u32;
            let old = c.all_of("16-bit count", &[0u16, 1, 2, 3, 4, 5, 0xffff]);
            let new = c.all_of("32-bit count", &[0u32, 1, 2, 3, 4, 5, 0x10000, 0x10001, 0xffff, u32::MAX]);
            let body: Vec<u8> =
                (0..n).flat_map(|i| layer(&Layer { opacity: i as u8, ..Default::default() })).collect();
            let b = file_raw(
                &Header::default(),
                &[frame_raw(old, new, 9, [0, 0], &body), frame(&Frame::new(vec![layer(&Layer::default())]))],
            );
            views(c, &b)
        }),
        Driver::new("sizes", 0, "chunk and frame sizes from 0 to beyond the data", |c| {
            // Second chunk's and second frame's declared sizes are varied.
            let l = layer(&Layer { name: b"x".to_vec(), ..Default::default() });
            let mut f = frame(&Frame::new(vec![l.clone(), l.clone(), l.clone()]));
            let which = c.all("which size", 4);
            let v = c.all("size", 260) as u32;
            let v = if v < 256 { v } else { [0x10000, 0x7fffffff, 0xfffffffc, u32::MAX][v as usize - 256] };
            let at = [0, 16, 16 + l.len(), 16 + 2 * l.len()][which];
            f[at..at + 4].copy_from_slice(&v.to_le_bytes());
            let b = file_raw(&Header::default(), &[f, frame(&Frame::new(vec![l]))]);
            views(c, &b)
        }),
    ]
}

/// Names that programs and users give to things.
pub const NAMES: [&str; 66] = [
    "", " ", "  ", "\t", "\n", "\r\n", "\0", "a\0", "\0a", "a\0b", "a ", " a", "a\n", "\na", "\u{feff}", "\u{feff}a",
    "Background", "background", "BACKGROUND", "Layer", "Layer 1", "Layer 2", "layer1", "Group 1", "Reference Layer 1",
    "Tilemap 1", "Mask", "Flattened", "Tag", "Tag 1", "Loop", "loop", "Idle", "Slice", "Slice 1", "Tileset", "Tileset 1",
    "Palette", "Untitled", "sRGB", "None", "none", "null", "NULL", "default", "Default", "hidden", "visible", "#", "# x",
    "//", "_", "__", "__x__", ".", "..", "../a", "a/b", "a\\b", "C:\\a.aseprite", "\"", "%s", "{}", "\u{e9}", "e\u{301}", "\u{1f600}",
];
/// Multi-byte characters, shifted so that they straddle every byte position.
const SYMBOLS: [&str; 4] = ["\u{e9}", "\u{6f22}", "\u{1f600}", "e\u{301}"];
/// A file with one of the names in one of the places a string can be.
pub fn named(c: &mut Ctx) -> Vec<u8> {
    let i = c.all("name", NAMES.len() + SYMBOLS.len());
    let s = if i < NAMES.len() {
        NAMES[i].to_owned()
    } else {
        let shift = c.all("shift", 4);
        let n = c.all("length", 75);
        // Every length up to 70, then some long ones.
        let n = if n < 70 { n } else { [127, 128, 256, 300, 16000][n - 70] };
        "a".repeat(shift) + &SYMBOLS[i - NAMES.len()].repeat(n)
    };
    let k = c.all("place", super::mutate::STRINGS);
    let twice = c.all("repeated", 2) == 1;
    let ch = super::mutate::string_chunk(k, s.as_bytes());
    let mut f0 = vec![layer(&Layer::default()), cel(&image_cel(0, 0, 0, 1, 1, &[1, 2, 3, 4], false)), ch.clone()];
    if twice {
        f0.push(ch);
    }
    file(&Header { width: 1, height: 1, ..Default::default() }, &[Frame::new(f0)])
}

// ---------------------------------------------------------------- C07

fn c07_seq(c: &mut Ctx, depth: usize) -> Res {
    let n = c.all("length", depth + 1);
    let mut frames: Vec<Vec<Vec<u8>>> = vec![vec![]];
    let mut cels = 0u16;
    let mut layers = 0u16;
    for i in 0..n {
        let s = c.all("chunk", 11);
        if s == 9 {
            frames.push(vec![]);
            continue;
        }
        let f = frames.last_mut().unwrap();
        f.push(match s {
            0 => user_text(format!("u{i}").as_bytes()),
            1 => {
                layers += 1;
                layer(&Layer::default())
            }
            2 => {
                cels += 1;
                cel(&image_cel(cels - 1, 0, 0, 0, 0, &[], false))
            }
            3 => slice(b"s", 0),
            4 => tags(&[(0, 0, 0, 0, [0; 3], b"t")]),
            5 => tags(&[(0, 0, 0, 0, [0; 3], b"a"), (0, 0, 0, 0, [0; 3], b"b"), (0, 0, 0, 0, [0; 3], b"c")]),
            6 => palette_from(0, &[[1, 2, 3, 4]]),
            7 => old_palette(OLD04, &[]),
            8 => chunk(CEL_EXTRA, &[0; 36]),
            _ => tags(&[]),
        });
    }
    // Enough layers for every cel to have a slot of its own.
    let last = frames.last_mut().unwrap();
    for _ in layers..cels {
        last.push(layer(&Layer::default()));
    }
    let fs: Vec<Frame> = frames.into_iter().map(Frame::new).collect();
    let b = file(&Header::default(), &fs);
    c.input(&b);
    let r = cmp::file(&b)?;
    ensure!(r.is_ok(), "driver built an invalid file");
    Ok(hash(format!("{:?}", r.as_ref().map(|f| f.user.is_some())).as_bytes()))
}
pub fn c07(t: Tier) -> Vec<Driver> {
    let d = tier(t, 6, 7);
    vec![
        Driver::new(
            "sequences",
            0,
            "every sequence of up to 6 (thorough 7) chunks over: user data, layer, cel, slice, tag lists of 0, 1 and 3, palettes of two kinds, another chunk, next frame",
            move |c| c07_seq(c, d),
        ),
        Driver::new("mixture", 0, "every combination of the kinds of the parts of a file and of what follows them", |c| {
            let b = mixture(c);
            views(c, &b)
        }),
        Driver::new("late", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            views(c, &b)
        }),
        Driver::new("later", 0, "65536 items of one kind followed by one of 48 others, sound or faulty", |c| {
            let (b, _) = late(c, &[65536], LATE, 1);
            views(c, &b)
        }),
        Driver::new("repeats", 0, "every sequence of up to 6 (thorough 7) chunks over: user data, layers, cels of one or another layer, slice, next frame", move |c| {
            let n = c.all("length", d + 1);
            let mut fs: Vec<Vec<Vec<u8>>> = vec![vec![]];
            let mut has = [false; 2];
            for i in 0..n {
                let f = match c.all("chunk", 6) {
                    5 => {
                        fs.push(vec![]);
                        continue;
                    }
                    0 => user_text(format!("u{i}").as_bytes()),
                    1 => layer(&Layer { name: vec![b'a' + i as u8], ..Default::default() }),
                    k @ 2..=3 => {
                        has[k - 2] = true;
                        cel(&image_cel(k as u16 - 2, i as i16, 0, 0, 0, &[], false))
                    }
                    _ => slice(&[b'a' + i as u8], 0),
                };
                fs.last_mut().unwrap().push(f);
            }
            // Layers for the cels, without user data.
            for _ in 0..2 {
                fs.last_mut().unwrap().push(layer(&Layer::default()));
            }
            let fs: Vec<Frame> = fs.into_iter().map(Frame::new).collect();
            let b = file(&Header::default(), &fs);
            c.input(&b);
            let r = cmp::file(&b)?;
            ensure!(r.is_ok(), "driver built an invalid file");
            Ok(hash(format!("{:?}", r.map(|f| (f.layers.len(), f.slices.len()))).as_bytes()) ^ has[0] as u64)
        }),
        Driver::new("others", 0, "user data after every other chunk type, first and second frame, once and twice", |c| {
            // owner chunk, separator chunk (or none), number of user data chunks
            let sp = c.all("separator", 14);
            let k = c.all("user data chunks", 4);
            let owner = c.all("owner", 7);
            let second = c.all("frame", 2) == 1;
            let mut x = Ctx::plain();
            let o = match owner {
                0 => layer(&Layer::default()),
                1 => cel(&image_cel(0, 0, 0, 0, 0, &[], false)),
                2 => slice(b"s", 1),
                3 => tags(&[(0, 0, 0, 0, [0; 3], b"a"), (0, 0, 0, 0, [0; 3], b"b")]),
                4 => palette_from(0, &[[1, 2, 3, 4]]),
                5 => old_palette(OLD11, &[(0, 1, vec![[1, 2, 3]])]),
                _ => cel(&Cel { content: Content::Unknown { ty: 7, data: vec![] }, ..Default::default() }),
            };
            let s = match sp {
                0 => vec![],
                1 => gen_extra(&mut x),
                2 => color_profile(),
                3 => gen_external(&mut x),
                4 => gen_mask(&mut x),
                5 => chunk(PATH, &[]),
                6 => gen_tileset(&mut x, 2),
                7 => chunk(0x5555, &[1, 2]),
                8 => tags(&[]),
                9 => palette_from(1, &[[1, 2, 3, 4]]),
                10 => old_palette(OLD04, &[]),
                11 => slice(b"q", 0),
                12 => layer(&Layer { ty: 1, ..Default::default() }),
                _ => cel(&image_cel(1, 0, 0, 0, 0, &[], false)),
            };
            let mut ch = vec![o];
            if !s.is_empty() {
                ch.push(s);
            }
            for i in 0..k {
                let mut v = vec![];
                // Text only, colour only, both.
                match i {
                    0 => v.u32(1).str(b"first"),
                    1 => v.u32(2).raw(&[9, 8, 7, 6]),
                    _ => v.u32(3).str(b"third").raw(&[1, 1, 1, 1]),
                };
                ch.push(chunk(USER_DATA, &v));
            }
            ch.push(slice(b"end", 0));
            let ls = vec![layer(&Layer::default()), layer(&Layer::default())];
            let fs = if second { vec![Frame::new(ls), Frame::new(ch)] } else { vec![Frame::new(ch), Frame::new(ls)] };
            let b = file(&Header::default(), &fs);
            c.input(&b);
            let r = cmp::file(&b)?;
            Ok(outcome(&r))
        }),
        Driver::new("long-tags", 0, "tag lists of up to 300 tags with any number of user data chunks", |c| {
            let n = c.all_of("tags", &[0usize, 1, 2, 3, 5, 255, 256, 257, 300]);
            let k = c.all_of("user data", &[0usize, 1, 2, 3, 4, 254, 255, 256, 257, 299, 300, 301]);
            let gap = c.all("gap after", 4);
            let l: Vec<_> = (0..n).map(|_| (0u16, 0u16, 0u8, 0u16, [0u8; 3], &b"t"[..])).collect();
            let mut ch = vec![tags(&l)];
            for i in 0..k {
                if gap > 0 && i == gap {
                    ch.push(color_profile());
                }
                ch.push(user_text(i.to_string().as_bytes()));
            }
            ch.push(layer(&Layer::default()));
            ch.push(tags(&l[..l.len().min(2)]));
            ch.push(user_text(b"last"));
            let b = file(&Header::default(), &[Frame::new(ch)]);
            c.input(&b);
            let r = cmp::file(&b)?;
            Ok(outcome(&r))
        }),
    ]
}

// ---------------------------------------------------------------- C08

const SCALARS: [(u16, usize); 16] = [
    (1, 1), (2, 1), (3, 1), (4, 2), (5, 2), (6, 4), (7, 4), (8, 8), (9, 8), (10, 4), (11, 4), (12, 8), (14, 8), (15, 8),
    (16, 16), (19, 16),
];
fn scalar(ty: u16, pat: usize, i: usize) -> Vec<u8> {
    let n = SCALARS.iter().find(|s| s.0 == ty).unwrap().1;
    (0..n)
        .map(|k| match pat {
            0 => (0x11 * (k + 1) + i) as u8,
            1 => 0xff,
            2 => 0,
            3 => {
                if k + 1 == n {
                    0x80
                } else {
                    0
                }
            }
            4 => {
                if k == 0 {
                    1
                } else {
                    0
                }
            }
            // Signalling NaN of the widest float that fits.
            _ => [0x01, 0, 0, 0, 0, 0, 0xf4, 0x7f][if n >= 8 { k % 8 } else { (k + 8 - n) % 8 }],
        })
        .collect()
}
fn gen_string(c: &mut Ctx, d: &str) -> Vec<u8> {
    let mut g = G { c, on: true };
    g.name("string", d)
}
fn payload(c: &mut Ctx, ty: u16, o: &mut Vec<u8>, depth: usize, i: usize) {
    match ty {
        13 => {
            let s = gen_string(c, "value");
            o.str(&s);
        }
        17 => {
            let n = c.of("vector length", &[2usize, 0, 1, 3]);
            let e = pick_type(c, "element type", depth, 0, true);
            o.u32(n as u32).u16(e);
            for k in 0..n {
                if e == 0 {
                    let ty = pick_type(c, "mixed element type", depth, [3, 13, 17][k % 3], false);
                    o.u16(ty);
                    payload(c, ty, o, depth + 1, k);
                } else {
                    payload(c, e, o, depth + 1, k);
                }
            }
        }
        18 => props(c, o, depth + 1, i),
        _ => {
            let p = c.pick("bit pattern", 6);
            o.raw(&scalar(ty, p, i));
        }
    }
}
fn pick_type(c: &mut Ctx, l: &'static str, depth: usize, d: u16, mixed: bool) -> u16 {
    let d = if depth >= 2 && d >= 17 { 7 } else { d };
    let k = c.pick(l, 21) as u16;
    let t = if k == 0 { d } else { k - 1 };
    if t == 0 && !mixed {
        1
    } else if t >= 17 && t != 19 && depth >= 4 {
        19
    } else {
        t
    }
}
fn props(c: &mut Ctx, o: &mut Vec<u8>, depth: usize, i: usize) {
    let id = c.of("map id", &[0u32, 1, u32::MAX, 0x01020304]);
    let n = c.of("properties", &[if depth == 0 { 3usize } else { 1 }, 0, 1, 2, 4]);
    o.u32(id).u32(n as u32);
    for k in 0..n {
        let name = if k == 0 { gen_string(c, "prop") } else { format!("p{k}").into_bytes() };
        o.str(&name);
        let ty = pick_type(c, "type", depth, [17, 18, 6][(k + i) % 3], false);
        o.u16(ty);
        payload(c, ty, o, depth, k);
    }
}
/// A file whose layer carries the property block, with other objects around it.
fn with_props(size: Option<u32>, nmaps: u32, maps: &[u8], flags: u32) -> Vec<u8> {
    let mut v = vec![];
    v.u32(flags);
    if flags & 1 != 0 {
        v.str(b"text");
    }
    if flags & 2 != 0 {
        v.raw(&[1, 2, 3, 4]);
    }
    if flags & 4 != 0 {
        v.u32(size.unwrap_or(maps.len() as u32 + 8)).u32(nmaps).raw(maps);
    }
    file(
        &Header::default(),
        &[
            Frame::new(vec![
                layer(&Layer::default()),
                chunk(USER_DATA, &v),
                cel(&image_cel(0, 0, 0, 1, 1, &[1, 2, 3, 4], false)),
                user_text(b"cel"),
            ]),
            Frame::new(vec![slice(b"s", 1), user_text(b"slice")]),
        ],
    )
}
fn plain_props() -> Vec<u8> {
    let mut o = vec![];
    props(&mut Ctx::plain(), &mut o, 0, 0);
    o
}
/// Nesting of `depth` levels following a repeating word of container kinds.
pub fn nest(word: &[usize], depth: usize) -> Vec<u8> {
    let mut o = vec![];
    // Map holding one property; the value is the nest.
    o.u32(0).u32(1).str(b"n");
    // A value is introduced by its type here; inside typed vectors it is not.
    let mut typed = false;
    let ty = |k: usize| if k == 0 { 18u16 } else { 17 };
    for i in 0..depth {
        let k = word[i % word.len()];
        let next = if i + 1 < depth { ty(word[(i + 1) % word.len()]) } else { 3 };
        if !typed {
            o.u16(ty(k));
        }
        match k {
            0 => {
                o.u32(1).u32(1).str(b"");
                typed = false;
            }
            1 => {
                // Mixed vector.
                o.u32(1).u16(0);
                typed = false;
            }
            _ => {
                // Vector of the next kind.
                o.u32(1).u16(next);
                typed = true;
            }
        }
    }
    if !typed {
        o.u16(3);
    }
    o.u8(42);
    o
}
pub fn words() -> Vec<Vec<usize>> {
    let mut w = vec![];
    for a in 0..3 {
        w.push(vec![a]);
        for b in 0..3 {
            if b != a {
                w.push(vec![a, b]);
            }
            for c in 0..3 {
                if !(a == b && b == c) {
                    w.push(vec![a, b, c]);
                }
            }
        }
    }
    w
}

pub fn c08(t: Tier) -> Vec<Driver> {
    vec![
        Driver::new("tree", tier(t, 2, 3), "property trees: types, element types, lengths, names, bit patterns, map ids", |c| {
            let mut o = vec![];
            let n = c.of("maps", &[1u32, 0, 2, 3]);
            for i in 0..n {
                props(c, &mut o, 0, i as usize);
            }
            let b = with_props(None, n, &o, 7);
            views(c, &b)
        }),
        Driver::new("values", 0, "every property type x every bit pattern, alone, in typed vectors of 0..4, in mixed vectors", |c| {
            let ty = c.all("type", 20) as u16;
            let pat = c.all("bit pattern", 6);
            let n = c.all("in vector of", 7);
            let put = |o: &mut Vec<u8>, i: usize| match ty {
                13 => {
                    o.str(["", "a", "\u{20ac}uro", "zz", "\u{0}", "\u{1f600}"][(pat + i) % 6].as_bytes());
                }
                17 => {
                    o.u32(2).u16(5).u16(pat as u16).u16(i as u16);
                }
                18 => {
                    o.u32(i as u32).u32(1).str(b"k").u16(3).u8(pat as u8);
                }
                0 => {}
                _ => {
                    o.raw(&scalar(ty, pat, i));
                }
            };
            let mut o = vec![];
            o.u32(0).u32(2).str(b"v");
            match n {
                0 => {
                    o.u16(ty);
                    put(&mut o, 0);
                }
                6 => {
                    // Mixed vector.
                    o.u16(17).u32(3).u16(0);
                    for i in 0..3 {
                        o.u16(ty);
                        put(&mut o, i);
                    }
                }
                n => {
                    o.u16(17).u32(n as u32 - 1).u16(ty);
                    for i in 0..n - 1 {
                        put(&mut o, i);
                    }
                }
            }
            o.str(b"after").u16(1).u8(1);
            let b = with_props(None, 1, &o, 4);
            views(c, &b)
        }),
        Driver::new("flags", 0, "all flag combinations including undefined bits", |c| {
            let f = c.all("flags", 256) as u32 | c.all_of("high", &[0u32, 0xabcdef00, 0x80000000]);
            let b = with_props(None, 1, &plain_props(), f);
            views(c, &b)
        }),
        Driver::new("lengths", 0, "long typed vectors, property lists, names", |c| {
            let n = c.all_of("length", &[255usize, 256, 257, 1000, 4096, 16384, 65535, 65536, 65537, 100000]);
            let mut o = vec![];
            o.u32(0);
            match c.all("what", 6) {
                0 => {
                    o.u32(1).str(b"v").u16(17).u32(n as u32).u16(3).raw(&pixels(n, 1));
                }
                1 => {
                    o.u32(1).str(b"v").u16(17).u32(n as u32).u16(19).raw(&pixels(n * 16, 1));
                }
                2 => {
                    o.u32(n as u32);
                    for i in 0..n {
                        o.str(i.to_string().as_bytes()).u16(5).u16(i as u16);
                    }
                }
                3 => {
                    o.u32(1).str(&vec![b'n'; n.min(65535)]).u16(13).str(&vec![b'v'; n.min(65535)]);
                }
                4 => {
                    o.u32(1).str(b"v").u16(17).u32(n as u32).u16(0);
                    for i in 0..n {
                        o.u16(2).u8(i as u8);
                    }
                }
                _ => {
                    o.u32(1).str(b"v").u16(17).u32(n as u32).u16(17);
                    for _ in 0..n {
                        o.u32(0).u16(1);
                    }
                }
            }
            let b = with_props(None, 1, &o, 4);
            views(c, &b)
        }),
        Driver::new("depth", 0, "every word of map / mixed vector / typed vector nesting up to the guaranteed depth", |c| {
            let ws = words();
            let w = &ws[c.all("word", ws.len())];
            let d = 1 + c.all("depth", GUARANTEED_DEPTH);
            let b = with_props(None, 1, &nest(w, d), 4);
            views(c, &b)
        }),
        Driver::new("depth-stale", 0, "a nested tree after a deep one: depth is not carried over", |c| {
            let ws = words();
            let w = &ws[c.all("word", ws.len())];
            let d = c.all_of("first depth", &[1usize, 16, 32, 40, 100]);
            let mut ch = vec![];
            for d in [d, 31, d, 32, 30] {
                let m = nest(w, d);
                let mut v = vec![];
                v.u32(4).u32(m.len() as u32 * 2 + 8).u32(2).raw(&m).raw(&m);
                ch.push(layer(&Layer::default()));
                ch.push(chunk(USER_DATA, &v));
            }
            let b = file(&Header::default(), &[Frame::new(ch)]);
            views(c, &b)
        }),
        Driver::new("damage", 0, "every byte of a property block replaced by every value; every truncation and count", |c| {
            let mut m = plain_props();
            let base = m.len();
            let mut nmaps = 1;
            match c.all("damage", 4) {
                0 => {
                    let at = c.all("offset", base);
                    let v = c.all("value", 256) as u8;
                    m[at] = v;
                }
                1 => {
                    let at = c.all("cut", base + 1);
                    m.truncate(at);
                }
                2 => {
                    nmaps = c.all_of("maps", &[0u32, 2, 3, 255, 256, 65536, 0x7fffffff, u32::MAX]);
                    let extra = c.all("extra bytes", 10);
                    m.fill(extra, 0);
                }
                _ => {
                    let at = c.all("offset", base);
                    let v = c.all_of("dword", &[0u32, 1, 0xffff, 0x10000, 0x7fffffff, 0x80000000, u32::MAX]);
                    for (i, x) in v.to_le_bytes().iter().enumerate() {
                        if at + i < base {
                            m[at + i] = *x;
                        }
                    }
                }
            }
            let b = with_props(None, nmaps, &m, 7);
            let o = views(c, &b)?;
            // Whatever is wrong inside the maps, the file itself loads.
            ensure!(cmp::ref_file(&b).is_ok(), "model error");
            Ok(o)
        }),
        Driver::new("size-field", 0, "every declared size of the property block from 0 to beyond the chunk", |c| {
            let m = plain_props();
            let s = c.all("size", m.len() + 40) as u32;
            let s = if s < m.len() as u32 + 36 {
                s
            } else {
                [0x7fffffff, 0x80000000, u32::MAX - 7, u32::MAX][(s - m.len() as u32 - 36) as usize]
            };
            let b = with_props(Some(s), 1, &m, 7);
            views(c, &b)
        }),
    ]
}

// ---------------------------------------------------------------- C09

pub fn c09(t: Tier) -> Vec<Driver> {
    let deep = tier(t, 3usize, 4);
    vec![
        Driver::new("twice", 0, "up to three cels of one frame on two layers, of every content, equal but for one attribute", |c| {
            let b = twice(c);
            views(c, &b)
        }),
        Driver::new("mixture", 0, "every combination of the kinds of the parts of a file and of what follows them", |c| {
            let b = mixture(c);
            views(c, &b)
        }),
        Driver::new("late", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            views(c, &b)
        }),
        Driver::new("small", 0, "up to 3 frames; 0..3 layers defined in any frame; up to 3 cels per frame with any layer index", move |c| {
            let nf = 1 + c.all("frames", 3);
            let mut fs = vec![];
            let mut id = 0u8;
            for f in 0..nf {
                let mut ch = vec![];
                for _ in 0..c.all("layers", 3) {
                    ch.push(layer(&Layer::default()));
                }
                let k = c.all("cels", if f == 0 { deep + 1 } else { 3 });
                for _ in 0..k {
                    let l = c.all_of("layer index", &[0u16, 1, 2, 3, 65535]);
                    id += 1;
                    ch.push(cel(&image_cel(l, id as i16, 0, 1, 1, &[id; 4], false)));
                }
                fs.push(Frame::new(ch));
            }
            let b = file(&Header::default(), &fs);
            c.input(&b);
            let r = cmp::file(&b)?;
            Ok(outcome(&r))
        }),
        Driver::new("order", 0, "cels before, between and after the layers they name, in one or two frames", |c| {
            let n = 1 + c.all("chunks", 6);
            let split = c.all("second frame starts at", n + 1);
            let mut fs = vec![vec![], vec![]];
            for i in 0..n {
                let k = c.all("chunk", 5);
                let ch = if k == 0 {
                    layer(&Layer::default())
                } else {
                    let mut cc = image_cel(k as u16 - 1, i as i16, 0, 1, 1, &[i as u8; 4], false);
                    if i % 3 == 2 {
                        cc.content = Content::Link(0);
                    }
                    cel(&cc)
                };
                fs[(i >= split) as usize].push(ch);
            }
            let b = file(&Header::default(), &[Frame::new(fs.remove(0)), Frame::new(fs.remove(0))]);
            c.input(&b);
            let r = cmp::file(&b)?;
            Ok(outcome(&r))
        }),
        Driver::new("many-layers", 0, "layer counts and indices around 8-bit and 16-bit limits, duplicates", |c| {
            let n = c.all_of("layers", &[1usize, 2, 127, 128, 255, 256, 257, 258, 300]);
            let i = c.all("layer index", 310) as u16;
            let j = c.all_of("second index", &[0u16, 255, 256, 0xff00, 65535]);
            let mut ch: Vec<Vec<u8>> = (0..n).map(|_| layer(&Layer::default())).collect();
            ch.push(cel(&image_cel(i, 1, 1, 1, 1, &[1; 4], false)));
            let f1 = vec![
                cel(&image_cel(i, 2, 2, 1, 1, &[2; 4], false)),
                cel(&image_cel(if (j as usize) < n { j } else { i }, 3, 3, 1, 1, &[3; 4], false)),
            ];
            let mut fs = vec![Frame::new(ch), Frame::new(f1)];
            if j == 65535 {
                fs.push(Frame::new(vec![cel(&image_cel(n as u16, 0, 0, 0, 0, &[], false))]));
            }
            let b = file(&Header::default(), &fs);
            c.input(&b);
            let r = cmp::file(&b)?;
            Ok(outcome(&r))
        }),
        Driver::new("contents", 0, "dangling indices for every kind of cel and colour depth", |c| {
            let n = c.all("layers", 3);
            let i = c.all("layer index", 4) as u16;
            let content = match c.all("content", 5) {
                0 => Content::Raw { w: 0, h: 0, data: vec![] },
                1 => Content::Link(0),
                2 => Content::Zlib { w: 0, h: 0, data: zlib(&[]) },
                3 => Content::Tilemap { w: 1, h: 1, bits: 32, id: 1, x: 2, y: 4, d: 8, reserved: 0, data: vec![] },
                _ => Content::Unknown { ty: 99, data: vec![1] },
            };
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let ty = c.all("layer type", 4) as u16;
            let mut ch: Vec<Vec<u8>> = vec![palette_from(0, &[[1, 2, 3, 4]])];
            ch.extend((0..n).map(|_| layer(&Layer { ty, ..Default::default() })));
            ch.push(cel(&Cel { layer: i, content, ..Default::default() }));
            let b = file(&Header { depth, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b);
            let r = cmp::file(&b)?;
            Ok(outcome(&r))
        }),
    ]
}

// ---------------------------------------------------------------- C22

fn same_spans(what: &str, exp: &[lift::Span<'_>], got: &[lift::Span<'_>], b: &[u8]) -> cmp::B<u64> {
    ensure!(exp.len() == got.len(), "{what}: {} strings and data blocks instead of {}", got.len(), exp.len());
    for (e, g) in exp.iter().zip(got) {
        let off = e.1.as_ptr() as usize - b.as_ptr() as usize;
        ensure!(g.1.len() == e.1.len(), "{what}: {} has {} bytes, the file stores {}", e.0, g.1.len(), e.1.len());
        ensure!(
            e.1.is_empty() || g.1.as_ptr() == e.1.as_ptr(),
            "{what}: {} is not a view of the input at offset {off}",
            e.0
        );
    }
    Ok(got.len() as u64)
}
fn zero_copy(c: &mut Ctx, b: &[u8]) -> Res {
    c.input(b);
    let mut n = 0;
    if let (Ok(e), Ok(g)) = (refp::raw(b), aseprite_loader::binary::raw_file::parse_raw_file(b)) {
        n += same_spans("parse_raw_file", &lift::raw_spans(&e), &lift::raw_spans(&lift::raw(&g)), b)?;
    }
    if let (Ok(e), Ok(g)) = (cmp::ref_file(b), aseprite_loader::binary::file::parse_file(b)) {
        n += same_spans("parse_file", &lift::file_spans(&e), &lift::file_spans(&lift::file(&g)), b)?;
    }
    if let (Ok((_, s)), Ok(g)) = (cmp::ref_sprite(b), aseprite_loader::loader::AsepriteFile::load(b)) {
        let (lo, hi) = (b.as_ptr() as usize, b.as_ptr() as usize + b.len());
        for i in &g.images {
            let p = i.data.as_ptr() as usize;
            ensure!(
                i.data.is_empty() || (p >= lo && p + i.data.len() <= hi),
                "an image of the sprite is a copy, not a view of the input"
            );
        }
        // Same set of views, whatever the order of the images.
        let set = |v: Vec<&[u8]>| {
            let mut v: Vec<_> = v.iter().filter(|d| !d.is_empty()).map(|d| (d.as_ptr() as usize, d.len())).collect();
            v.sort();
            v
        };
        let e = set(s.images.iter().map(|i| i.1 .2).collect());
        let gi = set(g.images.iter().map(|i| i.data).collect());
        ensure!(e == gi, "the images of the sprite are not the stored pixel data");
        n += gi.len() as u64;
        c.count("sprites loaded", 1);
    }
    c.count("views compared by address", n);
    Ok(n)
}
pub fn c22(t: Tier) -> Vec<Driver> {
    let bound = tier(t, 1, 2);
    vec![
        Driver::new("mixture", 0, "every combination of the kinds of the parts of a file and of what follows them", |c| {
            let b = mixture(c);
            zero_copy(c, &b)
        }),
        Driver::new("late", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            zero_copy(c, &b)
        }),
        Driver::new("main", bound, "fields of header, frames, layers and cels", |c| {
            let b = main_file(c);
            zero_copy(c, &b)
        }),
        Driver::new("aux", bound, "fields of tags, slices, palettes and auxiliary chunks", |c| {
            let b = aux_file(c);
            zero_copy(c, &b)
        }),
        Driver::new("sprite", tier(t, 2, 3), "fields of a loadable sprite", |c| {
            let b = super::image::sprite_file(c);
            zero_copy(c, &b)
        }),
        Driver::new("props", tier(t, 2, 3), "property trees", |c| {
            let mut o = vec![];
            props(c, &mut o, 0, 0);
            let b = with_props(None, 1, &o, 7);
            zero_copy(c, &b)
        }),
        Driver::new("blobs", 0, "data of every pattern and many lengths in every place data can be", |c| {
            let b = blobs(c);
            zero_copy(c, &b)
        }),
        Driver::new("names", 0, "common and odd names in every place a string can be", |c| {
            let b = named(c);
            zero_copy(c, &b)
        }),
        Driver::new("lengths", 1, "string and data lengths up to the format's limits", |c| {
            let b = aux_file(c);
            zero_copy(c, &b)
        })
        .wide()
        .live(gen::USER | TAGSG | AUX | SLICES),
    ]
}

/// Pixel, tile, mask and profile data of every pattern and length.
pub fn blobs(c: &mut Ctx) -> Vec<u8> {
    let n = c.all("length", 41);
    let n = if n < 36 { n } else { [64, 128, 255, 256, 1024][n - 36] };
    let pattern = c.all("pattern", 8);
    let z = zlib_level(&pixels(n, 7), 6);
    let data: Vec<u8> = (0..n)
        .map(|i| match pattern {
            0 => 0,
            1 => 0xff,
            2 => 0x20,
            3 => i as u8,
            4 => (i + 1 == n) as u8,
            5 => (i == 0) as u8,
            6 => z[i % z.len()],
            _ => [0xfa, 0xf1, 0, 0][i % 4],
        })
        .collect();
    let place = c.all("place", 8);
    let twice = c.all("repeated", 2) == 1;
    let mut o = vec![];
    let ch = match place {
        0 => cel(&Cel { content: Content::Raw { w: 3, h: 2, data }, ..Default::default() }),
        1 => cel(&Cel { content: Content::Zlib { w: 3, h: 2, data }, ..Default::default() }),
        2 => cel(&Cel {
            content: Content::Tilemap { w: 1, h: 1, bits: 32, id: 1, x: 2, y: 4, d: 8, reserved: 0, data },
            ..Default::default()
        }),
        3 => cel(&Cel { content: Content::Unknown { ty: 8, data }, ..Default::default() }),
        4 => {
            o.u32(1).fill(16, 3).raw(&data);
            chunk(CEL_EXTRA, &o)
        }
        5 => {
            o.u16(2).u16(1).u16(7).u16(8).fill(8, 0).u32(data.len() as u32).raw(&data);
            chunk(COLOR_PROFILE, &o)
        }
        6 => {
            // One bit per pixel, rows padded to bytes.
            o.i16(0).i16(0).u16(8).u16(data.len() as u16).fill(8, 0).str(b"mask").raw(&data);
            chunk(MASK, &o)
        }
        _ => {
            o.u32(1).u32(2).u32(1).u16(3).u16(2).i16(0).fill(14, 0).str(b"tiles").u32(data.len() as u32).raw(&data);
            chunk(TILESET, &o)
        }
    };
    let mut f0 = vec![layer(&Layer::default()), ch.clone()];
    if twice {
        f0.push(ch);
    }
    file(&Header { width: 3, height: 2, ..Default::default() }, &[Frame::new(f0)])
}

// ---------------------------------------------------------------- C24

/// A file with every enumeration field twice, two of them with odd values.
fn enumerations(c: &mut Ctx) -> Vec<u8> {
    const V: [u16; 44] = [
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31, 32, 33, 63, 64, 100, 127, 128, 129, 254, 255, 256, 257, 258, 259, 274,
        0x0fff, 0x2004, 0x2020, 0x7fff, 0x8000, 0xff00, 0xffff,
    ];
    const FIELDS: usize = 14;
    let mut v = [32u16, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0x3333, 0x4444];
    let (i, j) = (c.all("field", FIELDS), c.all("other field", FIELDS));
    v[i] = c.all_of("value", &V);
    v[j] = c.all_of("other value", &V);
    let swap = c.all("frames swapped", 2) == 1;
    let l = |k: usize| layer(&Layer { ty: v[1 + k], blend: v[3 + k], level: k as u16, flags: 3 + 4 * k as u16, tileset: 9, name: vec![b'a' + k as u8], ..Default::default() });
    let ce = |k: usize| {
        let mut d = vec![];
        d.u16(k as u16).i16(3).i16(4).u8(5).u16(v[5 + k]).i16(6).fill(5, 0);
        d.u16(0).u16(0).raw(&[0; 40]);
        chunk(CEL, &d)
    };
    let unknown = |k: usize| {
        let mut d = vec![];
        d.u16(v[12 + k]).fill(160, 0);
        let mut x = vec![];
        x.u32(d.len() as u32 + 4).raw(&d);
        x
    };
    let mut profile = vec![];
    profile.u16(v[8]).u16(1).u16(7).u16(8).fill(8, 0).u32(2).raw(b"ic");
    let mut ext = vec![];
    ext.u32(2).fill(8, 0);
    for k in 0..2 {
        ext.u32(5).u8(v[10 + k] as u8).fill(7, 0).str(b"n");
    }
    let dirs = [v[7] as u8, v[9] as u8];
    let f0 = vec![l(0), user_text(b"l0"), ce(0), unknown(0), chunk(COLOR_PROFILE, &profile), l(1), user_text(b"l1")];
    let f1 = vec![
        chunk(EXTERNAL, &ext),
        ce(1),
        user_text(b"c1"),
        unknown(1),
        tags(&[(0, 0, dirs[0], 3, [1, 2, 3], b"t"), (0, 0, dirs[1], 3, [1, 2, 3], b"u")]),
        user_text(b"t0"),
        palette_from(0, &[[1, 2, 3, 4]]),
    ];
    let mut fs = vec![Frame::new(f0), Frame::new(f1)];
    if swap {
        fs.reverse();
    }
    file(&Header { depth: v[0], width: 1, height: 1, ..Default::default() }, &fs)
}

pub fn c24(t: Tier) -> Vec<Driver> {
    vec![Driver::new("pairs", 0, "every pair of enumeration fields of two objects each, boundary values, in either frame", |c| {
        let b = enumerations(c);
        let o = views(c, &b)?;
        Ok(o ^ outcome(&cmp::load(&b)?.map(|_| ())))
    }),
    Driver::new("fields", tier(t, 2, 3), "every field of header, layers and cels, boundary values", |c| {
        let b = main_file(c);
        views(c, &b)
    })
    .live(HEADER | LAYERS | CELS),
    Driver::new("aux-fields", 2, "pairs of fields of tags and auxiliary chunks", |c| {
        let b = aux_file(c);
        views(c, &b)
    })
    .live(TAGSG | AUX),
    Driver::new("values", 0, "all 2^8 or 2^16 values of every enumeration field", |c| {
        let field = c.all("field", 8);
        let v = c.all("value", if matches!(field, 4 | 6) { 256 } else { 65536 }) as u16;
        let mut h = Header { width: 1, height: 1, ..Default::default() };
        let l = Layer::default();
        let px = image_cel(0, 0, 0, 0, 0, &[], false);
        let after = vec![slice(b"after", 1), user_text(b"x")];
        let mut ch = match field {
            0 => {
                h.depth = v;
                vec![palette_from(0, &[[1, 2, 3, 4]]), layer(&l), cel(&px)]
            }
            1 => vec![layer(&Layer { ty: v, tileset: 0x01020304, ..l }), user_text(b"l"), cel(&px)],
            2 => vec![layer(&Layer { blend: v, ..l }), cel(&px)],
            3 => {
                let mut d = vec![];
                d.u16(0).i16(3).i16(4).u8(5).u16(v).i16(6).fill(5, 0);
                d.raw(&[0; 40]);
                vec![layer(&l), chunk(CEL, &d), user_text(b"c")]
            }
            4 => vec![tags(&[(0, 0, v as u8, 3, [1, 2, 3], b"t"), (0, 0, 1, 3, [1, 2, 3], b"u")]), layer(&l)],
            5 => {
                let mut d = vec![];
                d.u16(v).u16(1).u16(7).u16(8).fill(8, 0).u32(2).raw(b"ic");
                vec![chunk(COLOR_PROFILE, &d), layer(&l)]
            }
            6 => {
                let mut d = vec![];
                d.u32(2).fill(8, 0);
                for _ in 0..2 {
                    d.u32(5).u8(v as u8).fill(7, 0).str(b"n");
                }
                vec![chunk(EXTERNAL, &d), layer(&l)]
            }
            _ => {
                // A body that every known chunk type can be read from.
                let mut d = vec![];
                d.u16(v).fill(160, 0);
                let len = d.len() as u32 + 4;
                let mut x = vec![];
                x.u32(len).raw(&d);
                vec![layer(&l), x, cel(&px)]
            }
        };
        ch.extend(after);
        let b = file(&h, &[Frame::new(ch)]);
        let o = views(c, &b)?;
        // The conversions themselves.
        #[cfg(feature = "inner")]
        use aseprite_loader::binary as x;
        #[cfg(feature = "inner")]
        use crate::refp::*;
        #[cfg(feature = "inner")]
        match field {
            0 => {
                let d = x::color_depth::ColorDepth::from(v);
                let e = match v {
                    32 => Depth::Rgba,
                    16 => Depth::Gray,
                    8 => Depth::Indexed,
                    n => Depth::Unknown(n),
                };
                ensure!(lift::depth(d) == e, "ColorDepth::from({v}) is {d:?}");
                ensure!(d.bpp() == v, "bpp() of depth {v} is {}", d.bpp());
                let px = [(32, 4usize), (16, 2), (8, 1)].iter().find(|p| p.0 == v).map(|p| p.1);
                ensure!(d.pixel_size() == px, "pixel_size() of depth {v} is {:?}", d.pixel_size());
            }
            1 => {
                let d = x::chunks::layer::LayerType::from(v);
                let e = [LType::Normal, LType::Group, LType::Tilemap].get(v as usize).copied().unwrap_or(LType::Unknown(v));
                ensure!(lift::ltype(d) == e, "LayerType::from({v}) is {d:?}");
            }
            2 => {
                let d = x::blend_mode::BlendMode::from(v);
                let e = if v <= 18 { Blend::Known(v as u8) } else { Blend::Unknown(v) };
                ensure!(lift::blend(d) == e, "BlendMode::from({v}) is {d:?}");
                match x::blend_mode::parse_blend_mode(&v.to_le_bytes()) {
                    Ok((r, p)) => ensure!(r.is_empty() && lift::blend(p) == e, "parse_blend_mode({v}) is {p:?}"),
                    Err(_) => bad!("parse_blend_mode({v}) fails"),
                }
            }
            4 => {
                let d = x::chunks::tags::AnimationDirection::from(v as u8);
                ensure!(lift::dir(d) == (v <= 3, v as u8), "AnimationDirection::from({v}) is {d:?}");
            }
            _ => {}
        }
        if field != 3 {
            // No unknown value keeps the sprite from loading (except cels without an image).
            let r = cmp::load(&b)?;
            ensure!(field == 7 || r.is_ok(), "file with value {v} does not load: {:?}", r.err());
        }
        Ok(o ^ field as u64)
    })]
}
