//! C29: the same picture stored in different ways.
use super::tier;
use crate::cmp::B;
use crate::enc::*;
use crate::explore::*;
use crate::{bad, ensure, Tier};
use aseprite_loader::loader::{AsepriteFile, LayerSelection};
use aseprite_loader::binary::chunks::layer::LayerFlags;
use std::sync::OnceLock;

const FRAMES: usize = 3;
const W: usize = 5;
const H: usize = 4;
const PICTURES: usize = 5;
const NAMES: [&str; 2] = ["lower", "upper"];

struct Part {
    x: i16,
    y: i16,
    w: usize,
    h: usize,
    opacity: u8,
    z: i16,
    /// Colour numbers; number 0 is transparent.
    px: Vec<usize>,
}
/// What is to be seen, independent of any way of storing it.
struct Pic {
    /// Grey value and alpha; they exist in all three colour depths.
    colors: [(u8, u8); 6],
    modes: [u16; 2],
    /// The lower layer is a background: it has no transparent colour.
    background: bool,
    opacity: [u8; 2],
    visible: [bool; 2],
    parts: [[Option<Part>; 2]; FRAMES],
}
fn part(x: i16, y: i16, w: usize, h: usize, opacity: u8, z: i16, seed: usize) -> Option<Part> {
    let px = (0..w * h).map(|i| (i * 5 + seed + i / 3) % 6).collect();
    Some(Part { x, y, w, h, opacity, z, px })
}
fn pic(n: usize) -> Pic {
    // Values that a 6-bit palette can express.
    let opaque = [(0, 0), (0, 255), (40, 255), (134, 255), (195, 255), (255, 255)];
    match n {
        0 => Pic {
            colors: opaque,
            background: false,
            modes: [0, 0],
            opacity: [255, 255],
            visible: [true, true],
            parts: [
                [part(0, 0, 5, 4, 255, 0, 1), part(1, 1, 2, 2, 255, 0, 0)],
                [part(-1, 1, 4, 2, 128, 0, 3), part(2, -1, 2, 2, 90, 0, 0)],
                [part(2, 2, 5, 4, 255, 0, 1), part(0, 0, 3, 3, 255, 0, 2)],
            ],
        },
        1 => Pic {
            colors: [(0, 0), (17, 255), (40, 128), (134, 1), (195, 254), (255, 77)],
            background: false,
            modes: [1, 12],
            opacity: [200, 130],
            visible: [true, true],
            parts: [
                [part(0, 0, 3, 3, 255, 0, 1), part(1, 1, 3, 2, 100, 0, 4)],
                [part(0, 0, 3, 3, 40, 0, 1), None],
                [None, part(-1, -1, 3, 2, 255, 0, 4)],
            ],
        },
        2 => Pic {
            colors: opaque,
            background: false,
            modes: [0, 2],
            opacity: [255, 255],
            visible: [true, true],
            parts: [
                [part(0, 0, 4, 4, 255, 1, 1), part(1, 0, 4, 3, 255, 0, 0)],
                [part(0, 0, 4, 4, 77, 5, 1), part(1, 1, 4, 3, 77, -5, 0)],
                [part(0, 0, 4, 4, 255, 0, 1), part(1, 1, 4, 3, 255, -1, 0)],
            ],
        },
        3 => Pic {
            colors: opaque,
            background: false,
            modes: [3, 0],
            opacity: [255, 255],
            visible: [true, false],
            parts: [
                [part(0, 0, 4, 4, 255, 0, 1), part(1, 0, 4, 3, 255, 0, 0)],
                [part(0, 0, 4, 4, 255, 0, 1), part(1, 1, 4, 3, 255, 0, 0)],
                [None, part(1, 1, 4, 3, 255, 0, 3)],
            ],
        },
        _ => Pic {
            colors: opaque,
            background: true,
            modes: [0, 6],
            opacity: [255, 255],
            visible: [true, true],
            parts: [
                [part(0, 0, 5, 4, 255, 0, 0), part(1, 0, 4, 3, 255, 0, 0)],
                [part(0, 0, 5, 4, 255, 0, 0), part(1, 1, 4, 3, 200, 0, 2)],
                [part(0, 0, 5, 4, 255, 0, 2), part(0, 0, 4, 3, 255, 0, 0)],
            ],
        },
    }
}
/// What colour number 0 is on a background layer.
const PAPER: u8 = 85;

/// Everything a user sees of the two layers of the picture.
#[derive(PartialEq, Debug, Clone)]
struct Seen {
    size: (u16, u16),
    layers: Vec<String>,
    tags: Vec<String>,
    frames: Vec<(u16, Vec<(String, (i16, i16), (u16, u16), u8, Vec<u8>)>)>,
    /// Per frame: visible layers on an empty and a painted canvas, the named
    /// layers on an empty canvas.
    pixels: Vec<[Vec<u8>; 3]>,
}
/// A transparent pixel has no colour.
fn clear(px: &mut [u8]) {
    for p in px.chunks_exact_mut(4) {
        if p[3] == 0 {
            p.fill(0);
        }
    }
}
fn see(b: &[u8]) -> B<Seen> {
    let af = match AsepriteFile::load(b) {
        Ok(a) => a,
        Err(e) => bad!("the picture does not load: {e:?}"),
    };
    let mine = |i: usize| af.layers().get(i).is_some_and(|l| NAMES.contains(&l.name.as_str()));
    let mut frames = vec![];
    let mut pixels = vec![];
    let named = af.select_layers_by_name(&NAMES);
    for (i, f) in af.frames().iter().enumerate() {
        let mut cels = vec![];
        for c in f.cels.iter().filter(|c| mine(c.layer_index)) {
            let mut px = vec![0x33; c.size.0 as usize * c.size.1 as usize * 4];
            if let Err(e) = af.load_image(c.image_index, &mut px) {
                bad!("an image of frame {i} does not load: {e:?}");
            }
            clear(&mut px);
            if af.file.layers[c.layer_index].flags.contains(LayerFlags::BACKGROUND) {
                // On its own the image has its transparent colour.
                px.clear();
            }
            cels.push((af.layers()[c.layer_index].name.clone(), c.origin, c.size, c.opacity, px));
        }
        frames.push((f.duration, cels));
        let mut set = vec![];
        for (sel, fill) in [(&LayerSelection::Visible, 0u8), (&LayerSelection::Visible, 0xb4), (&named, 0)] {
            let (w, h) = af.size();
            let mut buf = vec![fill; w as usize * h as usize * 4];
            if let Err(e) = af.render_frame(i, &mut buf, sel) {
                bad!("frame {i} does not render: {e:?}");
            }
            clear(&mut buf);
            set.push(buf);
        }
        pixels.push(set.try_into().unwrap());
    }
    Ok(Seen {
        size: af.size(),
        layers: af
            .layers()
            .iter()
            .filter(|l| NAMES.contains(&l.name.as_str()))
            .map(|l| format!("{} {:?} opacity {} visible {} {:?}", l.name, l.blend_mode, l.opacity, l.visible, l.layer_type))
            .collect(),
        tags: af.tags().iter().map(|t| format!("{t:?}")).collect(),
        frames,
        pixels,
    })
}

/// One way of storing the picture; the default choices are the plain one.
fn store(c: &mut Ctx, n: usize) -> Vec<u8> {
    let p = pic(n);
    let opaque = p.colors[1..].iter().all(|c| c.1 == 255);
    let depth = c.of("colour depth", &[32u16, 16, 8]);
    // Colour number -> palette index.
    let (transparent, index): (u8, [u8; 6]) = match if depth == 8 { c.pick("palette order", 4) } else { 0 } {
        0 => (0, [0, 1, 2, 3, 4, 5]),
        1 => (5, [5, 4, 3, 2, 1, 0]),
        2 => (255, [255, 0, 254, 128, 127, 7]),
        _ => (128, [128, 255, 1, 129, 64, 63]),
    };
    let bytes = |px: &[usize], paper: bool| -> Vec<u8> {
        let mut v = vec![];
        for &k in px {
            let (g, a) = if paper && k == 0 { (PAPER, 255) } else { p.colors[k] };
            match depth {
                32 => v.extend([g, g, g, a]),
                16 => v.extend([g, a]),
                _ => v.push(index[k]),
            }
        }
        v
    };
    // Layers around the two of the picture.
    let extra = c.pick("further layers", 8);
    let (mut list, mut number): (Vec<Layer>, [u16; 2]) = (vec![], [0, 1]);
    let flag_valid = !(p.opacity == [255, 255] && c.flag("layer opacity field unused"));
    let flags = c.of("other layer flags", &[0u16, 2, 0x36, 0xff80, 0x24]);
    let unused = c.of("unused layer fields", &[0u8, 1, 255]);
    let two: Vec<Layer> = (0..2)
        .map(|i| Layer {
            flags: flags & !1 | p.visible[i] as u16 | ((p.background && i == 0) as u16) << 3,
            blend: p.modes[i],
            opacity: if flag_valid { p.opacity[i] } else { [17, 0][i] },
            name: NAMES[i].as_bytes().to_vec(),
            reserved: [unused; 3],
            defw: unused as u16 * 0x101,
            defh: unused as u16,
            ..Default::default()
        })
        .collect();
    let hidden = Layer { flags: 2, name: b"hidden".to_vec(), ..Default::default() };
    let group = Layer { flags: 3, ty: 1, name: b"group".to_vec(), opacity: 30, blend: 5, ..Default::default() };
    let in_group = |l: &Layer, n: u16| Layer { level: n, ..l.clone() };
    match extra {
        0 => list.extend(two),
        1 => {
            list.push(hidden.clone());
            list.extend(two);
            number = [1, 2];
        }
        2 => {
            list.extend(two);
            list.push(hidden.clone());
        }
        // A layer in between moves the upper one up, so not where cels are reordered.
        3 if n != 2 => {
            list.extend([two[0].clone(), hidden.clone(), two[1].clone()]);
            number = [0, 2];
        }
        3 | 4 => {
            list.extend([group, in_group(&two[0], 1), in_group(&two[1], 1)]);
            number = [1, 2];
        }
        5 => {
            let g = Layer { flags: 0, ..group };
            list.extend([g, in_group(&Layer { flags: 1, ..hidden.clone() }, 1), two[0].clone(), two[1].clone()]);
            number = [2, 3];
        }
        6 => {
            list.extend([two[0].clone(), two[1].clone(), group.clone(), in_group(&hidden, 1)]);
        }
        _ => {
            list.extend([group.clone(), in_group(&group, 1), in_group(&two[0], 2), in_group(&two[1], 2)]);
            number = [2, 3];
        }
    }
    let spare: Vec<u16> = list.iter().enumerate().filter(|(_, l)| l.name == b"hidden").map(|(i, _)| i as u16).collect();
    let tail = c.of("bytes at the end of layers", &[0usize, 1, 7]);
    let data = c.pick("user data", 3);
    let mut layers = vec![];
    for l in &list {
        let mut b = layer(l);
        b.fill(tail, 0xee);
        let n = b.len() as u32;
        b[..4].copy_from_slice(&n.to_le_bytes());
        layers.push(b);
        if data == 1 {
            layers.push(user_text(b"layer text"));
        }
    }
    // Cels.
    let spare_cels = !spare.is_empty() && c.flag("cels of further layers");
    let mut frames: Vec<Vec<Vec<u8>>> = vec![];
    for f in 0..FRAMES {
        let mut cels = vec![];
        for l in 0..2 {
            let Some(q) = &p.parts[f][l] else { continue };
            let same = (0..f).find(|&g| {
                p.parts[g][l].as_ref().is_some_and(|o| (o.w, o.h) == (q.w, q.h) && o.px == q.px)
            });
            let px = bytes(&q.px, p.background && l == 0);
            let (w, h) = (q.w as u16, q.h as u16);
            let how = c.pick("stored as", if same.is_some() { 6 } else { 5 });
            let content = match how {
                0 => Content::Raw { w, h, data: px },
                1 => Content::Zlib { w, h, data: zlib_stored(&px) },
                2 => Content::Zlib { w, h, data: zlib_level(&px, 1) },
                3 => Content::Zlib { w, h, data: zlib_level(&px, 9) },
                4 => Content::Zlib { w, h, data: zlib_level(&px, 0) },
                // The first frame with that image stores it.
                _ => Content::Link(same.unwrap() as u16),
            };
            cels.push(cel(&Cel {
                layer: number[l],
                x: q.x,
                y: q.y,
                opacity: q.opacity,
                z: q.z,
                reserved: [unused; 5],
                content,
            }));
            if data == 2 {
                cels.push(user_text(b"cel text"));
            }
        }
        frames.push(cels);
    }
    if spare_cels {
        for (f, cels) in frames.iter_mut().enumerate() {
            cels.insert(0, cel(&image_cel(spare[0], f as i16, 0, 1, 1, &bytes(&[5], false), f == 1)));
        }
    }
    if data != 2 {
        for f in &mut frames {
            if c.flag("cels in reverse order") {
                f.reverse();
            }
        }
    }
    // Where the layers are.
    match c.pick("layers at", 5) {
        0 => drop(frames[0].splice(0..0, layers)),
        1 => frames[0].extend(layers),
        2 => drop(frames[1].splice(0..0, layers)),
        3 => frames[FRAMES - 1].extend(layers),
        _ => {
            let at = layers.len() / 2;
            // A user data chunk stays with its layer.
            let at = if data == 1 { at / 2 * 2 } else { at };
            let late = layers.split_off(at);
            drop(frames[0].splice(0..0, layers));
            frames[2].extend(late);
        }
    }
    // Palette.
    let full = |with: &dyn Fn(usize) -> [u8; 4]| -> Vec<[u8; 4]> {
        let mut v: Vec<[u8; 4]> = (0..256).map(with).collect();
        for (k, &(g, a)) in p.colors.iter().enumerate() {
            v[index[k] as usize] = if k == 0 && p.background { [PAPER, PAPER, PAPER, 255] } else if k == 0 { [9, 8, 7, 255] } else { [g, g, g, a] };
        }
        v
    };
    let cols = full(&|i| [i as u8, 1, 2, 255]);
    let top = index.iter().map(|i| *i as usize).max().unwrap();
    let kinds = match (depth == 8, opaque) {
        (false, _) => 3,
        (true, false) => 8,
        (true, true) => 13,
    };
    let kind = c.pick("palette", kinds);
    let rgb = |r: std::ops::Range<usize>| -> Vec<[u8; 3]> { cols[r].iter().map(|c| [c[0], c[1], c[2]]).collect() };
    let six = |r: std::ops::Range<usize>| -> Vec<[u8; 3]> { cols[r].iter().map(|c| [c[0] >> 2, c[1] >> 2, c[2] >> 2]).collect() };
    let wrong: Vec<[u8; 4]> = cols.iter().map(|c| [c[0] ^ 0x5a, 3, 4, 200]).collect();
    let used = &cols[..=top];
    if depth == 8 {
        let mut first: Vec<Vec<u8>> = vec![];
        match kind {
            0 => first.push(palette_from(0, used)),
            1 => {
                let h = top / 2 + 1;
                first.push(palette_from(0, &used[..h]));
                first.push(palette_from(h as u8, &used[h..]));
            }
            2 => {
                let e: Vec<_> = used.iter().enumerate().map(|(i, c)| (*c, (i % 3 != 1).then_some(&b"name"[..]))).collect();
                first.push(palette(256, 0, top as u32, &e));
            }
            3 => {
                // One chunk after the other replaces colours.
                first.push(palette_from(0, &wrong));
                first.push(palette_from(0, used));
            }
            4 => {
                first.push(palette_from(0, &wrong[..=top]));
                frames[1].push(palette_from(0, used));
            }
            5 => {
                let h = top / 2 + 1;
                frames[2].push(palette_from(h as u8, &used[h..]));
                first.push(palette_from(0, &used[..h]));
            }
            6 => {
                // The old kind does not count when there is the new one.
                first.push(old_palette(OLD04, &[(0, 0, vec![[1, 2, 3]; 256])]));
                first.push(palette_from(0, used));
            }
            7 => first.push(palette_from(0, &cols)),
            8 => first.push(old_palette(OLD04, &[(0, 0, rgb(0..256))])),
            9 => {
                let h = top / 2 + 1;
                let n = top + 1 - h;
                first.push(old_palette(OLD04, &[(0, h as u8, rgb(0..h)), (0, n as u8, rgb(h..top + 1))]));
            }
            10 => first.push(old_palette(OLD11, &[(0, 0, six(0..256))])),
            11 => {
                first.push(old_palette(OLD11, &[(0, 0, vec![[1, 2, 3]; 256])]));
                first.push(old_palette(OLD04, &[(0, 0, rgb(0..256))]));
            }
            _ => {
                let h = top / 2 + 1;
                let n = top + 1 - h;
                first.push(old_palette(OLD04, &[(0, h as u8, rgb(0..h))]));
                first.push(old_palette(OLD04, &[(h as u8, n as u8, rgb(h..top + 1))]));
            }
        }
        if c.flag("palette at the end") {
            frames[0].extend(first);
        } else {
            drop(frames[0].splice(0..0, first));
        }
    } else {
        match kind {
            0 => {}
            1 => frames[0].insert(0, palette_from(0, &wrong)),
            _ => frames[1].push(old_palette(OLD04, &[(3, 1, vec![[1, 2, 3]])])),
        }
    }
    frames[0].push(tags(&[(0, 1, 2, 3, [1, 2, 3], b"tag")]));
    // Chunks that show nothing.
    let noise = match c.pick("chunks that show nothing", 8) {
        0 => None,
        1 => Some(chunk(0x3000, b"??")),
        2 => Some(chunk(0xffff, &[])),
        3 => Some(color_profile()),
        4 => Some(chunk(PATH, &[1, 2, 3])),
        5 => Some(cel_extra()),
        6 => Some(crate::gen::gen_mask(&mut Ctx::plain())),
        _ => Some(crate::gen::gen_external(&mut Ctx::plain())),
    };
    if let Some(x) = noise {
        let everywhere = c.all("how often", 3);
        for f in &mut frames {
            match everywhere {
                0 => f.insert(0, x.clone()),
                1 => f.push(x.clone()),
                _ if data == 0 => {
                    for i in (0..=f.len()).rev() {
                        f.insert(i, x.clone());
                    }
                }
                _ => f.push(x.clone()),
            }
        }
    }
    // Frames and header.
    let count = c.pick("chunk count fields", 5);
    let unread = c.of("bytes at the end of frames", &[0usize, 1, 6, 300]);
    let res = c.of("reserved bytes", &[0u8, 1, 0xff]);
    let fs: Vec<Vec<u8>> = frames
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let n = f.len();
            let (old, new) = match count {
                0 => (n as u16, n as u32),
                1 => (n as u16, 0),
                2 => (0xffff, n as u32),
                3 => (0, n as u32),
                _ => (n as u16 + 1, n as u32),
            };
            let (old, new) = if n == 0 { (0, 0) } else { (old, new) };
            let mut body = f.concat();
            body.fill(unread, 0xa7);
            frame_raw(old, new, 50 + i as u16 * 300, [res, res], &body)
        })
        .collect();
    let h = Header {
        width: W as u16,
        height: H as u16,
        depth,
        flags: c.of("header flags", &[0u32, 2, 4, 0xffff_fffe]) & !1 | flag_valid as u32,
        transparent: if depth == 8 { transparent } else { c.of("unused transparent index", &[0u8, 1, 255]) },
        file_size: [None, Some(0), Some(u32::MAX)][c.pick("file size field", 3)],
        frames: [None, Some(0), Some(1), Some(9)][c.pick("frame count field", 4)],
        speed: c.of("speed", &[100u16, 0, 1]),
        colors: c.of("colour count", &[32u16, 0, 1, 256, 65535]),
        pw: c.of("pixel width", &[1u8, 0, 2]),
        ph: c.of("pixel height", &[1u8, 0, 3]),
        gx: c.of("grid x", &[0i16, -1, 300]),
        gw: c.of("grid width", &[16u16, 0, 65535]),
        ignore: [res; 3],
        future: res,
        ..Default::default()
    };
    file_raw(&h, &fs)
}

fn same(c: &mut Ctx, n: usize) -> Res {
    static PLAIN: [OnceLock<B<Seen>>; PICTURES] = [const { OnceLock::new() }; PICTURES];
    let b = store(c, n);
    c.input(&b);
    let e = PLAIN[n].get_or_init(|| see(&store(&mut Ctx::plain(), n))).clone()?;
    let g = see(&b)?;
    ensure!(g.size == e.size, "size {:?} instead of {:?}", g.size, e.size);
    ensure!(g.layers == e.layers, "layers {:?} instead of {:?}", g.layers, e.layers);
    ensure!(g.tags == e.tags, "tags {:?} instead of {:?}", g.tags, e.tags);
    ensure!(g.frames.len() == e.frames.len(), "{} frames instead of {}", g.frames.len(), e.frames.len());
    for (i, (g, e)) in g.frames.iter().zip(&e.frames).enumerate() {
        ensure!(g.0 == e.0, "frame {i} lasts {} instead of {}", g.0, e.0);
        ensure!(g.1.len() == e.1.len(), "frame {i} has {} cels instead of {}", g.1.len(), e.1.len());
        for (g, e) in g.1.iter().zip(&e.1) {
            ensure!((&g.0, g.1, g.2, g.3) == (&e.0, e.1, e.2, e.3), "cel of frame {i}: {:?} instead of {:?}", (&g.0, g.1, g.2, g.3), (&e.0, e.1, e.2, e.3));
            if let Some(k) = (0..e.4.len() / 4).find(|k| g.4[k * 4..k * 4 + 4] != e.4[k * 4..k * 4 + 4]) {
                bad!("image of {} in frame {i}: pixel {k} is {:?} instead of {:?}", e.0, &g.4[k * 4..k * 4 + 4], &e.4[k * 4..k * 4 + 4]);
            }
        }
    }
    for (i, (g, e)) in g.pixels.iter().zip(&e.pixels).enumerate() {
        for (k, (g, e)) in g.iter().zip(e).enumerate() {
            if let Some(at) = (0..g.len().max(e.len())).find(|&j| g.get(j) != e.get(j)) {
                let at = at / 4;
                bad!(
                    "frame {i}, {}: pixel ({}, {}) is {:?} instead of {:?}",
                    ["visible layers on an empty canvas", "visible layers on a painted canvas", "named layers"][k],
                    at % W,
                    at / W,
                    g.get(at * 4..at * 4 + 4),
                    e.get(at * 4..at * 4 + 4)
                );
            }
        }
    }
    c.count("frames compared", FRAMES as u64);
    Ok(hash(format!("{:?}", g.pixels[0][0]).as_bytes()))
}

pub fn c29(t: Tier) -> Vec<Driver> {
    vec![Driver::new(
        "storage",
        tier(t, 3, 4),
        "five pictures stored in every way: colour depth, palette, compression, links, order, further layers, chunks and fields that show nothing",
        |c| {
            let n = c.all("picture", PICTURES);
            same(c, n)
        },
    )]
}
