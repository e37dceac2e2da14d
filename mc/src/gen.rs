//! Input generators: files in which every field is a choice point.
use crate::enc::{self, *};
use crate::explore::{Alpha, Ctx};

pub const HEADER: u32 = 1;
pub const FRAME: u32 = 2;
pub const LAYERS: u32 = 4;
pub const CELS: u32 = 8;
pub const TAGSG: u32 = 16;
pub const SLICES: u32 = 32;
pub const PAL: u32 = 64;
pub const AUX: u32 = 128;
pub const USER: u32 = 256;
pub const OLDPAL: u32 = 512;

/// Field generator of one group: choices are taken only if the group is live.
pub struct G<'c> {
    pub c: &'c mut Ctx,
    pub on: bool,
}
const N8: [u8; 7] = [0, 1, 2, 127, 128, 254, 255];
const N16: [u16; 12] = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xfffe, 0xffff];
const N32: [u32; 14] = [
    0, 1, 2, 3, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x12345678, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff,
];
const NAMES: [&str; 8] = ["", "a", "\u{0}", "name with spaces", "h\u{e9}", "\u{6f22}\u{5b57}", "\u{1f980}", "\u{feff}x"];

pub fn group<'c>(c: &'c mut Ctx, g: u32) -> G<'c> {
    let on = c.live & g != 0;
    G { c, on }
}
impl G<'_> {
    fn wide(&self) -> bool {
        self.c.alpha == Alpha::Wide
    }
    /// Choice with `n` deviations besides the default; None = default.
    pub fn dev(&mut self, l: &'static str, n: usize) -> Option<usize> {
        if !self.on {
            return None;
        }
        self.c.pick(l, n + 1).checked_sub(1)
    }
    pub fn u8(&mut self, l: &'static str, d: u8) -> u8 {
        let n = if self.wide() { 256 } else { N8.len() };
        match self.dev(l, n) {
            None => d,
            Some(i) if self.wide() => i as u8,
            Some(i) => N8[i],
        }
    }
    pub fn u16(&mut self, l: &'static str, d: u16) -> u16 {
        let n = if self.wide() { 65536 } else { N16.len() };
        match self.dev(l, n) {
            None => d,
            Some(i) if self.wide() => i as u16,
            Some(i) => N16[i],
        }
    }
    pub fn i16(&mut self, l: &'static str, d: i16) -> i16 {
        self.u16(l, d as u16) as i16
    }
    pub fn u32(&mut self, l: &'static str, d: u32) -> u32 {
        // Wide: every value of every byte lane over a patterned background, every
        // single bit and its complement.
        let n = if self.wide() { 4 * 256 + 64 + N32.len() } else { N32.len() };
        match self.dev(l, n) {
            None => d,
            Some(i) if i < N32.len() => N32[i],
            Some(i) => {
                let i = i - N32.len();
                if i < 64 {
                    let b = 1u32 << (i % 32);
                    if i < 32 {
                        b
                    } else {
                        !b
                    }
                } else {
                    let (lane, v) = ((i - 64) / 256, (i - 64) % 256);
                    0xa1b2c3d4 & !(0xff << (8 * lane)) | (v as u32) << (8 * lane)
                }
            }
        }
    }
    pub fn i32(&mut self, l: &'static str, d: i32) -> i32 {
        self.u32(l, d as u32) as i32
    }
    pub fn bits(&mut self, l: &'static str, n: usize, d: usize) -> usize {
        self.dev(l, n).unwrap_or(d)
    }
    pub fn name(&mut self, l: &'static str, d: &str) -> Vec<u8> {
        let lens: Vec<usize> = if self.wide() {
            (0..=600).chain([1000, 4095, 4096, 32767, 32768, 65534, 65535]).collect()
        } else {
            vec![127, 128, 255, 256, 257]
        };
        match self.dev(l, NAMES.len() + lens.len()) {
            None => d.as_bytes().to_vec(),
            Some(i) if i < NAMES.len() => NAMES[i].as_bytes().to_vec(),
            Some(i) => (0..lens[i - NAMES.len()]).map(|k| b'a' + (k % 26) as u8).collect(),
        }
    }
    pub fn blob(&mut self, l: &'static str, d: usize) -> Vec<u8> {
        let lens: &[usize] =
            if self.wide() { &[0, 1, 2, 3, 4, 5, 255, 256, 65535, 65536, 70000] } else { &[0, 1, 2, 7, 300] };
        let n = match self.dev(l, lens.len()) {
            None => d,
            Some(i) => lens[i],
        };
        (0..n).map(|k| (k * 7 + 3) as u8).collect()
    }
    /// Number of entries of a list.
    pub fn count(&mut self, l: &'static str, d: usize) -> usize {
        let v: &[usize] =
            if self.wide() { &[0, 1, 2, 3, 4, 5, 127, 128, 255, 256, 257, 300, 1000] } else { &[0, 1, 2, 3, 4] };
        match self.dev(l, v.len()) {
            None => d,
            Some(i) => v[i],
        }
    }
    pub fn res(&mut self, l: &'static str) -> u8 {
        [0, 0xff, 1][self.bits(l, 3, 0)]
    }
}

pub fn gen_header(c: &mut Ctx, d: &enc::Header) -> enc::Header {
    let mut g = group(c, HEADER);
    enc::Header {
        file_size: [None, Some(0), Some(1), Some(u32::MAX)][g.bits("file size", 4, 0)],
        frames: match g.dev("frame count", 5) {
            None => d.frames,
            Some(i) => Some([0, 1, 2, 300, 65535][i]),
        },
        width: g.u16("width", d.width),
        height: g.u16("height", d.height),
        depth: g.u16("colour depth", d.depth),
        flags: g.u32("header flags", d.flags),
        speed: g.u16("speed", d.speed),
        transparent: g.u8("transparent index", d.transparent),
        ignore: [g.res("ignored bytes"); 3],
        colors: g.u16("colour count", d.colors),
        pw: g.u8("pixel width", d.pw),
        ph: g.u8("pixel height", d.ph),
        gx: g.i16("grid x", d.gx),
        gy: g.i16("grid y", d.gy),
        gw: g.u16("grid width", d.gw),
        gh: g.u16("grid height", d.gh),
        future: g.res("future bytes"),
    }
}
pub fn gen_layer(c: &mut Ctx, d: enc::Layer) -> Vec<u8> {
    let mut g = group(c, LAYERS);
    let l = enc::Layer {
        flags: g.u16("layer flags", d.flags),
        ty: g.u16("layer type", d.ty),
        level: g.u16("child level", d.level),
        defw: g.res("default width") as u16 * 0x101,
        defh: g.res("default height") as u16 * 0x101,
        blend: g.u16("blend mode", d.blend),
        opacity: g.u8("layer opacity", d.opacity),
        reserved: [g.res("layer reserved"); 3],
        name: g.name("layer name", std::str::from_utf8(&d.name).unwrap()),
        tileset: if d.ty == 2 { g.u32("tileset index", d.tileset) } else { d.tileset },
    };
    layer(&l)
}
/// `nlayers` bounds the layer index so that the file stays valid.
pub fn gen_cel(c: &mut Ctx, d: enc::Cel, nlayers: u16, nframes: u16) -> Vec<u8> {
    let mut g = group(c, CELS);
    let layer = match g.dev("cel layer", nlayers as usize) {
        None => d.layer,
        Some(i) => i as u16,
    };
    let _ = nframes;
    let content = match d.content {
        Content::Raw { w, h, data } => {
            Content::Raw { w: g.u16("image width", w), h: g.u16("image height", h), data: gen_blob(&mut g, data) }
        }
        Content::Zlib { w, h, data } => {
            Content::Zlib { w: g.u16("image width", w), h: g.u16("image height", h), data: gen_blob(&mut g, data) }
        }
        Content::Link(f) => Content::Link(g.u16("linked frame", f)),
        Content::Tilemap { w, h, bits, id, x, y, d, reserved, data } => Content::Tilemap {
            w: g.u16("tilemap width", w),
            h: g.u16("tilemap height", h),
            bits: g.u16("bits per tile", bits),
            id: g.u32("tile id mask", id),
            x: g.u32("x flip mask", x),
            y: g.u32("y flip mask", y),
            d: g.u32("d flip mask", d),
            reserved: if g.on { g.res("tilemap reserved") } else { reserved },
            data: gen_blob(&mut g, data),
        },
        Content::Unknown { ty, data } => {
            Content::Unknown { ty: g.u16("cel type", ty).max(4), data: gen_blob(&mut g, data) }
        }
    };
    cel(&enc::Cel {
        layer,
        x: g.i16("cel x", d.x),
        y: g.i16("cel y", d.y),
        opacity: g.u8("cel opacity", d.opacity),
        z: g.i16("z index", d.z),
        reserved: [g.res("cel reserved"); 5],
        content,
    })
}
fn gen_blob(g: &mut G<'_>, d: Vec<u8>) -> Vec<u8> {
    let n = d.len();
    let v = g.blob("data length", n);
    if v.len() == n {
        d
    } else {
        v
    }
}
fn gen_color(g: &mut G<'_>, d: [u8; 4]) -> [u8; 4] {
    [g.u8("red", d[0]), g.u8("green", d[1]), g.u8("blue", d[2]), g.u8("alpha", d[3])]
}
/// Frame header around finished chunks.
pub fn gen_frame(c: &mut Ctx, duration: u16, chunks: &[Vec<u8>]) -> Vec<u8> {
    let mut g = group(c, FRAME);
    let n = chunks.len();
    let duration = g.u16("frame duration", duration);
    let r = g.res("frame reserved");
    // Every legal way to state the number of chunks.
    let (old, new) = match g.bits("chunk count fields", 6, 0) {
        0 | 1 => (n as u16, n as u32),
        2 => (n as u16, 0),
        3 => (0xffff, n as u32),
        4 => (0, n as u32),
        _ => (n as u16 + 1, n as u32),
    };
    let (old, new) = if n == 0 { (0, 0) } else { (old, new) };
    let body: Vec<u8> = chunks.concat();
    frame_raw(old, new, duration, [r, r], &body)
}

pub fn base_header() -> enc::Header {
    enc::Header { width: 0x0102, height: 0x0304, ..Default::default() }
}

/// Every field of header, frames, layers and cels; with a tilemap, so this
/// is for the file-level views.
pub fn main_file(c: &mut Ctx) -> Vec<u8> {
    let h = gen_header(c, &base_header());
    let mut f0 = vec![];
    f0.push(gen_layer(c, enc::Layer { name: b"L0".to_vec(), ..Default::default() }));
    f0.push(gen_layer(c, enc::Layer { ty: 1, name: b"group".to_vec(), flags: 0x21, ..Default::default() }));
    f0.push(gen_layer(
        c,
        enc::Layer { ty: 2, level: 1, tileset: 7, name: b"tiles".to_vec(), blend: 4, opacity: 9, ..Default::default() },
    ));
    f0.push(gen_cel(c, image_cel(0, -3, 4, 2, 1, &[1, 2, 3, 4, 5, 6, 7, 8], false), 3, 2));
    f0.push(gen_cel(
        c,
        enc::Cel {
            layer: 2,
            x: 5,
            y: -6,
            opacity: 100,
            z: -2,
            content: Content::Tilemap {
                w: 2,
                h: 3,
                bits: 32,
                id: 0x1fffffff,
                x: 0x20000000,
                y: 0x40000000,
                d: 0x80000000,
                reserved: 0,
                data: vec![9, 8, 7],
            },
            ..Default::default()
        },
        3,
        2,
    ));
    let f0 = gen_frame(c, 100, &f0);
    let f1 = vec![
        gen_cel(c, enc::Cel { layer: 0, x: 1, y: 2, content: Content::Link(0), ..Default::default() }, 3, 2),
        gen_cel(c, image_cel(1, 7, 8, 1, 1, &[1, 2, 3, 4], true), 3, 2),
        gen_cel(
            c,
            enc::Cel { layer: 2, content: Content::Unknown { ty: 9, data: vec![1, 2, 3] }, ..Default::default() },
            3,
            2,
        ),
    ];
    let f1 = gen_frame(c, 0x1234, &f1);
    file_raw(&h, &[f0, f1])
}

pub fn gen_user(c: &mut Ctx) -> Vec<u8> {
    let mut g = group(c, USER);
    let mut v = vec![];
    let flags = match g.dev("user data flags", 8) {
        None => 3,
        Some(i) => i as u32,
    };
    // Properties are covered by their own generator: bit 4 only adds an empty list.
    v.u32(flags);
    if flags & 1 != 0 {
        v.str(&g.name("user text", "text"));
    }
    if flags & 2 != 0 {
        v.raw(&gen_color(&mut g, [1, 2, 3, 4]));
    }
    if flags & 4 != 0 {
        v.u32(8).u32(0);
    }
    chunk(USER_DATA, &v)
}

pub fn gen_tags(c: &mut Ctx) -> Vec<u8> {
    let mut g = group(c, TAGSG);
    let n = g.count("tags", 2);
    let mut v = vec![];
    v.u16(n as u16).fill(8, g.res("tags reserved"));
    for i in 0..n {
        let live = i < 2;
        let on = g.on;
        g.on = on && live;
        let from = g.u16("tag from", i as u16);
        let to = g.u16("tag to", 0x0305).max(from);
        v.u16(from).u16(to).u8(g.u8("tag direction", (i % 4) as u8)).u16(g.u16("tag repeat", i as u16));
        v.fill(6, g.res("tag reserved"));
        v.u8(g.u8("tag red", 9)).u8(g.u8("tag green", 8)).u8(g.u8("tag blue", 7)).u8(g.res("tag extra byte"));
        let d = format!("tag{i}");
        v.str(&g.name("tag name", &d));
        g.on = on;
    }
    chunk(TAGS, &v)
}
pub fn gen_slice(c: &mut Ctx, dflags: u32, name: &str) -> Vec<u8> {
    let mut g = group(c, SLICES);
    let n = g.count("slice keys", 2);
    let flags = g.u32("slice flags", dflags);
    let mut v = vec![];
    v.u32(n as u32).u32(flags).u32(g.res("slice reserved") as u32 * 0x01010101).str(&g.name("slice name", name));
    for i in 0..n {
        let on = g.on;
        g.on = on && i < 2;
        let k = i as u32;
        v.u32(g.u32("key frame", k)).i32(g.i32("key x", -5)).i32(g.i32("key y", 6));
        v.u32(g.u32("key width", 7 + k)).u32(g.u32("key height", 8));
        if flags & 1 != 0 {
            v.i32(g.i32("centre x", -1)).i32(g.i32("centre y", 2)).u32(g.u32("centre width", 3));
            v.u32(g.u32("centre height", 4));
        }
        if flags & 2 != 0 {
            v.i32(g.i32("pivot x", -11)).i32(g.i32("pivot y", 12));
        }
        g.on = on;
    }
    chunk(SLICE, &v)
}
pub fn gen_palette(c: &mut Ctx) -> Vec<u8> {
    let mut g = group(c, PAL);
    let (first, last) = {
        let f = g.u8("first colour", 2);
        (f, f.max(g.u8("last colour", 4)))
    };
    let n = (last - first) as usize + 1;
    // The palette size is the total number of colours, not the number of entries here.
    let size = g.u32("palette size", 5);
    let mut v = vec![];
    v.u32(size).u32(first as u32).u32(last as u32).fill(8, g.res("palette reserved"));
    for i in 0..n {
        let on = g.on;
        g.on = on && (i < 2 || i + 1 == n);
        let flags = g.u16("entry flags", (i == 1) as u16);
        v.u16(flags).raw(&gen_color(&mut g, [i as u8, 20, 30, 40]));
        if flags & 1 != 0 {
            v.str(&g.name("colour name", "colour"));
        }
        g.on = on;
    }
    chunk(PALETTE, &v)
}
pub fn gen_old_palette(c: &mut Ctx, ty: u16) -> Vec<u8> {
    let mut g = group(c, OLDPAL);
    let n = g.count("packets", 2);
    let mut v = vec![];
    v.u16(n as u16);
    for i in 0..n {
        let on = g.on;
        g.on = on && i < 2;
        let skip = g.u8("skip", (i as u8).wrapping_mul(3));
        let k = if n > 10 { 1 } else { g.u8("colours", 2) };
        v.u8(skip).u8(k);
        for j in 0..if k == 0 { 256 } else { k as usize } {
            v.raw(&[j as u8, (j >> 1) as u8, (i as u8).wrapping_add(5)]);
        }
        g.on = on;
    }
    chunk(ty, &v)
}
pub fn gen_profile(c: &mut Ctx, ty: u16) -> Vec<u8> {
    let mut g = group(c, AUX);
    let ty = g.u16("profile type", ty);
    let mut v = vec![];
    v.u16(ty).u16(g.u16("profile flags", 1));
    v.u16(g.u16("gamma fraction", 0x1357)).u16(g.u16("gamma integer", 2)).fill(8, g.res("profile reserved"));
    if ty == 2 {
        let d = g.blob("icc length", 5);
        v.u32(d.len() as u32).raw(&d);
    }
    chunk(COLOR_PROFILE, &v)
}
pub fn gen_external(c: &mut Ctx) -> Vec<u8> {
    let mut g = group(c, AUX);
    let n = g.count("external files", 2);
    let mut v = vec![];
    v.u32(n as u32).fill(8, g.res("external reserved"));
    for i in 0..n {
        let on = g.on;
        g.on = on && i < 2;
        v.u32(g.u32("entry id", 77 + i as u32)).u8(g.u8("external type", i as u8)).fill(7, g.res("entry reserved"));
        v.str(&g.name("file name", "pal.gpl"));
        g.on = on;
    }
    chunk(EXTERNAL, &v)
}
pub fn gen_mask(c: &mut Ctx) -> Vec<u8> {
    let mut g = group(c, AUX);
    let mut v = vec![];
    v.i16(g.i16("mask x", -7)).i16(g.i16("mask y", 8)).u16(g.u16("mask width", 9)).u16(g.u16("mask height", 1));
    v.fill(8, g.res("mask reserved")).str(&g.name("mask name", "mask"));
    v.raw(&g.blob("mask length", 2));
    chunk(MASK, &v)
}
pub fn gen_tileset(c: &mut Ctx, flags: u32) -> Vec<u8> {
    let mut g = group(c, AUX);
    let id = g.u32("tileset id", 3);
    let flags = g.u32("tileset flags", flags);
    let mut v = vec![];
    v.u32(id).u32(flags).u32(g.u32("tiles", 4)).u16(g.u16("tile width", 16)).u16(g.u16("tile height", 17));
    v.i16(g.i16("base index", -1)).fill(14, g.res("tileset reserved")).str(&g.name("tileset name", "set"));
    if flags & 1 != 0 {
        v.u32(g.u32("external id", 5)).u32(g.u32("external tileset", 6));
    }
    if flags & 2 != 0 {
        let d = g.blob("tileset data", 6);
        v.u32(d.len() as u32).raw(&d);
    }
    chunk(TILESET, &v)
}
pub fn gen_extra(c: &mut Ctx) -> Vec<u8> {
    let mut g = group(c, AUX);
    let mut v = vec![];
    v.u32(g.u32("extra flags", 1));
    for (a, b) in [("precise x", 1), ("precise y", 2), ("precise width", 3), ("precise height", 4)] {
        v.u16(g.u16(a, 0x1100 + b)).u16(g.u16(a, 0x2200 + b));
    }
    v.raw(&g.blob("extra future", 16));
    chunk(CEL_EXTRA, &v)
}
/// Every field of tags, slices, palettes and auxiliary chunks.
pub fn aux_file(c: &mut Ctx) -> Vec<u8> {
    let chunks = vec![
        gen_profile(c, 1),
        gen_profile(c, 2),
        gen_external(c),
        gen_palette(c),
        gen_user(c),
        gen_old_palette(c, OLD04),
        gen_old_palette(c, OLD11),
        layer(&enc::Layer::default()),
        gen_user(c),
        gen_tileset(c, 1 | 4),
        gen_tileset(c, 2 | 32),
        cel(&image_cel(0, 0, 0, 1, 1, &[1, 2, 3, 4], false)),
        gen_extra(c),
        gen_mask(c),
        chunk(PATH, &[]),
        gen_tags(c),
        gen_user(c),
        gen_user(c),
        gen_slice(c, 3, "s0"),
        gen_user(c),
        gen_slice(c, 0, "s1"),
    ];
    let f0 = frame(&Frame::new(chunks));
    let f1 = frame(&Frame::new(vec![gen_tags(c), gen_slice(c, 2, "s2")]));
    file_raw(&base_header(), &[f0, f1])
}

/// A palette for indexed sprites with distinct, recognisable colours.
pub fn std_palette() -> Vec<u8> {
    let cols: Vec<[u8; 4]> =
        (0..256u32).map(|i| [i as u8, (255 - i) as u8, (i * 7) as u8, if i % 5 == 3 { 128 } else { 255 }]).collect();
    palette_from(0, &cols)
}
/// Distinct pixel bytes.
pub fn pixels(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u32).wrapping_mul(37).wrapping_add(seed as u32 * 11 + 1) as u8).collect()
}
