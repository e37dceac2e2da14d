//! Encoder: writes Aseprite files following the format specification.
use flate2::{write::ZlibEncoder, Compression};
use std::io::Write;

pub trait W {
    fn u8(&mut self, v: u8) -> &mut Self;
    fn u16(&mut self, v: u16) -> &mut Self;
    fn i16(&mut self, v: i16) -> &mut Self;
    fn u32(&mut self, v: u32) -> &mut Self;
    fn i32(&mut self, v: i32) -> &mut Self;
    fn raw(&mut self, v: &[u8]) -> &mut Self;
    fn fill(&mut self, n: usize, v: u8) -> &mut Self;
    fn str(&mut self, v: &[u8]) -> &mut Self;
}
impl W for Vec<u8> {
    fn u8(&mut self, v: u8) -> &mut Self {
        self.push(v);
        self
    }
    fn u16(&mut self, v: u16) -> &mut Self {
        self.extend_from_slice(&v.to_le_bytes());
        self
    }
    fn i16(&mut self, v: i16) -> &mut Self {
        self.extend_from_slice(&v.to_le_bytes());
        self
    }
    fn u32(&mut self, v: u32) -> &mut Self {
        self.extend_from_slice(&v.to_le_bytes());
        self
    }
    fn i32(&mut self, v: i32) -> &mut Self {
        self.extend_from_slice(&v.to_le_bytes());
        self
    }
    fn raw(&mut self, v: &[u8]) -> &mut Self {
        self.extend_from_slice(v);
        self
    }
    fn fill(&mut self, n: usize, v: u8) -> &mut Self {
        self.resize(self.len() + n, v);
        self
    }
    /// STRING: WORD length, then the bytes.
    fn str(&mut self, v: &[u8]) -> &mut Self {
        assert!(v.len() <= 65535);
        self.extend_from_slice(&(v.len() as u16).to_le_bytes());
        self.extend_from_slice(v);
        self
    }
}

pub const LAYER: u16 = 0x2004;
pub const CEL: u16 = 0x2005;
pub const CEL_EXTRA: u16 = 0x2006;
pub const COLOR_PROFILE: u16 = 0x2007;
pub const EXTERNAL: u16 = 0x2008;
pub const MASK: u16 = 0x2016;
pub const PATH: u16 = 0x2017;
pub const TAGS: u16 = 0x2018;
pub const PALETTE: u16 = 0x2019;
pub const USER_DATA: u16 = 0x2020;
pub const SLICE: u16 = 0x2022;
pub const TILESET: u16 = 0x2023;
pub const OLD04: u16 = 0x0004;
pub const OLD11: u16 = 0x0011;

pub fn chunk(ty: u16, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(body.len() + 6);
    v.u32(body.len() as u32 + 6).u16(ty).raw(body);
    v
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub duration: u16,
    pub chunks: Vec<Vec<u8>>,
}
impl Frame {
    pub fn new(chunks: Vec<Vec<u8>>) -> Self {
        Frame { duration: 100, chunks }
    }
}

pub fn frame_raw(old: u16, new: u32, duration: u16, reserved: [u8; 2], body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(16 + body.len());
    v.u32(16 + body.len() as u32).u16(0xF1FA).u16(old).u16(duration).raw(&reserved).u32(new).raw(body);
    v
}
pub fn frame(f: &Frame) -> Vec<u8> {
    let n = f.chunks.len();
    let body: Vec<u8> = f.chunks.concat();
    frame_raw(n.min(0xFFFF) as u16, n as u32, f.duration, [0, 0], &body)
}

#[derive(Clone, Debug)]
pub struct Header {
    pub file_size: Option<u32>,
    pub frames: Option<u16>,
    pub width: u16,
    pub height: u16,
    pub depth: u16,
    pub flags: u32,
    pub speed: u16,
    pub transparent: u8,
    pub ignore: [u8; 3],
    pub colors: u16,
    pub pw: u8,
    pub ph: u8,
    pub gx: i16,
    pub gy: i16,
    pub gw: u16,
    pub gh: u16,
    pub future: u8,
}
impl Default for Header {
    fn default() -> Self {
        Header {
            file_size: None,
            frames: None,
            width: 4,
            height: 3,
            depth: 32,
            flags: 1,
            speed: 100,
            transparent: 0,
            ignore: [0; 3],
            colors: 32,
            pw: 1,
            ph: 1,
            gx: 0,
            gy: 0,
            gw: 16,
            gh: 16,
            future: 0,
        }
    }
}
pub fn header(h: &Header, nframes: usize, body: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(128 + body);
    v.u32(h.file_size.unwrap_or(128 + body as u32)).u16(0xA5E0).u16(h.frames.unwrap_or(nframes.min(65535) as u16));
    v.u16(h.width).u16(h.height).u16(h.depth).u32(h.flags).u16(h.speed).u32(0).u32(0);
    v.u8(h.transparent).raw(&h.ignore).u16(h.colors).u8(h.pw).u8(h.ph);
    v.i16(h.gx).i16(h.gy).u16(h.gw).u16(h.gh).fill(84, h.future);
    assert_eq!(v.len(), 128);
    v
}
pub fn file_raw(h: &Header, frames: &[Vec<u8>]) -> Vec<u8> {
    let n = frames.iter().map(|f| f.len()).sum();
    let mut v = header(h, frames.len(), n);
    for f in frames {
        v.raw(f);
    }
    v
}
pub fn file(h: &Header, frames: &[Frame]) -> Vec<u8> {
    let fs: Vec<Vec<u8>> = frames.iter().map(frame).collect();
    file_raw(h, &fs)
}

#[derive(Clone, Debug)]
pub struct Layer {
    pub flags: u16,
    pub ty: u16,
    pub level: u16,
    pub defw: u16,
    pub defh: u16,
    pub blend: u16,
    pub opacity: u8,
    pub reserved: [u8; 3],
    pub name: Vec<u8>,
    pub tileset: u32,
}
impl Default for Layer {
    fn default() -> Self {
        Layer {
            flags: 3,
            ty: 0,
            level: 0,
            defw: 0,
            defh: 0,
            blend: 0,
            opacity: 255,
            reserved: [0; 3],
            name: b"Layer".to_vec(),
            tileset: 0,
        }
    }
}
pub fn layer(l: &Layer) -> Vec<u8> {
    let mut v = vec![];
    v.u16(l.flags).u16(l.ty).u16(l.level).u16(l.defw).u16(l.defh).u16(l.blend).u8(l.opacity);
    v.raw(&l.reserved).str(&l.name);
    if l.ty == 2 {
        v.u32(l.tileset);
    }
    chunk(LAYER, &v)
}

#[derive(Clone, Debug)]
pub enum Content {
    Raw { w: u16, h: u16, data: Vec<u8> },
    Link(u16),
    Zlib { w: u16, h: u16, data: Vec<u8> },
    Tilemap { w: u16, h: u16, bits: u16, id: u32, x: u32, y: u32, d: u32, reserved: u8, data: Vec<u8> },
    Unknown { ty: u16, data: Vec<u8> },
}
#[derive(Clone, Debug)]
pub struct Cel {
    pub layer: u16,
    pub x: i16,
    pub y: i16,
    pub opacity: u8,
    pub z: i16,
    pub reserved: [u8; 5],
    pub content: Content,
}
impl Default for Cel {
    fn default() -> Self {
        Cel {
            layer: 0,
            x: 0,
            y: 0,
            opacity: 255,
            z: 0,
            reserved: [0; 5],
            content: Content::Raw { w: 0, h: 0, data: vec![] },
        }
    }
}
pub fn cel(c: &Cel) -> Vec<u8> {
    let mut v = vec![];
    let ty = match &c.content {
        Content::Raw { .. } => 0,
        Content::Link(_) => 1,
        Content::Zlib { .. } => 2,
        Content::Tilemap { .. } => 3,
        Content::Unknown { ty, .. } => *ty,
    };
    v.u16(c.layer).i16(c.x).i16(c.y).u8(c.opacity).u16(ty).i16(c.z).raw(&c.reserved);
    match &c.content {
        Content::Raw { w, h, data } | Content::Zlib { w, h, data } => {
            v.u16(*w).u16(*h).raw(data);
        }
        Content::Link(f) => {
            v.u16(*f);
        }
        Content::Tilemap { w, h, bits, id, x, y, d, reserved, data } => {
            v.u16(*w).u16(*h).u16(*bits).u32(*id).u32(*x).u32(*y).u32(*d).fill(10, *reserved).raw(data);
        }
        Content::Unknown { data, .. } => {
            v.raw(data);
        }
    }
    chunk(CEL, &v)
}
/// Cel with an image stored raw or compressed.
pub fn image_cel(layer: u16, x: i16, y: i16, w: u16, h: u16, px: &[u8], compressed: bool) -> Cel {
    Cel {
        layer,
        x,
        y,
        content: if compressed {
            Content::Zlib { w, h, data: zlib(px) }
        } else {
            Content::Raw { w, h, data: px.to_vec() }
        },
        ..Default::default()
    }
}

pub fn zlib_level(px: &[u8], level: u32) -> Vec<u8> {
    let mut e = ZlibEncoder::new(Vec::new(), Compression::new(level));
    e.write_all(px).unwrap();
    e.finish().unwrap()
}
pub fn zlib(px: &[u8]) -> Vec<u8> {
    if px.len() <= 4096 {
        // Stored blocks are cheap to produce and decode.
        zlib_stored(px)
    } else {
        zlib_level(px, 1)
    }
}
/// zlib stream made of stored blocks only, written by hand.
pub fn zlib_stored(px: &[u8]) -> Vec<u8> {
    let mut v = vec![0x78, 0x01];
    let mut chunks: Vec<&[u8]> = px.chunks(65535).collect();
    if chunks.is_empty() {
        chunks.push(&[]);
    }
    let n = chunks.len();
    for (i, c) in chunks.iter().enumerate() {
        v.u8((i + 1 == n) as u8).u16(c.len() as u16).u16(!(c.len() as u16)).raw(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for &x in px {
        a = (a + x as u32) % 65521;
        b = (b + a) % 65521;
    }
    v.raw(&((b << 16) | a).to_be_bytes());
    v
}

/// New palette chunk: one entry per colour in first..=last.
pub fn palette(size: u32, first: u32, last: u32, entries: &[([u8; 4], Option<&[u8]>)]) -> Vec<u8> {
    let mut v = vec![];
    v.u32(size).u32(first).u32(last).fill(8, 0);
    for (c, n) in entries {
        v.u16(n.is_some() as u16).raw(c);
        if let Some(n) = n {
            v.str(n);
        }
    }
    chunk(PALETTE, &v)
}
pub fn palette_from(first: u8, colors: &[[u8; 4]]) -> Vec<u8> {
    let e: Vec<_> = colors.iter().map(|c| (*c, None)).collect();
    palette(colors.len() as u32, first as u32, first as u32 + colors.len() as u32 - 1, &e)
}
pub fn old_palette(ty: u16, packets: &[(u8, u8, Vec<[u8; 3]>)]) -> Vec<u8> {
    let mut v = vec![];
    v.u16(packets.len() as u16);
    for (skip, n, cols) in packets {
        v.u8(*skip).u8(*n);
        for c in cols {
            v.raw(c);
        }
    }
    chunk(ty, &v)
}
/// (from, to, direction, repeat, colour, name)
pub fn tags(list: &[(u16, u16, u8, u16, [u8; 3], &[u8])]) -> Vec<u8> {
    let mut v = vec![];
    v.u16(list.len() as u16).fill(8, 0);
    for (f, t, d, r, c, n) in list {
        v.u16(*f).u16(*t).u8(*d).u16(*r).fill(6, 0).raw(c).u8(0).str(n);
    }
    chunk(TAGS, &v)
}
pub fn user_text(t: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    v.u32(1).str(t);
    chunk(USER_DATA, &v)
}
pub fn slice(name: &[u8], nkeys: u32) -> Vec<u8> {
    let mut v = vec![];
    v.u32(nkeys).u32(0).u32(0).str(name);
    for i in 0..nkeys {
        v.u32(i).i32(1).i32(2).u32(3).u32(4);
    }
    chunk(SLICE, &v)
}
pub fn color_profile() -> Vec<u8> {
    let mut v = vec![];
    v.u16(1).u16(0).u32(0).fill(8, 0);
    chunk(COLOR_PROFILE, &v)
}
pub fn cel_extra() -> Vec<u8> {
    let mut v = vec![];
    v.u32(1).fill(16, 7);
    chunk(CEL_EXTRA, &v)
}
