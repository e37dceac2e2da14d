//! Reference model, part 1: a plain cursor parser written from the format
//! specification.  Result types are the normal form everything is compared in.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RErr {
    Eof,
    FrameSize(u32),
    ChunkSize(u32),
    Magic,
    Utf8,
    PalFirst,
    PalLast,
    PalOrder,
    PalMissing,
    PalEmpty,
    PalOob,
    TagRange(u16, u16),
    LayerOob,
    PropType(u16),
    PropSize,
    Trailing,
    NoFrames,
    Zero,
    BadLink,
    BadCel,
}
pub type R<T> = Result<T, RErr>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Depth {
    Rgba,
    Gray,
    Indexed,
    Unknown(u16),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RHeader {
    pub file_size: u32,
    pub frames: u16,
    pub width: u16,
    pub height: u16,
    pub depth: Depth,
    pub flags: u32,
    pub speed: u16,
    pub transparent: u8,
    pub colors: u16,
    pub pw: u8,
    pub ph: u8,
    pub gx: i16,
    pub gy: i16,
    pub gw: u16,
    pub gh: u16,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LType {
    Normal,
    Group,
    Tilemap,
    Unknown(u16),
}
/// Blend mode: known modes by number, others by value.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Blend {
    Known(u8),
    Unknown(u16),
}
#[derive(Clone, Debug, PartialEq)]
pub struct RLayer<'a> {
    pub flags: u16,
    pub ty: LType,
    pub level: u16,
    pub blend: Blend,
    pub opacity: u8,
    pub name: &'a [u8],
    pub tileset: Option<u32>,
    pub user: Option<RUser<'a>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum RContent<'a> {
    Image { w: u16, h: u16, data: &'a [u8], compressed: bool },
    Link(u16),
    Tilemap { w: u16, h: u16, bits: u16, id: u32, x: u32, y: u32, d: u32, data: &'a [u8] },
    Unknown { ty: u16, data: &'a [u8] },
}
#[derive(Clone, Debug, PartialEq)]
pub struct RCel<'a> {
    pub layer: u16,
    pub x: i16,
    pub y: i16,
    pub opacity: u8,
    pub z: i16,
    pub content: RContent<'a>,
    pub user: Option<RUser<'a>>,
}
#[derive(Clone, Debug)]
pub struct RUser<'a> {
    pub text: Option<&'a [u8]>,
    pub color: Option<[u8; 4]>,
    pub props: Option<Result<Vec<RMap<'a>>, RErr>>,
    /// Deepest nesting of vectors and maps in the properties.
    pub depth: usize,
}
/// Properties that could not be read are equal whatever the error is, and trees
/// deeper than GUARANTEED_DEPTH may be read or refused.
impl PartialEq for RUser<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.text == o.text
            && self.color == o.color
            && match (&self.props, &o.props) {
                (None, None) => true,
                (Some(Err(_)), Some(Err(_))) => true,
                (Some(Ok(a)), Some(Ok(b))) => a == b,
                (Some(_), Some(_)) => self.depth.max(o.depth) > GUARANTEED_DEPTH,
                _ => false,
            }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct RMap<'a> {
    pub id: u32,
    pub props: Vec<(&'a [u8], RValue<'a>)>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum RValue<'a> {
    /// Property type and its raw little-endian bits.
    Scalar(u16, u128),
    Str(&'a [u8]),
    Vector(RVec<'a>),
    Map(RMap<'a>),
    /// Never produced by the format; present so that a lift can be total.
    Odd,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RVec<'a> {
    /// Element type, 0 for mixed.
    pub elem: u16,
    pub vals: Vec<RValue<'a>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RProfile<'a> {
    None,
    Srgb,
    Icc(&'a [u8]),
    Unknown(u16),
}
#[derive(Clone, Debug, PartialEq)]
pub struct RTag<'a> {
    pub from: u16,
    pub to: u16,
    /// 0..=3 known, others unknown with that value.
    pub dir: (bool, u8),
    pub repeat: u16,
    pub color: [u8; 3],
    pub name: &'a [u8],
    pub user: Option<RUser<'a>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RKey {
    pub frame: u32,
    pub x: i32,
    pub y: i32,
    pub w: u32,
    pub h: u32,
    pub nine: Option<(i32, i32, u32, u32)>,
    pub pivot: Option<(i32, i32)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RSlice<'a> {
    pub name: &'a [u8],
    pub flags: u32,
    pub keys: Vec<RKey>,
    pub user: Option<RUser<'a>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RTileset<'a> {
    pub id: u32,
    pub flags: u32,
    pub tiles: u32,
    pub w: u16,
    pub h: u16,
    pub base: i16,
    pub name: &'a [u8],
    pub ext: Option<(u32, u32)>,
    pub data: Option<&'a [u8]>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RPalette<'a> {
    pub first: u8,
    pub last: u8,
    pub entries: Vec<([u8; 4], Option<&'a [u8]>)>,
}
pub type ROld = Vec<(u8, Vec<[u8; 3]>)>;
#[derive(Clone, Debug, PartialEq)]
pub enum RChunk<'a> {
    Old04(ROld),
    Old11(ROld),
    Layer(RLayer<'a>),
    Cel(RCel<'a>),
    CelExtra { flags: u32, x: (u16, u16), y: (u16, u16), w: (u16, u16), h: (u16, u16), future: &'a [u8] },
    Profile { gamma: Option<(u16, u16)>, profile: RProfile<'a> },
    /// (id, (known, type), name)
    External(Vec<(u32, (bool, u8), &'a [u8])>),
    Mask { x: i16, y: i16, w: u16, h: u16, name: &'a [u8], data: &'a [u8] },
    Path,
    Tags(Vec<RTag<'a>>),
    Palette(RPalette<'a>),
    User(RUser<'a>),
    Slice(RSlice<'a>),
    Tileset(RTileset<'a>),
    Unsupported(u16),
}
#[derive(Clone, Debug, PartialEq)]
pub struct RFrame<'a> {
    pub duration: u16,
    pub chunks: Vec<RChunk<'a>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RRaw<'a> {
    pub header: RHeader,
    pub frames: Vec<RFrame<'a>>,
}

pub struct Cur<'a> {
    d: &'a [u8],
}
impl<'a> Cur<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Cur { d }
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.d.len() {
            return Err(RErr::Eof);
        }
        let (a, b) = self.d.split_at(n);
        self.d = b;
        Ok(a)
    }
    fn arr<const N: usize>(&mut self) -> R<[u8; N]> {
        Ok(self.take(N)?.try_into().unwrap())
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.arr::<1>()?[0])
    }
    pub fn u16(&mut self) -> R<u16> {
        Ok(u16::from_le_bytes(self.arr()?))
    }
    fn i16(&mut self) -> R<i16> {
        Ok(i16::from_le_bytes(self.arr()?))
    }
    fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.arr()?))
    }
    fn i32(&mut self) -> R<i32> {
        Ok(i32::from_le_bytes(self.arr()?))
    }
    /// 16.16 fixed point as (integer part, fraction).
    fn fixed(&mut self) -> R<(u16, u16)> {
        let frac = self.u16()?;
        let int = self.u16()?;
        Ok((int, frac))
    }
    pub fn str(&mut self) -> R<&'a [u8]> {
        let n = self.u16()? as usize;
        let s = self.take(n)?;
        std::str::from_utf8(s).map_err(|_| RErr::Utf8)?;
        Ok(s)
    }
    pub fn left(&self) -> usize {
        self.d.len()
    }
    fn rest(&mut self) -> &'a [u8] {
        std::mem::take(&mut self.d)
    }
}

pub fn header(c: &mut Cur<'_>) -> R<RHeader> {
    let mut c = Cur::new(c.take(128)?);
    let file_size = c.u32()?;
    if c.u16()? != 0xA5E0 {
        return Err(RErr::Magic);
    }
    let frames = c.u16()?;
    let width = c.u16()?;
    let height = c.u16()?;
    let depth = match c.u16()? {
        32 => Depth::Rgba,
        16 => Depth::Gray,
        8 => Depth::Indexed,
        n => Depth::Unknown(n),
    };
    let flags = c.u32()?;
    let speed = c.u16()?;
    if c.u32()? != 0 || c.u32()? != 0 {
        return Err(RErr::Zero);
    }
    let transparent = c.u8()?;
    c.take(3)?;
    let colors = c.u16()?;
    let pw = c.u8()?;
    let ph = c.u8()?;
    let gx = c.i16()?;
    let gy = c.i16()?;
    let gw = c.u16()?;
    let gh = c.u16()?;
    Ok(RHeader { file_size, frames, width, height, depth, flags, speed, transparent, colors, pw, ph, gx, gy, gw, gh })
}

pub fn raw(d: &[u8]) -> R<RRaw<'_>> {
    let mut c = Cur::new(d);
    let header = header(&mut c)?;
    let mut frames = vec![];
    while !c.d.is_empty() {
        let size = c.u32()?;
        if size < 4 {
            return Err(RErr::FrameSize(size));
        }
        let mut f = Cur::new(c.take(size as usize - 4)?);
        if f.u16()? != 0xF1FA {
            return Err(RErr::Magic);
        }
        let old = f.u16()? as u32;
        let duration = f.u16()?;
        f.take(2)?;
        let new = f.u32()?;
        let n = if new == 0 { old } else { new };
        let mut chunks = vec![];
        for _ in 0..n {
            chunks.push(chunk(&mut f)?);
        }
        frames.push(RFrame { duration, chunks });
    }
    if frames.is_empty() {
        return Err(RErr::NoFrames);
    }
    Ok(RRaw { header, frames })
}

fn chunk<'a>(f: &mut Cur<'a>) -> R<RChunk<'a>> {
    let size = f.u32()?;
    if size < 4 {
        return Err(RErr::ChunkSize(size));
    }
    let mut c = Cur::new(f.take(size as usize - 4)?);
    let ty = c.u16()?;
    body(ty, &mut c)
}
/// The content of a chunk; what is left in `c` belongs to nothing.
pub fn body<'a>(ty: u16, c: &mut Cur<'a>) -> R<RChunk<'a>> {
    Ok(match ty {
        0x0004 => RChunk::Old04(old(c)?),
        0x0011 => RChunk::Old11(old(c)?),
        0x2004 => RChunk::Layer(layer(c)?),
        0x2005 => RChunk::Cel(cel(c)?),
        0x2006 => RChunk::CelExtra {
            flags: c.u32()? & 1,
            x: c.fixed()?,
            y: c.fixed()?,
            w: c.fixed()?,
            h: c.fixed()?,
            future: c.rest(),
        },
        0x2007 => {
            let ty = c.u16()?;
            let flags = c.u16()?;
            let gamma = c.fixed()?;
            c.take(8)?;
            let profile = match ty {
                0 => RProfile::None,
                1 => RProfile::Srgb,
                2 => {
                    let n = c.u32()? as usize;
                    RProfile::Icc(c.take(n)?)
                }
                n => RProfile::Unknown(n),
            };
            RChunk::Profile { gamma: (flags & 1 != 0).then_some(gamma), profile }
        }
        0x2008 => {
            let n = c.u32()?;
            c.take(8)?;
            let mut v = vec![];
            for _ in 0..n {
                let id = c.u32()?;
                let ty = c.u8()?;
                c.take(7)?;
                v.push((id, (ty <= 2, ty), c.str()?));
            }
            RChunk::External(v)
        }
        0x2016 => {
            let (x, y, w, h) = (c.i16()?, c.i16()?, c.u16()?, c.u16()?);
            c.take(8)?;
            RChunk::Mask { x, y, w, h, name: c.str()?, data: c.rest() }
        }
        0x2017 => RChunk::Path,
        0x2018 => {
            let n = c.u16()?;
            c.take(8)?;
            let mut v = vec![];
            for _ in 0..n {
                let (from, to) = (c.u16()?, c.u16()?);
                if from > to {
                    return Err(RErr::TagRange(from, to));
                }
                let dir = c.u8()?;
                let repeat = c.u16()?;
                c.take(6)?;
                let color = c.arr()?;
                c.u8()?;
                v.push(RTag { from, to, dir: (dir <= 3, dir), repeat, color, name: c.str()?, user: None });
            }
            RChunk::Tags(v)
        }
        0x2019 => {
            c.u32()?;
            let (first, last) = (c.u32()?, c.u32()?);
            if first > 255 {
                return Err(RErr::PalFirst);
            }
            if last > 255 {
                return Err(RErr::PalLast);
            }
            if first > last {
                return Err(RErr::PalOrder);
            }
            c.take(8)?;
            let mut entries = vec![];
            for _ in first..=last {
                let flags = c.u16()?;
                let col = c.arr()?;
                entries.push((col, if flags & 1 != 0 { Some(c.str()?) } else { None }));
            }
            RChunk::Palette(RPalette { first: first as u8, last: last as u8, entries })
        }
        0x2020 => RChunk::User(user(c)?),
        0x2022 => {
            let n = c.u32()?;
            let flags = c.u32()?;
            c.u32()?;
            let name = c.str()?;
            let mut keys = vec![];
            for _ in 0..n {
                let (frame, x, y, w, h) = (c.u32()?, c.i32()?, c.i32()?, c.u32()?, c.u32()?);
                let nine =
                    if flags & 1 != 0 { Some((c.i32()?, c.i32()?, c.u32()?, c.u32()?)) } else { None };
                let pivot = if flags & 2 != 0 { Some((c.i32()?, c.i32()?)) } else { None };
                keys.push(RKey { frame, x, y, w, h, nine, pivot });
            }
            RChunk::Slice(RSlice { name, flags: flags & 3, keys, user: None })
        }
        0x2023 => {
            let id = c.u32()?;
            let flags = c.u32()?;
            let tiles = c.u32()?;
            let (w, h, base) = (c.u16()?, c.u16()?, c.i16()?);
            c.take(14)?;
            let name = c.str()?;
            let ext = if flags & 1 != 0 { Some((c.u32()?, c.u32()?)) } else { None };
            let data = if flags & 2 != 0 {
                let n = c.u32()? as usize;
                Some(c.take(n)?)
            } else {
                None
            };
            RChunk::Tileset(RTileset { id, flags: flags & 63, tiles, w, h, base, name, ext, data })
        }
        n => RChunk::Unsupported(n),
    })
}

fn old(c: &mut Cur<'_>) -> R<ROld> {
    let n = c.u16()?;
    let mut v = vec![];
    for _ in 0..n {
        let skip = c.u8()?;
        let k = match c.u8()? {
            0 => 256,
            k => k as usize,
        };
        let mut cols = vec![];
        for _ in 0..k {
            cols.push(c.arr()?);
        }
        v.push((skip, cols));
    }
    Ok(v)
}

fn layer<'a>(c: &mut Cur<'a>) -> R<RLayer<'a>> {
    let flags = c.u16()? & 0x7f;
    let ty = match c.u16()? {
        0 => LType::Normal,
        1 => LType::Group,
        2 => LType::Tilemap,
        n => LType::Unknown(n),
    };
    let level = c.u16()?;
    c.take(4)?;
    let blend = match c.u16()? {
        b if b <= 18 => Blend::Known(b as u8),
        b => Blend::Unknown(b),
    };
    let opacity = c.u8()?;
    c.take(3)?;
    let name = c.str()?;
    let tileset = if ty == LType::Tilemap { Some(c.u32()?) } else { None };
    Ok(RLayer { flags, ty, level, blend, opacity, name, tileset, user: None })
}

fn cel<'a>(c: &mut Cur<'a>) -> R<RCel<'a>> {
    let layer = c.u16()?;
    let x = c.i16()?;
    let y = c.i16()?;
    let opacity = c.u8()?;
    let ty = c.u16()?;
    let z = c.i16()?;
    c.take(5)?;
    let content = match ty {
        0 | 2 => {
            let (w, h) = (c.u16()?, c.u16()?);
            RContent::Image { w, h, data: c.rest(), compressed: ty == 2 }
        }
        1 => RContent::Link(c.u16()?),
        3 => {
            let (w, h, bits) = (c.u16()?, c.u16()?, c.u16()?);
            let (id, x, y, d) = (c.u32()?, c.u32()?, c.u32()?, c.u32()?);
            c.take(10)?;
            RContent::Tilemap { w, h, bits, id, x, y, d, data: c.rest() }
        }
        n => RContent::Unknown { ty: n, data: c.rest() },
    };
    Ok(RCel { layer, x, y, opacity, z, content, user: None })
}

fn user<'a>(c: &mut Cur<'a>) -> R<RUser<'a>> {
    let flags = c.u32()?;
    let text = if flags & 1 != 0 { Some(c.str()?) } else { None };
    let color = if flags & 2 != 0 { Some(c.arr()?) } else { None };
    let mut depth = 0;
    let props = if flags & 4 != 0 {
        let size = c.u32()?;
        let n = c.u32()?;
        let mut p = Cur::new(c.take((size as usize).saturating_sub(8))?);
        let mut maps = || {
            if size < 8 {
                return Err(RErr::PropSize);
            }
            let mut v = vec![];
            for _ in 0..n {
                v.push(map(&mut p, 0, &mut depth)?);
            }
            Ok(v)
        };
        Some(maps())
    } else {
        None
    };
    Ok(RUser { text, color, props, depth })
}

/// Nesting up to this depth must be decoded; what happens beyond is the crate's
/// choice between decoding and reporting an error.
pub const GUARANTEED_DEPTH: usize = 64;
const MODEL_DEPTH: usize = 400;

pub fn map<'a>(c: &mut Cur<'a>, lvl: usize, max: &mut usize) -> R<RMap<'a>> {
    *max = (*max).max(lvl);
    if lvl > MODEL_DEPTH {
        return Err(RErr::PropSize);
    }
    let id = c.u32()?;
    let n = c.u32()?;
    let mut props = vec![];
    for _ in 0..n {
        let name = c.str()?;
        let ty = c.u16()?;
        props.push((name, value(c, ty, lvl, max)?));
    }
    Ok(RMap { id, props })
}
pub fn value<'a>(c: &mut Cur<'a>, ty: u16, lvl: usize, max: &mut usize) -> R<RValue<'a>> {
    let size = match ty {
        0x1..=0x3 => 1,
        0x4 | 0x5 => 2,
        0x6 | 0x7 | 0xA | 0xB => 4,
        0x8 | 0x9 | 0xC | 0xE | 0xF => 8,
        0x10 | 0x13 => 16,
        0xD => return Ok(RValue::Str(c.str()?)),
        0x11 => return Ok(RValue::Vector(vector(c, lvl + 1, max)?)),
        0x12 => return Ok(RValue::Map(map(c, lvl + 1, max)?)),
        n => return Err(RErr::PropType(n)),
    };
    let mut b = [0u8; 16];
    b[..size].copy_from_slice(c.take(size)?);
    let mut v = u128::from_le_bytes(b);
    if ty == 1 {
        v = (v != 0) as u128;
    }
    Ok(RValue::Scalar(ty, v))
}
pub fn vector<'a>(c: &mut Cur<'a>, lvl: usize, max: &mut usize) -> R<RVec<'a>> {
    *max = (*max).max(lvl);
    if lvl > MODEL_DEPTH {
        return Err(RErr::PropSize);
    }
    let n = c.u32()?;
    let elem = c.u16()?;
    if elem > 0x13 {
        return Err(RErr::PropType(elem));
    }
    let mut vals = vec![];
    for _ in 0..n {
        let ty = if elem == 0 { c.u16()? } else { elem };
        vals.push(value(c, ty, lvl, max)?);
    }
    Ok(RVec { elem, vals })
}
