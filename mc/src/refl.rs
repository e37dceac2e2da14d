//! Reference model, part 2: file assembly (user data, cel table, palette) and
//! the sprite view.
use crate::refp::*;

#[derive(Clone, Debug, PartialEq)]
pub struct RFile<'a> {
    pub header: RHeader,
    pub palette: Option<Vec<[u8; 4]>>,
    pub layers: Vec<RLayer<'a>>,
    /// (duration, one slot per layer)
    pub frames: Vec<(u16, Vec<Option<RCel<'a>>>)>,
    pub tags: Vec<RTag<'a>>,
    pub slices: Vec<RSlice<'a>>,
    pub user: Option<RUser<'a>>,
}

/// Which object the next user-data chunk belongs to.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Owner {
    None,
    Sprite,
    Layer,
    Slice,
    Cel(usize),
    /// Next tag of the current list (absolute index) and one past its last tag.
    Tag(usize, usize),
}

/// The assembler as an explicit state machine over the chunk stream.
pub struct Asm<'a> {
    pub frame: usize,
    pub owner: Owner,
    pub layers: Vec<RLayer<'a>>,
    pub tags: Vec<RTag<'a>>,
    pub slices: Vec<RSlice<'a>>,
    pub user: Option<RUser<'a>>,
    pub cels: Vec<RCel<'a>>,
}
impl<'a> Asm<'a> {
    pub fn new() -> Self {
        Asm { frame: 0, owner: Owner::None, layers: vec![], tags: vec![], slices: vec![], user: None, cels: vec![] }
    }
    pub fn step(&mut self, c: &RChunk<'a>) {
        self.owner = match c {
            RChunk::User(u) => match self.owner {
                Owner::None => Owner::None,
                Owner::Sprite => {
                    self.user = Some(u.clone());
                    Owner::None
                }
                Owner::Layer => {
                    self.layers.last_mut().unwrap().user = Some(u.clone());
                    Owner::None
                }
                Owner::Slice => {
                    self.slices.last_mut().unwrap().user = Some(u.clone());
                    Owner::None
                }
                Owner::Cel(i) => {
                    self.cels[i].user = Some(u.clone());
                    Owner::None
                }
                Owner::Tag(i, end) => {
                    self.tags[i].user = Some(u.clone());
                    if i + 1 < end {
                        Owner::Tag(i + 1, end)
                    } else {
                        Owner::None
                    }
                }
            },
            RChunk::Layer(l) => {
                self.layers.push(l.clone());
                Owner::Layer
            }
            RChunk::Cel(l) => {
                self.cels.push(l.clone());
                Owner::Cel(self.cels.len() - 1)
            }
            RChunk::Slice(l) => {
                self.slices.push(l.clone());
                Owner::Slice
            }
            RChunk::Tags(t) => {
                let a = self.tags.len();
                self.tags.extend(t.iter().cloned());
                if t.is_empty() {
                    Owner::None
                } else {
                    Owner::Tag(a, self.tags.len())
                }
            }
            RChunk::Old04(_) | RChunk::Old11(_) | RChunk::Palette(_)
                if self.frame == 0 && self.user.is_none() =>
            {
                Owner::Sprite
            }
            _ => Owner::None,
        };
    }
    pub fn end_frame(&mut self) -> Vec<RCel<'a>> {
        self.frame += 1;
        self.owner = Owner::None;
        std::mem::take(&mut self.cels)
    }
}

pub fn palette(raw: &RRaw<'_>) -> R<Option<Vec<[u8; 4]>>> {
    if raw.header.depth != Depth::Indexed {
        return Ok(None);
    }
    let mut pal = vec![[0u8; 4]; 256];
    let chunks = || raw.frames.iter().flat_map(|f| f.chunks.iter());
    let kind = |k: u8| {
        chunks().any(|c| matches!((k, c), (0, RChunk::Palette(_)) | (1, RChunk::Old04(_)) | (2, RChunk::Old11(_))))
    };
    let mut set = false;
    if kind(0) {
        for c in chunks() {
            if let RChunk::Palette(p) = c {
                for (i, (col, _)) in p.entries.iter().enumerate() {
                    pal[p.first as usize + i] = *col;
                    set = true;
                }
            }
        }
    } else {
        let v11 = if kind(1) {
            false
        } else if kind(2) {
            true
        } else {
            return Err(RErr::PalMissing);
        };
        for c in chunks() {
            let packets = match (v11, c) {
                (false, RChunk::Old04(p)) => p,
                (true, RChunk::Old11(p)) => p,
                _ => continue,
            };
            let mut i = 0usize;
            for (skip, cols) in packets {
                i += *skip as usize;
                for col in cols {
                    if i > 255 {
                        return Err(RErr::PalOob);
                    }
                    let s = |v: u8| if v11 { six_bit(v) } else { v };
                    pal[i] = [s(col[0]), s(col[1]), s(col[2]), 255];
                    i += 1;
                    set = true;
                }
            }
        }
    }
    if !set {
        return Err(RErr::PalEmpty);
    }
    pal[raw.header.transparent as usize][3] = 0;
    Ok(Some(pal))
}
/// 0..=63 to 0..=255 (values above 63 are not part of the format).
pub fn six_bit(v: u8) -> u8 {
    (v << 2) | (v >> 4)
}

pub fn file<'a>(raw: &RRaw<'a>) -> R<RFile<'a>> {
    let palette = palette(raw)?;
    let mut a = Asm::new();
    let mut fr = vec![];
    for f in &raw.frames {
        for c in &f.chunks {
            a.step(c);
        }
        fr.push((f.duration, a.end_frame()));
    }
    let n = a.layers.len();
    let mut frames = vec![];
    for (dur, cels) in fr {
        let mut slots: Vec<Option<RCel<'a>>> = vec![None; n];
        for c in cels {
            let i = c.layer as usize;
            if i >= n {
                return Err(RErr::LayerOob);
            }
            slots[i] = Some(c);
        }
        frames.push((dur, slots));
    }
    Ok(RFile {
        header: raw.header.clone(),
        palette,
        layers: a.layers,
        frames,
        tags: a.tags,
        slices: a.slices,
        user: a.user,
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct SLayer {
    pub name: Vec<u8>,
    pub opacity: u8,
    pub blend: Blend,
    pub visible: bool,
    pub ty: LType,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SCel<'a> {
    pub layer: usize,
    pub origin: (i16, i16),
    pub size: (u16, u16),
    pub opacity: u8,
    pub z: i16,
    pub data: &'a [u8],
    pub compressed: bool,
    /// (frame, layer) of the cel that stores the image.
    pub image: (usize, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub struct STag {
    pub name: Vec<u8>,
    pub from: u16,
    pub to: u16,
    pub dir: (bool, u8),
    pub repeat: Option<u16>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sprite<'a> {
    pub size: (u16, u16),
    pub depth: Depth,
    pub transparent: u8,
    pub palette: Option<Vec<[u8; 4]>>,
    pub layers: Vec<SLayer>,
    pub background: Vec<bool>,
    pub frames: Vec<(u16, Vec<SCel<'a>>)>,
    pub tags: Vec<STag>,
    pub slices: Vec<RSlice<'a>>,
    /// (frame, layer) -> (w, h, data, compressed), in file order.
    pub images: Vec<((usize, usize), (u16, u16, &'a [u8], bool))>,
}

pub fn sprite<'a>(f: &RFile<'a>) -> R<Sprite<'a>> {
    let mut layers: Vec<SLayer> = vec![];
    // A layer belongs to the nearest preceding layer of a smaller child level.
    let mut open: Vec<usize> = vec![];
    for (i, l) in f.layers.iter().enumerate() {
        let mut visible = l.flags & 1 != 0;
        while open.last().map_or(false, |&j| f.layers[j].level >= l.level) {
            open.pop();
        }
        if let Some(&p) = open.last() {
            visible &= layers[p].visible;
        }
        open.push(i);
        layers.push(SLayer {
            name: l.name.to_vec(),
            opacity: if f.header.flags & 1 != 0 { l.opacity } else { 255 },
            blend: l.blend,
            visible,
            ty: l.ty,
        });
    }
    let mut images = vec![];
    for (fi, (_, cels)) in f.frames.iter().enumerate() {
        for (li, c) in cels.iter().enumerate() {
            if let Some(RCel { content: RContent::Image { w, h, data, compressed }, .. }) = c {
                images.push(((fi, li), (*w, *h, *data, *compressed)));
            }
        }
    }
    let mut frames = vec![];
    for (fi, (dur, cels)) in f.frames.iter().enumerate() {
        let mut v = vec![];
        for (li, c) in cels.iter().enumerate() {
            let Some(c) = c else { continue };
            let (src, img) = match &c.content {
                RContent::Image { .. } => ((fi, li), &c.content),
                RContent::Link(t) => {
                    let tgt = f.frames.get(*t as usize).and_then(|x| x.1.get(li)).and_then(|x| x.as_ref());
                    match tgt {
                        Some(RCel { content: i @ RContent::Image { .. }, .. }) => ((*t as usize, li), i),
                        _ => return Err(RErr::BadLink),
                    }
                }
                _ => return Err(RErr::BadCel),
            };
            let RContent::Image { w, h, data, compressed } = img else { unreachable!() };
            v.push(SCel {
                layer: li,
                origin: (c.x, c.y),
                size: (*w, *h),
                opacity: c.opacity,
                z: c.z,
                data,
                compressed: *compressed,
                image: src,
            });
        }
        frames.push((*dur, v));
    }
    Ok(Sprite {
        size: (f.header.width, f.header.height),
        depth: f.header.depth,
        transparent: f.header.transparent,
        palette: f.palette.clone(),
        background: f.layers.iter().map(|l| l.flags & 8 != 0).collect(),
        layers,
        frames,
        tags: f
            .tags
            .iter()
            .map(|t| STag {
                name: t.name.to_vec(),
                from: t.from,
                to: t.to,
                dir: t.dir,
                repeat: (t.repeat > 0).then_some(t.repeat),
            })
            .collect(),
        slices: f.slices.clone(),
        images,
    })
}
