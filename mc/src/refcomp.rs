//! Reference model, part 4: image decoding and compositing.
use crate::refblend::{self, mul_un8, Px};
use crate::refl::*;
use crate::refp::*;

#[derive(Clone, Debug, PartialEq)]
pub enum IErr {
    TooSmall,
    Depth,
    /// Raw pixel data of the wrong length.
    Length,
    /// Corrupt or incomplete stream.
    Zlib,
    /// A complete stream that holds too few pixels.
    Short,
    /// A stream that holds too many pixels.
    Long,
    /// Not a valid stream, but zlib libraries differ in whether they notice.
    Malformed,
    BlendMode,
}

/// Decompress a complete zlib stream of at most `max` bytes; trailing input is ignored.
///
/// The zlib library checks some defects (distances before the start of the data) only
/// when it decodes in one go.  A stream on which both ways of decoding disagree is
/// `Malformed`: what comes out is up to the library.
pub fn inflate(data: &[u8], max: usize) -> Result<Vec<u8>, IErr> {
    use flate2::FlushDecompress::{Finish, None as Step};
    let whole = inflate_by(data, max, Finish);
    let steps = inflate_by(data, max, Step);
    if whole == steps {
        whole
    } else {
        Err(IErr::Malformed)
    }
}
fn inflate_by(data: &[u8], max: usize, how: flate2::FlushDecompress) -> Result<Vec<u8>, IErr> {
    use flate2::{Decompress, Status};
    let mut d = Decompress::new(true);
    let mut out = vec![0u8; max + 1];
    loop {
        let (i, o) = (d.total_in() as usize, d.total_out() as usize);
        match d.decompress(&data[i..], &mut out[o..], how) {
            Ok(Status::StreamEnd) => break,
            Ok(_) if d.total_out() as usize > max => return Err(IErr::Long),
            Ok(_) if (d.total_in() as usize, d.total_out() as usize) == (i, o) => return Err(IErr::Zlib),
            Ok(_) => {}
            Err(_) => return Err(IErr::Zlib),
        }
    }
    let n = d.total_out() as usize;
    if n > max {
        return Err(IErr::Long);
    }
    out.truncate(n);
    Ok(out)
}

pub fn decode(
    depth: Depth,
    palette: Option<&[[u8; 4]]>,
    w: u16,
    h: u16,
    data: &[u8],
    compressed: bool,
) -> Result<Vec<Px>, IErr> {
    let n = w as usize * h as usize;
    let bpp = match depth {
        Depth::Rgba => 4,
        Depth::Gray => 2,
        Depth::Indexed => 1,
        Depth::Unknown(_) => return Err(IErr::Depth),
    };
    let owned;
    let px: &[u8] = if compressed {
        owned = inflate(data, n * bpp)?;
        if owned.len() < n * bpp {
            return Err(IErr::Short);
        }
        &owned
    } else {
        data
    };
    if px.len() != n * bpp {
        return Err(IErr::Length);
    }
    Ok(match depth {
        Depth::Rgba => px.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect(),
        Depth::Gray => px.chunks(2).map(|c| [c[0], c[0], c[0], c[1]]).collect(),
        _ => {
            let p = palette.expect("indexed sprite has a palette");
            px.iter().map(|&i| p[i as usize]).collect()
        }
    })
}

#[derive(Clone, Debug)]
pub enum Sel {
    Visible,
    All,
    Mask(Vec<bool>),
}
impl Sel {
    pub fn has(&self, i: usize, l: &SLayer) -> bool {
        match self {
            Sel::Visible => l.visible,
            Sel::All => true,
            Sel::Mask(m) => i < m.len() && m[i],
        }
    }
}

/// Canvas on which every pixel is the set of admissible colours.
pub struct Canvas {
    pub px: Vec<Px>,
    /// Pixels with more than one admissible colour.
    pub alt: std::collections::BTreeMap<usize, Vec<Px>>,
}

impl Canvas {
    pub fn matches(&self, got: &[u8]) -> Result<(), (usize, Px, Px)> {
        for (i, p) in self.px.iter().enumerate() {
            let g: Px = got[i * 4..i * 4 + 4].try_into().unwrap();
            if g != *p && !self.alt.get(&i).map_or(false, |a| a.contains(&g)) {
                return Err((i, *p, g));
            }
        }
        Ok(())
    }
}

/// Cels of a frame that a selection paints, bottom to top.
pub fn painted<'s, 'a>(s: &'s Sprite<'a>, frame: usize, sel: &Sel) -> Vec<&'s SCel<'a>> {
    let mut v: Vec<&SCel<'_>> = s.frames[frame]
        .1
        .iter()
        .filter(|c| s.layers[c.layer].ty == LType::Normal && sel.has(c.layer, &s.layers[c.layer]))
        .collect();
    v.sort_by_key(|c| (c.layer as i32 + c.z as i32, c.z));
    v
}

pub fn render(s: &Sprite<'_>, frame: usize, sel: &Sel, start: &[u8]) -> Result<Canvas, Vec<IErr>> {
    let (w, h) = (s.size.0 as i64, s.size.1 as i64);
    let mut cv = Canvas {
        px: start[..(w * h) as usize * 4].chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect(),
        alt: Default::default(),
    };
    let mut errs = vec![];
    for c in painted(s, frame, sel) {
        let l = &s.layers[c.layer];
        let mut pal = s.palette.clone();
        if s.background[c.layer] {
            // A background layer has no transparent colour.
            if let Some(p) = &mut pal {
                p[s.transparent as usize][3] = 255;
            }
        }
        let img = decode(s.depth, pal.as_deref(), c.size.0, c.size.1, c.data, c.compressed);
        let mode = match l.blend {
            Blend::Known(m) => m,
            Blend::Unknown(_) => {
                errs.push(IErr::BlendMode);
                if let Err(e) = img {
                    errs.push(e);
                }
                continue;
            }
        };
        let img = match img {
            Ok(i) => i,
            Err(e) => {
                errs.push(e);
                continue;
            }
        };
        if !errs.is_empty() {
            continue;
        }
        let op = mul_un8(l.opacity as i32, c.opacity as i32) as u8;
        let (cw, ch) = (c.size.0 as i64, c.size.1 as i64);
        let (ox, oy) = (c.origin.0 as i64, c.origin.1 as i64);
        // Walk the canvas, not the cel.
        for ty in oy.max(0)..h.min(oy + ch) {
            for tx in ox.max(0)..w.min(ox + cw) {
                let t = (ty * w + tx) as usize;
                let f = img[((ty - oy) * cw + (tx - ox)) as usize];
                let backs = match cv.alt.remove(&t) {
                    Some(v) => v,
                    None => vec![cv.px[t]],
                };
                let mut out: Vec<Px> = vec![];
                for b in backs {
                    for r in refblend::blend_all(mode, b, f, op) {
                        if !out.contains(&r) {
                            out.push(r);
                        }
                    }
                }
                cv.px[t] = out[0];
                if out.len() > 1 {
                    cv.alt.insert(t, out);
                }
            }
        }
    }
    if errs.is_empty() {
        Ok(cv)
    } else {
        Err(errs)
    }
}
