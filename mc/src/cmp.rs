//! Oracles: run the crate on an input and compare its complete observable
//! result with the reference model.
use crate::explore::{Bad, Res};
use crate::refcomp::{self, IErr, Sel};
use crate::refl::{self, RFile, Sprite};
use crate::refp::{self, RErr, RRaw};
use crate::{bad, ensure, lift};
#[cfg(feature = "inner")]
use aseprite_loader::binary::chunk::Chunk;
use aseprite_loader::binary::file::parse_file;
use aseprite_loader::binary::raw_file::parse_raw_file;
use aseprite_loader::loader::{AsepriteFile, LayerSelection, LoadImageError, LoadSpriteError};

pub type B<T> = Result<T, Bad>;

/// First differing line of two pretty-printed values.
pub fn diff<T: std::fmt::Debug>(exp: &T, got: &T) -> String {
    let (a, b) = (format!("{exp:#?}"), format!("{got:#?}"));
    let (mut ia, mut ib) = (a.lines(), b.lines());
    let mut ctx: Vec<String> = vec![];
    loop {
        match (ia.next(), ib.next()) {
            (Some(x), Some(y)) if x == y => {
                let t = x.trim();
                if t.ends_with(['{', '(', '[']) {
                    ctx.push(t.chars().take(30).collect());
                } else if t.starts_with(['}', ')', ']']) {
                    ctx.pop();
                }
            }
            (x, y) => {
                let cut = |v: Option<&str>| v.unwrap_or("<end>").trim().chars().take(80).collect::<String>();
                return format!("at {} expected `{}` got `{}`", ctx.join(" "), cut(x), cut(y));
            }
        }
    }
}

/// parse_raw_file against the reference parser.
pub fn raw(b: &[u8]) -> B<Result<RRaw<'_>, RErr>> {
    let exp = refp::raw(b);
    match (parse_raw_file(b), exp) {
        (Ok(g), Ok(e)) => {
            #[cfg(feature = "inner")]
            for (i, f) in g.frames.iter().enumerate() {
                let all = f.chunks.iter().filter_map(|c| match c {
                    Chunk::Cel(x) => Some(x),
                    _ => None,
                });
                ensure!(f.cels().map(|x| x as *const _ as usize).eq(all.map(|x| x as *const _ as usize)), "cels() of raw frame {i} gives other cels than the frame holds");
            }
            let g = lift::raw(&g);
            if g != e {
                bad!("parse_raw_file: {}", diff(&e, &g));
            }
            Ok(Ok(e))
        }
        (Err(_), Err(e)) => Ok(Err(e)),
        (Ok(_), Err(e)) => bad!("parse_raw_file accepted a file the format rejects ({e:?})"),
        (Err(g), Ok(_)) => bad!("parse_raw_file rejected a valid file: {}", lim(&format!("{:?}", lift::err(&g)))),
    }
}

pub fn lim(s: &str) -> String {
    s.chars().take(200).collect()
}

pub fn ref_file(b: &[u8]) -> Result<RFile<'_>, RErr> {
    refl::file(&refp::raw(b)?)
}
pub fn ref_sprite(b: &[u8]) -> Result<(RFile<'_>, Sprite<'_>), RErr> {
    let f = ref_file(b)?;
    let s = refl::sprite(&f)?;
    Ok((f, s))
}

pub fn file(b: &[u8]) -> B<Result<RFile<'_>, RErr>> {
    match (parse_file(b), ref_file(b)) {
        (Ok(g), Ok(e)) => {
            let g = lift::file(&g);
            if g != e {
                bad!("parse_file: {}", diff(&e, &g));
            }
            Ok(Ok(e))
        }
        (Err(_), Err(e)) => Ok(Err(e)),
        (Ok(_), Err(e)) => bad!("parse_file accepted a file the format rejects ({e:?})"),
        (Err(g), Ok(_)) => bad!("parse_file rejected a valid file: {:?}", lift::err(&g)),
    }
}

/// A loaded sprite together with its model and the crate's image index of
/// every stored image of the model.
pub struct Loaded<'a> {
    pub af: AsepriteFile<'a>,
    pub rf: RFile<'a>,
    pub s: Sprite<'a>,
    /// Model image number -> crate image index.
    pub img: Vec<usize>,
}

pub fn load(b: &[u8]) -> B<Result<Loaded<'_>, RErr>> {
    match (AsepriteFile::load(b), ref_sprite(b)) {
        (Ok(af), Ok((rf, s))) => {
            let img = view(&af, &s)?;
            Ok(Ok(Loaded { af, rf, s, img }))
        }
        (Err(e), Err(r)) => {
            ensure!(matches!(e, LoadSpriteError::Parse { .. }), "load failed with {e:?} instead of a parse error");
            Ok(Err(r))
        }
        (Ok(_), Err(e)) => bad!("load accepted a file that must be rejected ({e:?})"),
        (Err(g), Ok(_)) => bad!("load rejected a valid file: {}", lim(&format!("{g:?}"))),
    }
}
/// Load a file that the driver knows to be valid.
pub fn must_load(b: &[u8]) -> B<Loaded<'_>> {
    match load(b)? {
        Ok(l) => Ok(l),
        Err(e) => panic!("driver built a file its own model rejects: {e:?}"),
    }
}

/// The sprite view against the model; returns the image correspondence.
pub fn view(af: &AsepriteFile<'_>, s: &Sprite<'_>) -> B<Vec<usize>> {
    ensure!(af.size() == s.size, "size() is {:?}, expected {:?}", af.size(), s.size);
    let layers: Vec<refl::SLayer> = af
        .layers()
        .iter()
        .map(|l| refl::SLayer {
            name: l.name.as_bytes().to_vec(),
            opacity: l.opacity,
            blend: lift::blend(l.blend_mode),
            visible: l.visible,
            ty: lift::ltype(l.layer_type),
        })
        .collect();
    if layers != s.layers {
        bad!("layers: {}", diff(&s.layers, &layers));
    }
    let tags: Vec<refl::STag> = af
        .tags()
        .iter()
        .map(|t| refl::STag {
            name: t.name.as_bytes().to_vec(),
            from: *t.range.start(),
            to: *t.range.end(),
            dir: lift::dir(t.direction),
            repeat: t.repeat,
        })
        .collect();
    if tags != s.tags {
        bad!("tags: {}", diff(&s.tags, &tags));
    }
    let slices: Vec<_> = af.slices().iter().map(lift::slice).collect();
    if slices != s.slices {
        bad!("slices: {}", diff(&s.slices, &slices));
    }
    ensure!(
        af.image_count() == s.images.len() && af.images.len() == s.images.len(),
        "image_count() is {}, the file stores {}",
        af.image_count(),
        s.images.len()
    );
    ensure!(af.frames().len() == s.frames.len(), "{} frames instead of {}", af.frames().len(), s.frames.len());
    let num: std::collections::HashMap<(usize, usize), usize> =
        s.images.iter().enumerate().map(|(i, m)| (m.0, i)).collect();
    let mut map = vec![usize::MAX; s.images.len()];
    let mut used = vec![false; s.images.len()];
    for (fi, (f, (dur, cels))) in af.frames().iter().zip(&s.frames).enumerate() {
        ensure!(f.duration == *dur, "frame {fi}: duration {} instead of {dur}", f.duration);
        ensure!(f.origin == (0, 0), "frame {fi}: origin {:?}", f.origin);
        ensure!(f.cels.len() == cels.len(), "frame {fi}: {} cels instead of {}", f.cels.len(), cels.len());
        let mut got: Vec<_> = f.cels.iter().collect();
        got.sort_by_key(|c| c.layer_index);
        for (g, e) in got.iter().zip(cels) {
            ensure!(
                g.layer_index == e.layer,
                "frame {fi}: cel refers to layer {} instead of {}",
                g.layer_index,
                e.layer
            );
            ensure!(
                g.origin == e.origin && g.size == e.size,
                "frame {fi} layer {}: origin {:?} size {:?}, expected {:?} {:?}",
                e.layer,
                g.origin,
                g.size,
                e.origin,
                e.size
            );
            ensure!(
                g.image_index < af.images.len(),
                "frame {fi} layer {}: image index {} of {}",
                e.layer,
                g.image_index,
                af.images.len()
            );
            let n = num[&e.image];
            if map[n] == usize::MAX {
                ensure!(
                    !used[g.image_index],
                    "frame {fi} layer {}: image {} already belongs to another cel",
                    e.layer,
                    g.image_index
                );
                map[n] = g.image_index;
                used[g.image_index] = true;
                let i = &af.images[g.image_index];
                ensure!(
                    i.width == e.size.0
                        && i.height == e.size.1
                        && i.compressed == e.compressed
                        && i.data.len() == e.data.len()
                        && i.data == e.data,
                    "frame {fi} layer {}: image {} is not the image of this cel",
                    e.layer,
                    g.image_index
                );
            }
            ensure!(
                map[n] == g.image_index,
                "frame {fi} layer {}: image {} instead of {} (the one frame {} stores)",
                e.layer,
                g.image_index,
                map[n],
                e.image.0
            );
        }
    }
    Ok(map)
}

pub fn err_name(e: &LoadImageError) -> String {
    let s = format!("{e:?}");
    s.split(['(', ' ', '{']).next().unwrap().to_string()
}
/// Is the reported error the documented one for this defect?
pub fn err_ok(e: &LoadImageError, r: &IErr) -> bool {
    let n = err_name(e);
    match r {
        IErr::TooSmall => n == "TargetBufferTooSmall",
        IErr::Depth => n == "UnsupportedColorDepth",
        IErr::Length => n == "InvalidImageData",
        IErr::Zlib => n == "DecompressError",
        IErr::Malformed => true,
        IErr::Short | IErr::Long => n == "InvalidImageData" || n == "DecompressError",
        IErr::BlendMode => n.contains("BlendMode"),
    }
}

/// Pixels of model image `n`.
pub fn ref_image(l: &Sprite<'_>, n: usize) -> Result<Vec<[u8; 4]>, IErr> {
    let (_, (w, h, data, compressed)) = l.images[n];
    refcomp::decode(l.depth, l.palette.as_deref(), w, h, data, compressed)
}

pub const MAX_AREA: u64 = 1 << 20;
pub fn area((w, h): (u16, u16)) -> u64 {
    w as u64 * h as u64
}

/// Decode every image into a dirty buffer that is `extra` bytes too long.
pub fn images(l: &Loaded<'_>, extra: usize, dirt: u8) -> B<u64> {
    let mut h = 0;
    for n in 0..l.s.images.len() {
        h ^= image(l, n, extra, dirt)?.rotate_left(n as u32);
    }
    Ok(h)
}
pub fn image(l: &Loaded<'_>, n: usize, extra: usize, dirt: u8) -> B<u64> {
    let (at, (w, h, _, _)) = l.s.images[n];
    if area((w, h)) > MAX_AREA {
        return Ok(1);
    }
    let size = w as usize * h as usize * 4;
    let mut buf = vec![dirt; size + extra];
    let got = l.af.load_image(l.img[n], &mut buf);
    ensure!(buf[size..].iter().all(|x| *x == dirt), "load_image wrote beyond width*height*4 bytes");
    match (got, ref_image(&l.s, n)) {
        (Ok(()), Ok(px)) => {
            for (i, p) in px.iter().enumerate() {
                ensure!(
                    buf[i * 4..i * 4 + 4] == *p,
                    "image of frame {} layer {} ({w}x{h}): pixel {i} is {:?}, expected {p:?}",
                    at.0,
                    at.1,
                    &buf[i * 4..i * 4 + 4]
                );
            }
            Ok(crate::explore::hash(&buf))
        }
        (Err(g), Err(e)) => {
            ensure!(err_ok(&g, &e), "load_image reported {g:?} for {e:?}");
            Ok(2)
        }
        (Ok(()), Err(IErr::Malformed)) => Ok(4),
        (Ok(()), Err(e)) => bad!("load_image succeeded on an image that must fail ({e:?})"),
        (Err(g), Ok(_)) => bad!("load_image failed on a valid image: {g:?}"),
    }
}

pub fn selection(sel: &Sel) -> LayerSelection {
    match sel {
        Sel::Visible => LayerSelection::Visible,
        Sel::All => LayerSelection::All,
        Sel::Mask(m) => LayerSelection::Mask(m.clone()),
    }
}

/// Is rendering this frame affordable?
pub fn affordable(s: &Sprite<'_>, frame: usize) -> bool {
    area(s.size) <= MAX_AREA && s.frames[frame].1.iter().all(|c| area(c.size) <= MAX_AREA)
}

/// Render one frame onto `start` (which may be longer than the canvas).
pub fn render(l: &Loaded<'_>, frame: usize, sel: &Sel, start: &[u8]) -> B<u64> {
    let mut buf = start.to_vec();
    let n = l.s.size.0 as usize * l.s.size.1 as usize * 4;
    let got = l.af.render_frame(frame, &mut buf, &selection(sel));
    rendered(&l.s, frame, sel, start, &buf, n, got)
}
pub fn rendered(
    s: &Sprite<'_>,
    frame: usize,
    sel: &Sel,
    start: &[u8],
    buf: &[u8],
    n: usize,
    got: Result<(), LoadImageError>,
) -> B<u64> {
    ensure!(buf[n..] == start[n..], "rendering wrote beyond width*height*4 bytes");
    match (got, refcomp::render(s, frame, sel, start)) {
        (Ok(()), Ok(cv)) => {
            if let Err((i, e, g)) = cv.matches(buf) {
                bad!(
                    "frame {frame} {sel:?}: canvas pixel ({}, {}) is {g:?}, expected {e:?}",
                    i % s.size.0 as usize,
                    i / s.size.0 as usize
                );
            }
            Ok(crate::explore::hash(buf))
        }
        (Err(g), Err(e)) => {
            ensure!(e.iter().any(|e| err_ok(&g, e)), "rendering reported {g:?} for {e:?}");
            Ok(3)
        }
        (Ok(()), Err(e)) if e.iter().all(|e| *e == IErr::Malformed) => Ok(4),
        (Ok(()), Err(e)) => bad!("frame {frame} {sel:?}: rendering succeeded although {e:?}"),
        (Err(g), Ok(_)) => bad!("frame {frame} {sel:?}: rendering failed with {g:?}"),
    }
}
/// Every frame under `Visible` and `All`, on a transparent and a dirty canvas.
pub fn renders(l: &Loaded<'_>) -> Res {
    let mut h = 0u64;
    if area(l.s.size) > MAX_AREA {
        return Ok(h);
    }
    let n = l.s.size.0 as usize * l.s.size.1 as usize * 4;
    for f in 0..l.s.frames.len() {
        if !affordable(&l.s, f) {
            continue;
        }
        h = h.rotate_left(5) ^ render(l, f, &Sel::Visible, &vec![0; n])?;
        h = h.rotate_left(5) ^ render(l, f, &Sel::All, &vec![0x5a; n + 5])?;
    }
    Ok(h)
}
