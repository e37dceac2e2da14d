//! C31: pictures whose size does not fit a 32-bit address space.
use super::image::bpp;
use super::tier;
use crate::enc::*;
use crate::explore::*;
use crate::gen::std_palette;
use crate::{bad, ensure, Tier};
use aseprite_loader::loader::{AsepriteFile, LayerSelection, LoadImageError};

/// Lengths whose products with each other (and with 1, 2 and 4 bytes per pixel)
/// lie around 2^31 and 2^32, and small ones.
const SIDES: [u16; 26] = [
    0, 1, 2, 3, 4, 255, 256, 257, 16383, 16384, 16385, 21846, 23170, 23171, 32766, 32767, 32768, 32769, 40000, 46340, 46341, 49152,
    61441, 65521, 65534, 65535,
];
/// More is not allocated here.
const MOST: u64 = 1 << 20;
/// Buffers of the right size, a bit smaller, and of the sizes that come out when
/// the true one wraps around at 2^32, 2^31 or 2^16.
fn lengths(need: u64) -> Vec<usize> {
    let mut v: Vec<u64> = vec![0, 1, 4, 64, 4096];
    for w in [need, need & 0xFFFF_FFFF, need & 0x7FFF_FFFF, need & 0xFFFF, (need / 4) & 0xFFFF_FFFF, (need / 2) & 0xFFFF_FFFF] {
        v.extend([w.saturating_sub(1), w, w + 1]);
    }
    v.retain(|n| *n <= MOST);
    v.sort();
    v.dedup();
    v.into_iter().map(|n| n as usize).collect()
}
fn load(b: &[u8]) -> crate::cmp::B<AsepriteFile<'_>> {
    match AsepriteFile::load(b) {
        Ok(f) => Ok(f),
        Err(e) => bad!("a well-formed sprite does not load: {e:?}"),
    }
}
fn side(c: &mut Ctx, l: &'static str, t: Tier) -> u16 {
    let n = c.all(l, SIDES.len() + tier(t, 0, 40));
    SIDES.get(n).copied().unwrap_or_else(|| (1638 * (n - SIDES.len() + 1) + 1) as u16)
}

/// Too small a buffer is refused and left alone, a large enough one is not.
fn canvas(c: &mut Ctx, t: Tier) -> Res {
    let (w, h) = (side(c, "width", t), side(c, "height", t));
    let need = w as u64 * h as u64 * 4;
    let ls = lengths(need);
    let len = ls[c.all("buffer", ls.len())];
    let cels = c.all("cels", 3);
    let depth = c.all_of("depth", &[32u16, 8]);
    let px: Vec<u8> = (1..=2 * bpp(depth) as u8).collect();
    let mut f = vec![std_palette(), layer(&Layer { flags: 1, ..Default::default() })];
    if cels == 1 {
        f.push(cel(&image_cel(0, 0, 0, 2, 1, &px, false)));
    } else if cels == 2 {
        f.push(cel(&image_cel(0, w.wrapping_sub(1) as i16, h.wrapping_sub(1) as i16, 1, 2, &px, false)));
    }
    let b = file(&Header { width: w, height: h, depth, transparent: 200, ..Default::default() }, &[Frame::new(f)]);
    c.input(&b);
    c.state ^= hash(&len.to_le_bytes()).rotate_left(5);
    let s = load(&b)?;
    let mut buf = vec![0x5a; len];
    #[allow(deprecated)]
    let r = if c.all("with hash", 2) == 1 {
        s.combined_frame_image(0, &mut buf).map(|_| ())
    } else {
        s.render_frame(0, &mut buf, &LayerSelection::All)
    };
    if (len as u64) < need {
        ensure!(
            matches!(r, Err(LoadImageError::TargetBufferTooSmall)),
            "a canvas of {w}x{h} pixels is rendered into {len} bytes: {r:?}"
        );
        ensure!(buf.iter().all(|x| *x == 0x5a), "refused buffer of {len} bytes for {w}x{h} pixels was written to");
        return Ok(0);
    }
    ensure!(r.is_ok(), "a canvas of {w}x{h} pixels is not rendered into {len} bytes: {r:?}");
    // Where the two pixels of the cel lie, if they are on the canvas.
    let (w, h) = (w as i64, h as i64);
    let at: Vec<(i64, i64)> = match cels {
        0 => vec![],
        1 => vec![(0, 0), (1, 0)],
        _ => {
            let (x, y) = ((w as u16).wrapping_sub(1) as i16 as i64, (h as u16).wrapping_sub(1) as i16 as i64);
            vec![(x, y), (x, y + 1)]
        }
    };
    let at: Vec<i64> = at.into_iter().filter(|(x, y)| *x >= 0 && *y >= 0 && *x < w && *y < h).map(|(x, y)| y * w + x).collect();
    for (i, p) in buf.chunks(4).enumerate() {
        if !at.contains(&(i as i64)) {
            ensure!(p.iter().all(|x| *x == 0x5a), "byte {} of a canvas of {w}x{h} pixels, which no cel covers, was written to", i * 4);
        }
    }
    Ok(1 + at.len() as u64)
}
/// Likewise for single images, whatever their data.
fn image(c: &mut Ctx, t: Tier) -> Res {
    let (w, h) = (side(c, "width", t), side(c, "height", t));
    let depth = c.all_of("depth", &[32u16, 16, 8]);
    let z = c.all("compressed", 2) == 1;
    let need = w as u64 * h as u64 * 4;
    let ls = lengths(need);
    let len = ls[c.all("buffer", ls.len())];
    let full = w as usize as u64 * h as u64 * bpp(depth) as u64;
    // As much as the image declares, what remains of it modulo 2^32, or little.
    let n = match c.all("data", 3) {
        0 => 7,
        1 if full <= MOST => full as usize,
        1 => 0,
        _ => ((full & 0xFFFF_FFFF) as usize).min(1 << 16),
    };
    let data = vec![3u8; n];
    let b = file(
        &Header { width: 2, height: 2, depth, transparent: 200, ..Default::default() },
        &[Frame::new(vec![std_palette(), layer(&Layer { flags: 1, ..Default::default() }), cel(&image_cel(0, 0, 0, w, h, &data, z))])],
    );
    c.input(&b);
    c.state ^= hash(&len.to_le_bytes()).rotate_left(5);
    let s = load(&b)?;
    let mut buf = vec![0x5a; len];
    let r = s.load_image(0, &mut buf);
    if (len as u64) < need {
        ensure!(r.is_err(), "an image of {w}x{h} pixels with {n} bytes of data is decoded into {len} bytes");
        if n as u64 == full {
            ensure!(matches!(r, Err(LoadImageError::TargetBufferTooSmall)), "an image of {w}x{h} pixels is decoded into {len} bytes: {r:?}");
        }
        ensure!(buf.iter().all(|x| *x == 0x5a), "refused buffer of {len} bytes for {w}x{h} pixels was written to");
        return Ok(0);
    }
    ensure!(r.is_ok() == (n as u64 == full), "an image of {w}x{h} pixels of {} bytes with {n} bytes of data: {r:?}", bpp(depth));
    ensure!(buf[need as usize..].iter().all(|x| *x == 0x5a), "bytes after an image of {w}x{h} pixels were written to");
    Ok(1 + r.is_ok() as u64)
}
/// A cel that no buffer of this platform could hold is an error, unless it is not drawn.
fn cels(c: &mut Ctx, t: Tier) -> Res {
    let (w, h) = (side(c, "width", t), side(c, "height", t));
    let need = w as u64 * h as u64 * 4;
    let depth = c.all_of("depth", &[32u16, 16, 8]);
    let z = c.all("compressed", 2) == 1;
    let drawn = c.all("not drawn", 2) == 0;
    let n = [0usize, 8, 4096][c.all("data", 3)];
    let at = [(0i16, 0i16), (1, 1)][c.all("position", 2)];
    if need > MOST && need <= isize::MAX as u64 {
        // Whether there is so much memory is not the library's business.
        c.input(&[]);
        return Ok(9);
    }
    let full = w as u64 * h as u64 * bpp(depth) as u64;
    let data = vec![3u8; n];
    let b = file(
        &Header { width: 2, height: 2, depth, transparent: 200, ..Default::default() },
        &[Frame::new(vec![
            std_palette(),
            layer(&Layer { flags: 1, ..Default::default() }),
            layer(&Layer { flags: 1, ..Default::default() }),
            cel(&image_cel(1, at.0, at.1, w, h, &data, z)),
            cel(&image_cel(0, 0, 0, 1, 1, &vec![1; bpp(depth)], false)),
        ])],
    );
    c.input(&b);
    let s = load(&b)?;
    let mut buf = vec![0x5a; 16];
    let sel = LayerSelection::Mask(vec![true, drawn]);
    let r = s.render_frame(0, &mut buf, &sel);
    let fine = !drawn || full == n as u64;
    ensure!(r.is_ok() == fine, "rendering a cel of {w}x{h} pixels of {} bytes with {n} bytes of data (drawn: {drawn}): {r:?}", bpp(depth));
    Ok(r.is_ok() as u64)
}
pub fn c31(t: Tier) -> Vec<Driver> {
    vec![
        Driver::new("canvas", 0, "canvas width x height around the sizes that wrap x buffer length x cels at the corners", move |c| canvas(c, t)),
        Driver::new("image", 0, "image width x height around the sizes that wrap x depth x encoding x buffer length x data", move |c| image(c, t)),
        Driver::new("cel", 0, "cel width x height around the sizes that wrap x depth x encoding x drawn or not x position", move |c| cels(c, t)),
    ]
}
