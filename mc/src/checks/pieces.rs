//! C28: the public parsers, called piece by piece.
use super::tier;
use crate::explore::*;
use crate::gen::*;
use crate::Tier;

#[cfg(not(feature = "inner"))]
pub fn c28(t: Tier) -> Vec<Driver> {
    use crate::cmp;
    vec![Driver::new("whole", tier(t, 1, 2), "whole files only: the inner parsers are not reachable in this tree", |c| {
        let b = if c.all("file", 2) == 0 { main_file(c) } else { aux_file(c) };
        c.input(&b);
        let _ = cmp::raw(&b)?;
        Ok(1)
    })]
}
#[cfg(feature = "inner")]
pub use inner::c28;

#[cfg(feature = "inner")]
mod inner {
    use super::*;
    use crate::cmp::{diff, raw, B};
    use crate::enc::*;
    use crate::refp::{self, Cur, RChunk, RHeader, RMap, RValue};
    use crate::{bad, ensure, lift};
    use aseprite_loader::binary as x;
    use x::chunk::{parse_chunk, parse_chunks, Chunk};
    use x::chunks as ch;
    use x::errors::ParseResult;
    use x::raw_frame::{parse_frames, parse_rawframe};
    use x::scalars as sc;

    /// Number of bytes read, given the unread rest.
    fn used(what: &str, b: &[u8], rest: &[u8]) -> B<usize> {
        if rest.is_empty() {
            return Ok(b.len());
        }
        let n = b.len().checked_sub(rest.len());
        match n {
            Some(n) if b[n..].as_ptr() == rest.as_ptr() => Ok(n),
            _ => bad!("{what}: the rest is not the end of the input ({} of {} bytes)", rest.len(), b.len()),
        }
    }
    type Out<T> = B<Option<(usize, T)>>;
    fn out<'a, T, U>(what: &str, b: &'a [u8], r: ParseResult<'a, T>, f: impl FnOnce(&T) -> U) -> Out<U> {
        match r {
            Ok((rest, v)) => Ok(Some((used(what, b, rest)?, f(&v)))),
            Err(_) => Ok(None),
        }
    }
    const KINDS: [u16; 13] = [
        LAYER,
        CEL,
        CEL_EXTRA,
        COLOR_PROFILE,
        EXTERNAL,
        MASK,
        TAGS,
        PALETTE,
        USER_DATA,
        SLICE,
        TILESET,
        OLD04,
        OLD11,
    ];
    /// The content parser of a chunk type.
    fn body(ty: u16, b: &[u8]) -> Out<RChunk<'_>> {
        macro_rules! p {
            ($f:expr, $v:path) => {
                match $f(b) {
                    Ok((rest, v)) => Ok(Some((used(stringify!($f), b, rest)?, lift::chunk(&$v(v))))),
                    Err(_) => Ok(None),
                }
            };
        }
        match ty {
            LAYER => p!(ch::layer::parse_layer_chunk, Chunk::Layer),
            CEL => p!(ch::cel::parse_cel_chunk, Chunk::Cel),
            CEL_EXTRA => p!(ch::cel_extra::parse_cel_extra_chunk, Chunk::CelExtra),
            COLOR_PROFILE => p!(ch::color_profile::parse_color_profile, Chunk::ColorProfile),
            EXTERNAL => p!(ch::external_files::parse_external_files_chunk, Chunk::ExternalFiles),
            MASK => p!(ch::mask::parse_mask_chunk, Chunk::Mask),
            TAGS => p!(ch::tags::parse_tags_chunk, Chunk::Tags),
            PALETTE => p!(ch::palette::parse_palette_chunk, Chunk::Palette),
            USER_DATA => p!(ch::user_data::parse_user_data_chunk, Chunk::UserData),
            SLICE => p!(ch::slice::parse_slice_chunk, Chunk::Slice),
            TILESET => p!(ch::tileset::parse_tileset_chunk, Chunk::Tileset),
            OLD04 => p!(ch::old_palette::parse_old_palette_chunk, Chunk::Palette0004),
            _ => p!(ch::old_palette::parse_old_palette_chunk, Chunk::Palette0011),
        }
    }
    /// Chunks whose content says itself where it ends.
    fn delimited(ty: u16) -> bool {
        !matches!(ty, CEL | CEL_EXTRA | MASK)
    }
    /// A result against the model's.
    fn agree<T: PartialEq + std::fmt::Debug>(
        what: &str,
        b: &[u8],
        got: Option<(usize, T)>,
        exp: Option<(usize, T)>,
        rest: bool,
    ) -> B<Option<usize>> {
        match (got, exp) {
            (None, None) => Ok(None),
            (Some((n, g)), Some((m, e))) => {
                ensure!(g == e, "{what} on {} bytes: {}", b.len(), diff(&e, &g));
                ensure!(!rest || n == m, "{what} reads {n} of {} bytes, expected {m}", b.len());
                Ok(Some(m))
            }
            (g, e) => bad!(
                "{what} on {} bytes is {}, expected {}",
                b.len(),
                if g.is_some() { "accepted" } else { "refused" },
                if e.is_some() { "accepted" } else { "refused" }
            ),
        }
    }
    /// A parser against its model on the bytes, on every beginning of them and
    /// with other bytes behind them.
    fn everywhere(what: &str, b: &[u8], f: &dyn Fn(&[u8]) -> B<Option<usize>>) -> B<u64> {
        let n = f(b)?;
        let mut k = 0;
        if let Some(n) = n {
            ensure!(f(&b[..n])? == Some(n), "{what}: the bytes read do not suffice");
        }
        for cut in 0..b.len() {
            if cut > 120 && cut + 120 < b.len() && cut % 61 != 0 {
                continue;
            }
            let p = f(&b[..cut])?;
            k += 1;
            let _ = p;
        }
        for tail in [&[0u8][..], &[0xff; 9], b] {
            let mut v = b.to_vec();
            v.extend_from_slice(tail);
            let _ = f(&v)?;
            k += 1;
        }
        Ok(k)
    }
    fn body_at(ty: u16, b: &[u8]) -> B<Option<usize>> {
        let mut m = Cur::new(b);
        let e = refp::body(ty, &mut m).ok().map(|v| (b.len() - m.left(), v));
        agree(&format!("content parser of chunk type {ty:#x}"), b, body(ty, b)?, e, delimited(ty))
    }
    fn bodies(c: &mut Ctx, ty: u16, b: &[u8]) -> Res {
        let k = everywhere("content parser", b, &|b| body_at(ty, b))?;
        c.count("content parser calls", k);
        Ok(k)
    }
    fn chunk_of(c: &mut Ctx, ty: u16) -> Vec<u8> {
        match ty {
            LAYER => {
                let t = c.all("kind", 3) as u16;
                gen_layer(c, Layer { ty: t, tileset: 9, ..Default::default() })
            }
            CEL => {
                let d = match c.all("kind", 5) {
                    0 => image_cel(0, -3, 4, 2, 1, &[1, 2, 3, 4, 5, 6, 7, 8], false),
                    1 => image_cel(1, 3, -4, 2, 1, &[1, 2, 3, 4, 5, 6, 7, 8], true),
                    2 => Cel { layer: 2, x: 1, content: Content::Link(3), ..Default::default() },
                    3 => Cel {
                        content: Content::Tilemap {
                            w: 2,
                            h: 3,
                            bits: 32,
                            id: 0x1fffffff,
                            x: 0x20000000,
                            y: 0x40000000,
                            d: 0x80000000,
                            reserved: 0,
                            data: vec![9, 8, 7],
                        },
                        ..Default::default()
                    },
                    _ => Cel { content: Content::Unknown { ty: 9, data: vec![1, 2, 3] }, ..Default::default() },
                };
                gen_cel(c, d, 3, 2)
            }
            CEL_EXTRA => gen_extra(c),
            COLOR_PROFILE => {
                let t = c.all("kind", 4) as u16;
                gen_profile(c, t)
            }
            EXTERNAL => gen_external(c),
            MASK => gen_mask(c),
            TAGS => gen_tags(c),
            PALETTE => gen_palette(c),
            USER_DATA => gen_user(c),
            SLICE => {
                let f = c.all("kind", 4) as u32;
                gen_slice(c, f, "s")
            }
            TILESET => {
                let f = c.all("kind", 4) as u32;
                gen_tileset(c, f)
            }
            t => gen_old_palette(c, t),
        }
    }
    fn content(c: &mut Ctx) -> Res {
        let ty = KINDS[c.all("chunk type", KINDS.len())];
        let b = chunk_of(c, ty);
        c.input(&b);
        if b.len() > 3000 {
            return body_at(ty, &b[6..]).map(|n| n.map_or(0, |n| n as u64));
        }
        let k = bodies(c, ty, &b[6..])?;
        Ok(k ^ list(ty, &b[6..])?)
    }
    /// The items of a list, one after the other, are the items of the chunk.
    fn list(ty: u16, b: &[u8]) -> Res {
        fn text<T: std::fmt::Debug>(v: &T) -> String {
            format!("{v:?}")
        }
        macro_rules! items {
            ($whole:expr, $items:ident, $start:expr, $one:expr) => {{
                if let Ok((end, v)) = $whole(b) {
                    let mut at = $start;
                    for (i, it) in v.$items.iter().enumerate() {
                        match $one(&b[at..]) {
                            Ok((r, one)) => {
                                ensure!(text(&one) == text(it), "item {i} of {ty:#x} is {one:?} alone, {it:?} in its chunk");
                                at += used(stringify!($one), &b[at..], r)?;
                            }
                            Err(e) => bad!("item {i} of chunk {ty:#x} is refused alone: {e:?}"),
                        }
                    }
                    let end = used("chunk", b, end)?;
                    ensure!(at == end, "items of chunk {ty:#x} end at {at}, the chunk at {end}");
                    return Ok(v.$items.len() as u64);
                }
            }};
        }
        match ty {
            TAGS => items!(ch::tags::parse_tags_chunk, tags, 10, ch::tags::parse_tag),
            PALETTE => items!(ch::palette::parse_palette_chunk, entries, 20, ch::palette::parse_palette_entry),
            OLD04 | OLD11 => items!(ch::old_palette::parse_old_palette_chunk, packets, 2, ch::old_palette::parse_packet),
            EXTERNAL => {
                items!(ch::external_files::parse_external_files_chunk, files, 12, ch::external_files::parse_external_file)
            }
            SLICE => {
                if let Ok((_, s)) = ch::slice::parse_slice_chunk(b) {
                    let start = 14 + s.name.len();
                    let flags = s.flags;
                    items!(ch::slice::parse_slice_chunk, slice_keys, start, |b| ch::slice::parse_slice_key(b, flags));
                }
            }
            _ => {}
        }
        Ok(0)
    }

    /// A file taken apart level by level.
    fn apart(c: &mut Ctx) -> Res {
        let b = if c.all("file", 2) == 0 { main_file(c) } else { aux_file(c) };
        c.input(&b);
        if b.len() > 20_000 {
            return Ok(0);
        }
        let Ok(whole) = raw(&b)? else { return Ok(1) };
        let r = out("parse_header", &b, x::header::parse_header(&b), |h| lift::header(h))?;
        let Some((n, h)) = r else { bad!("parse_header refuses a valid header") };
        ensure!(n == 128, "parse_header reads {n} bytes");
        ensure!(h == whole.header, "parse_header: {}", diff(&whole.header, &h));
        let all = out("parse_frames", &b[128..], parse_frames(&b[128..]), |v| v.iter().map(lift::frame).collect::<Vec<_>>())?;
        let Some((n, all)) = all else { bad!("parse_frames refuses the frames of a valid file") };
        ensure!(n == b.len() - 128, "parse_frames leaves {} bytes", b.len() - 128 - n);
        ensure!(all == whole.frames, "parse_frames: {}", diff(&whole.frames, &all));
        let mut at = 128;
        let mut k = 0;
        for (i, f) in whole.frames.iter().enumerate() {
            let size = u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
            let one = &b[at..at + size];
            for (rest, tail) in [&b[at..], one, &b[at..(at + size + 3).min(b.len())]].iter().zip(["the rest", "nothing", "a bit"]) {
                match out("parse_rawframe", rest, parse_rawframe(rest), lift::frame)? {
                    Some((n, g)) => {
                        ensure!(n == size, "parse_rawframe reads {n} bytes of frame {i} of {size} bytes, followed by {tail}");
                        ensure!(g == *f, "parse_rawframe: frame {i} followed by {tail}: {}", diff(f, &g));
                    }
                    None => bad!("parse_rawframe refuses frame {i} followed by {tail}"),
                }
            }
            for cut in 0..size {
                ensure!(parse_rawframe(&one[..cut]).is_err(), "parse_rawframe accepts {cut} of {size} bytes of frame {i}");
            }
            k += size as u64;
            let chunks = &one[16..];
            let mut p = 0;
            for (j, e) in f.chunks.iter().enumerate() {
                let size = u32::from_le_bytes(chunks[p..p + 4].try_into().unwrap()) as usize;
                for rest in [&chunks[p..], &chunks[p..p + size]] {
                    match out("parse_chunk", rest, parse_chunk(rest), lift::chunk)? {
                        Some((n, g)) => {
                            ensure!(n == size, "parse_chunk reads {n} of {size} bytes of chunk {j} of frame {i}");
                            ensure!(g == *e, "parse_chunk: chunk {j} of frame {i}: {}", diff(e, &g));
                        }
                        None => bad!("parse_chunk refuses chunk {j} of frame {i}"),
                    }
                }
                for cut in 0..size {
                    if cut < 64 || cut + 64 > size {
                        ensure!(parse_chunk(&chunks[p..p + cut]).is_err(), "parse_chunk accepts {cut} of {size} bytes of chunk {j}");
                    }
                }
                p += size;
                // The first j + 1 chunks.
                match out("parse_chunks", chunks, parse_chunks(chunks, j + 1), |v| v.iter().map(lift::chunk).collect::<Vec<_>>())? {
                    Some((n, v)) => {
                        ensure!(n == p, "parse_chunks of {} chunks reads {n} bytes instead of {p}", j + 1);
                        ensure!(v == f.chunks[..=j], "parse_chunks of {} chunks gives other chunks", j + 1);
                    }
                    None => bad!("parse_chunks refuses the first {} chunks of frame {i}", j + 1),
                }
                let ty = u16::from_le_bytes(chunks[p - size + 4..p - size + 6].try_into().unwrap());
                match x::chunk_type::parse_chunk_type(&chunks[p - size + 4..p]) {
                    Ok((r, v)) => {
                        ensure!(used("parse_chunk_type", &chunks[p - size + 4..p], r)? == 2 || size == 6, "parse_chunk_type does not read two bytes");
                        match v {
                            Ok(t) => ensure!(t as usize == ty as usize, "parse_chunk_type({ty:#x}) is {t:?}"),
                            Err(n) => ensure!(n == ty && !KINDS.contains(&ty) && ty != PATH, "parse_chunk_type({ty:#x}) is unknown {n:#x}"),
                        }
                    }
                    Err(_) => bad!("parse_chunk_type refuses {ty:#x}"),
                }
            }
            if p == chunks.len() {
                ensure!(parse_chunks(chunks, f.chunks.len() + 1).is_err(), "parse_chunks finds a chunk more than there is");
            }
            match out("parse_chunks", chunks, parse_chunks(chunks, 0), |v| v.len())? {
                Some((n, 0)) if n == 0 || chunks.is_empty() => {}
                g => bad!("parse_chunks of no chunks gives {g:?}"),
            }
            at += size;
        }
        c.count("bytes taken apart", b.len() as u64);
        Ok(k)
    }

    /// Headers of every length and a change in every byte.
    fn heads(c: &mut Ctx) -> Res {
        let mut h = header(&base_header(), 1, 16);
        h.extend(frame(&Frame::new(vec![])));
        let byte = c.all("byte", 129);
        if byte < 128 {
            h[byte] ^= [1u8, 0x80, 0xff, 0x10][c.all("change", 4)];
        }
        c.input(&h);
        for n in 0..=h.len() {
            let b = &h[..n];
            let mut m = Cur::new(b);
            let e: Option<(usize, RHeader)> = refp::header(&mut m).ok().map(|v| (n - m.left(), v));
            agree("parse_header", b, out("parse_header", b, x::header::parse_header(b), |h| lift::header(h))?, e, true)?;
        }
        Ok(1)
    }

    /// A value of each type with recognisable bytes.
    fn gen_value(c: &mut Ctx, ty: u16, seed: u8) -> Vec<u8> {
        let mut v = vec![];
        let mut n = |k: usize| (0..k).map(|i| seed.wrapping_mul(31).wrapping_add((i as u8).wrapping_mul(17)).wrapping_add(0x81)).collect::<Vec<u8>>();
        match ty {
            1 => v.push(seed & 1),
            2 | 3 => v.extend(n(1)),
            4 | 5 => v.extend(n(2)),
            6 | 7 | 10 | 11 => v.extend(n(4)),
            8 | 9 | 12 | 14 | 15 => v.extend(n(8)),
            16 | 19 => v.extend(n(16)),
            13 => {
                v.str(["s", "", "long enough"][seed as usize % 3].as_bytes());
            }
            17 => v.extend(gen_vector(c, 2, 5, seed)),
            18 => {
                v.u32(seed as u32).u32(1).str(b"in").u16(2).u8(seed);
            }
            _ => unreachable!(),
        }
        v
    }
    fn gen_vector(c: &mut Ctx, n: usize, ty: u16, seed: u8) -> Vec<u8> {
        let mut v = vec![];
        v.u32(n as u32).u16(ty);
        for i in 0..n {
            let s = seed.wrapping_add(i as u8 * 3);
            if ty == 0 {
                let t = (seed as usize + i * 7) as u16 % 19 + 1;
                v.u16(t);
                v.extend(gen_value(c, t, s));
            } else {
                v.extend(gen_value(c, ty, s));
            }
        }
        v
    }
    fn gen_map(c: &mut Ctx, n: usize, seed: u8) -> Vec<u8> {
        let mut v = vec![];
        v.u32(seed as u32 * 0x01010101).u32(n as u32);
        for i in 0..n {
            let t = (seed as usize + i * 5) as u16 % 19 + 1;
            v.str([&b"a"[..], b"", b"name"][(seed as usize + i) % 3]).u16(t);
            v.extend(gen_value(c, t, seed.wrapping_add(i as u8)));
        }
        v
    }
    /// Values, vectors, maps and properties on their own.
    fn values(c: &mut Ctx) -> Res {
        use ch::user_data as u;
        let kind = c.all("parser", 5);
        let seed = c.all("seed", 20) as u8;
        let b = match kind {
            0 => {
                let ty = c.all("type", 22) as u16;
                let mut v = vec![];
                v.u16(ty);
                if (1..=19).contains(&ty) {
                    let w = gen_value(c, ty, seed);
                    v.extend(w);
                } else {
                    v.fill(20, seed);
                }
                v
            }
            1 => {
                let ty = c.all("type", 20) as u16;
                let n = c.all("elements", 5);
                gen_vector(c, n, ty, seed)
            }
            2 => {
                let n = c.all("properties", 5);
                gen_map(c, n, seed)
            }
            3 => {
                let ty = c.all("type", 19) as u16 + 1;
                let mut v = vec![];
                v.str(b"name").u16(ty);
                let w = gen_value(c, ty, seed);
                v.extend(w);
                v
            }
            _ => {
                let mut v = vec![];
                for i in 0..c.all("maps", 4) {
                    let n = (seed as usize + i) % 3;
                    let w = gen_map(c, n, seed.wrapping_add(i as u8));
                    v.extend(w);
                }
                let n = v.len();
                let slack = [0usize, 0, 5][c.all("slack", 3)];
                let mut w = vec![];
                w.u32((8 + n + slack) as u32).u32(c.trace.iter().find(|p| p.label == "maps").unwrap().choice).raw(&v).fill(slack, 7);
                w
            }
        };
        c.input(&b);
        let depth = &mut 0usize;
        let k = match kind {
            0 => everywhere("parse_value", &b, &|b| {
                let mut m = Cur::new(b);
                let e: Option<RValue> = (|| {
                    let ty = m.u16()?;
                    refp::value(&mut m, ty, 0, &mut 0)
                })()
                .ok();
                let g = out("parse_value", b, u::parse_value(b), lift::value)?;
                agree("parse_value", b, g, e.map(|e| (b.len() - m.left(), e)), true)
            })?,
            1 => everywhere("parse_vector", &b, &|b| {
                let mut m = Cur::new(b);
                let e = refp::vector(&mut m, 0, &mut 0).ok();
                agree("parse_vector", b, out("parse_vector", b, u::parse_vector(b), lift::vector)?, e.map(|e| (b.len() - m.left(), e)), true)
            })?,
            2 => everywhere("parse_properties_map", &b, &|b| {
                let mut m = Cur::new(b);
                let e = refp::map(&mut m, 0, &mut 0).ok();
                let g = out("parse_properties_map", b, u::parse_properties_map(b), lift::map)?;
                agree("parse_properties_map", b, g, e.map(|e| (b.len() - m.left(), e)), true)
            })?,
            3 => everywhere("parse_property", &b, &|b| {
                let mut m = Cur::new(b);
                let e: Option<(&[u8], RValue)> = (|| {
                    let name = m.str()?;
                    let ty = m.u16()?;
                    Ok::<_, refp::RErr>((name, refp::value(&mut m, ty, 0, &mut 0)?))
                })()
                .ok();
                let g = out("parse_property", b, u::parse_property(b), |p| (p.name.as_bytes(), lift::value(&p.value)))?;
                agree("parse_property", b, g, e.map(|e| (b.len() - m.left(), e)), true)
            })?,
            _ => everywhere("parse_properties_maps", &b, &|b| {
                let size = b.get(..4).map(|s| u32::from_le_bytes(s.try_into().unwrap()) as usize);
                let e = match size {
                    Some(s) if s <= b.len() => {
                        let n = u32::from_le_bytes(b[4..8].try_into().unwrap());
                        let mut m = Cur::new(&b[8..s]);
                        let v: Vec<RMap> = (0..n).map(|_| refp::map(&mut m, 0, &mut 0)).collect::<Result<_, _>>().unwrap();
                        Some((s, v))
                    }
                    _ => None,
                };
                let g = match u::parse_properties_maps(b) {
                    Ok((r, Ok((_, v)))) => Some((used("parse_properties_maps", b, r)?, v.iter().map(lift::map).collect())),
                    Ok((_, Err(_))) => bad!("parse_properties_maps: complete maps are refused"),
                    Err(_) => None,
                };
                agree("parse_properties_maps", b, g, e, true)
            })?,
        };
        let _ = depth;
        Ok(k)
    }

    /// One call of a scalar parser: `n` bytes are read, and the value is `v`.
    fn one<'a, T: PartialEq + std::fmt::Debug>(what: &str, b: &'a [u8], n: usize, r: ParseResult<'a, T>, v: T) -> B<()> {
        match r {
            Ok((rest, g)) => {
                ensure!(b.len() >= n, "{what} accepts {} bytes", b.len());
                ensure!(g == v, "{what}({:02x?}) is {g:?} instead of {v:?}", &b[..n]);
                let u = used(what, b, rest)?;
                ensure!(u == n, "{what} reads {u} bytes instead of {n}");
            }
            Err(_) => ensure!(b.len() < n, "{what} refuses {b:02x?}"),
        }
        Ok(())
    }
    fn fx(b: &[u8]) -> (u16, u16) {
        (u16::from_le_bytes([b[2], b[3]]), u16::from_le_bytes([b[0], b[1]]))
    }
    /// Every scalar parser on the first `n` bytes of `b` (32 bytes).
    fn scalars(b: &[u8; 32], n: usize) -> B<()> {
        let s = &b[..n];
        let i32at = |i: usize| i32::from_le_bytes(b[i..i + 4].try_into().unwrap());
        let d = u32::from_le_bytes(b[..4].try_into().unwrap());
        one("byte", s, 1, sc::byte(s), b[0])?;
        one("word", s, 2, sc::word(s), u16::from_le_bytes([b[0], b[1]]))?;
        one("short", s, 2, sc::short(s), i16::from_le_bytes([b[0], b[1]]))?;
        one("dword", s, 4, sc::dword(s), d)?;
        one("long", s, 4, sc::long(s), d as i32)?;
        one("parse_dword_as_usize", s, 4, sc::parse_dword_as_usize(s), d as usize)?;
        one("parse_point", s, 8, sc::parse_point(s).map(|(r, p)| (r, (p.x, p.y))), (i32at(0), i32at(4)))?;
        one("parse_size", s, 8, sc::parse_size(s).map(|(r, p)| (r, (p.width, p.height))), (i32at(0), i32at(4)))?;
        one(
            "parse_rect",
            s,
            16,
            sc::parse_rect(s).map(|(r, p)| (r, (p.point.x, p.point.y, p.size.width, p.size.height))),
            (i32at(0), i32at(4), i32at(8), i32at(12)),
        )?;
        one("parse_uuid", s, 16, sc::parse_uuid(s), u128::from_le_bytes(b[..16].try_into().unwrap()))?;
        one("fixed", s, 4, sc::fixed(s).map(|(r, f)| (r, (f.0, f.1))), fx(b))?;
        one("parse_color", s, 4, sc::parse_color(s).map(|(r, p)| (r, [p.red, p.green, p.blue, p.alpha])), [b[0], b[1], b[2], b[3]])?;
        one("parse_rgb", s, 3, sc::parse_rgb(s).map(|(r, p)| (r, [p.red, p.green, p.blue])), [b[0], b[1], b[2]])?;
        let w = u16::from_le_bytes([b[0], b[1]]);
        let mode = if w < 19 { refp::Blend::Known(w as u8) } else { refp::Blend::Unknown(w) };
        one("parse_blend_mode", s, 2, x::blend_mode::parse_blend_mode(s).map(|(r, m)| (r, lift::blend(m))), mode)?;
        one("parse_color_depth", s, 2, x::color_depth::parse_color_depth(s).map(|(r, p)| (r, p.bpp())), u16::from_le_bytes([b[0], b[1]]))?;
        one(
            "parse_nine_patch",
            s,
            16,
            ch::slice::parse_nine_patch(s).map(|(r, p)| (r, (p.x, p.y, p.width, p.height))),
            (i32at(0), i32at(4), i32at(8) as u32, i32at(12) as u32),
        )?;
        one("parse_pivot", s, 8, ch::slice::parse_pivot(s).map(|(r, p)| (r, (p.x, p.y))), (i32at(0), i32at(4)))?;
        one(
            "tileset::parse_external_file",
            s,
            8,
            ch::tileset::parse_external_file(s).map(|(r, p)| (r, (p.external_file_id, p.tileset_id))),
            (d, i32at(4) as u32),
        )?;
        let err = || x::errors::ParseError::LayerIndexOutOfBounds;
        let small = d <= 255;
        match sc::parse_dword_as_u8(s, err()) {
            Ok((rest, v)) => ensure!(n >= 4 && small && v as u32 == d && used("parse_dword_as_u8", s, rest)? == 4, "parse_dword_as_u8({s:02x?}) is {v}"),
            Err(nom::Err::Error(e) | nom::Err::Failure(e)) => {
                ensure!(n < 4 || !small, "parse_dword_as_u8 refuses {d}");
                ensure!(n < 4 || matches!(e, x::errors::ParseError::LayerIndexOutOfBounds), "parse_dword_as_u8 reports {e:?} for {d}");
            }
            Err(_) => bad!("parse_dword_as_u8 asks for more data"),
        }
        match sc::dword_size(s, x::errors::ParseError::InvalidChunkSize) {
            Ok((rest, v)) => ensure!(n >= 4 && d >= 4 && v == d && used("dword_size", s, rest)? == 4, "dword_size({s:02x?}) is {v}"),
            Err(nom::Err::Error(e) | nom::Err::Failure(e)) => {
                ensure!(n < 4 || d < 4, "dword_size refuses {d}");
                ensure!(n < 4 || matches!(e, x::errors::ParseError::InvalidChunkSize(k) if k == d), "dword_size reports {e:?} for {d}");
            }
            Err(_) => bad!("dword_size asks for more data"),
        }
        // Bytes with a length in front.
        let len = d as usize;
        let fits = n >= 4 && len <= n - 4;
        match ch::tileset::parse_tiles(s) {
            Ok((rest, t)) => ensure!(
                fits && t.data == &s[4..4 + len] && used("parse_tiles", s, rest)? == 4 + len,
                "parse_tiles of {len} bytes gives {} bytes",
                t.data.len()
            ),
            Err(_) => ensure!(!fits, "parse_tiles refuses {len} bytes of {}", n - 4),
        }
        let len = u16::from_le_bytes([b[0], b[1]]) as usize;
        let fits = n >= 2 && len <= n - 2 && std::str::from_utf8(&s[2..2 + len]).is_ok();
        match sc::parse_string(s) {
            Ok((rest, t)) => ensure!(
                fits && t.as_bytes() == &s[2..2 + len] && used("parse_string", s, rest)? == 2 + len,
                "parse_string of {len} bytes gives {t:?}"
            ),
            Err(_) => ensure!(!fits, "parse_string refuses {len} bytes of {}", n - 2),
        }
        Ok(())
    }

    pub fn c28(t: Tier) -> Vec<Driver> {
        vec![
            Driver::new("scalars", 0, "every scalar parser on inputs of 0 to 32 bytes: all 16-bit beginnings, every value of every byte", |c| {
                let mut b = [0u8; 32];
                match c.all("kind", 4) {
                    0 => {
                        for (i, v) in b.iter_mut().enumerate() {
                            *v = (i as u8).wrapping_mul(29).wrapping_add(3);
                        }
                        b[1] = c.all("second byte", 256) as u8;
                        for v in 0..=255 {
                            b[0] = v;
                            scalars(&b, 32)?;
                            scalars(&b, 2)?;
                        }
                    }
                    1 => {
                        let i = c.all("byte", 20);
                        for v in 0..=255 {
                            b[i] = v;
                            for n in 0..=32 {
                                scalars(&b, n)?;
                            }
                        }
                    }
                    2 => {
                        let i = c.all("byte", 20);
                        b = [0xff; 32];
                        for v in 0..=255 {
                            b[i] = v;
                            for n in [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 32] {
                                scalars(&b, n)?;
                            }
                        }
                    }
                    _ => {
                        // Lengths around the number of bytes there are, ASCII and not.
                        let fill = c.all_of("text", &[0x61u8, 0xc3, 0x80]);
                        b = [fill; 32];
                        b[1] = 0;
                        if c.all("32-bit length", 2) == 1 {
                            b[2] = 0;
                            b[3] = 0;
                        }
                        for len in 0..=33 {
                            b[0] = len;
                            for n in 0..=32 {
                                scalars(&b, n)?;
                            }
                        }
                    }
                }
                c.input(&b);
                Ok(b.iter().fold(0, |a, v| a * 31 % 65521 + *v as u64))
            }),
            Driver::new("headers", 0, "parse_header on every length with every byte changed", heads),
            Driver::new("values", 0, "values, vectors, maps, properties and lists of maps of every type, every beginning of them, other bytes behind", values),
            Driver::new("contents", tier(t, 2, 3), "the content of every kind of chunk, every field, every beginning of it, other bytes behind, item by item", content),
            Driver::new("contents-wide", 1, "the content of every kind of chunk, all 8/16-bit values of every field", content).wide(),
            Driver::new("apart", tier(t, 1, 2), "files taken apart into header, frames, chunks and contents", apart),
        ]
    }
}
