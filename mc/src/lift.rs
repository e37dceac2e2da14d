//! Lifts the crate's public structures into the normal form of the reference
//! model, so that the complete observable result can be compared by equality.
use crate::refl::{RFile, Sprite};
use crate::refp::*;
use aseprite_loader::binary as b;
use b::chunk::Chunk;
use b::chunks as ch;

pub type NomErr<'a> = nom::Err<b::errors::ParseError<'a>>;

pub fn err(e: &NomErr<'_>) -> RErr {
    use b::errors::ParseError as P;
    use b::palette::PaletteError as L;
    match e {
        nom::Err::Incomplete(_) => RErr::Eof,
        nom::Err::Error(e) | nom::Err::Failure(e) => match e {
            P::InvalidFrameSize(n) => RErr::FrameSize(*n),
            P::InvalidChunkSize(n) => RErr::ChunkSize(*n),
            P::Utf8Error(_) => RErr::Utf8,
            P::PaletteError(L::Missing) => RErr::PalMissing,
            P::PaletteError(L::Empty) => RErr::PalEmpty,
            P::PaletteError(L::FirstColorIndexOutOfBounds) => RErr::PalFirst,
            P::PaletteError(L::LastColorIndexOutOfBounds) => RErr::PalLast,
            P::PaletteError(L::FirstColorIndexGreaterThanLastColorIndex) => RErr::PalOrder,
            P::PaletteError(L::IndexOutOfBounds) => RErr::PalOob,
            P::InvalidFrameRange(a, b) => RErr::TagRange(*a, *b),
            P::LayerIndexOutOfBounds => RErr::LayerOob,
            P::InvalidPropertyType(n) => RErr::PropType(*n),
            _ => RErr::Eof,
        },
    }
}

pub fn depth(d: b::color_depth::ColorDepth) -> Depth {
    use b::color_depth::ColorDepth as D;
    match d {
        D::Rgba => Depth::Rgba,
        D::Grayscale => Depth::Gray,
        D::Indexed => Depth::Indexed,
        D::Unknown(n) => Depth::Unknown(n),
    }
}
#[allow(deprecated)]
pub fn header(h: &b::header::Header) -> RHeader {
    RHeader {
        file_size: h.file_size,
        frames: h.frames,
        width: h.width,
        height: h.height,
        depth: depth(h.color_depth),
        flags: h.flags,
        speed: h.speed,
        transparent: h.transparent_index,
        colors: h.color_count,
        pw: h.pixel_width,
        ph: h.pixel_height,
        gx: h.grid_x,
        gy: h.grid_y,
        gw: h.grid_width,
        gh: h.grid_height,
    }
}
pub fn ltype(t: ch::layer::LayerType) -> LType {
    use ch::layer::LayerType as T;
    match t {
        T::Normal => LType::Normal,
        T::Group => LType::Group,
        T::Tilemap => LType::Tilemap,
        T::Unknown(n) => LType::Unknown(n),
    }
}
pub fn blend(m: b::blend_mode::BlendMode) -> Blend {
    use b::blend_mode::BlendMode as M;
    Blend::Known(match m {
        M::Normal => 0,
        M::Multiply => 1,
        M::Screen => 2,
        M::Overlay => 3,
        M::Darken => 4,
        M::Lighten => 5,
        M::ColorDodge => 6,
        M::ColorBurn => 7,
        M::HardLight => 8,
        M::SoftLight => 9,
        M::Difference => 10,
        M::Exclusion => 11,
        M::Hue => 12,
        M::Saturation => 13,
        M::Color => 14,
        M::Luminosity => 15,
        M::Addition => 16,
        M::Subtract => 17,
        M::Divide => 18,
        M::Unknown(n) => return Blend::Unknown(n),
    })
}
pub fn layer_flags(f: &ch::layer::LayerFlags) -> u16 {
    use ch::layer::LayerFlags as F;
    let mut v = 0;
    for (bit, named) in [
        (0x01, F::VISIBLE),
        (0x02, F::EDITABLE),
        (0x04, F::LOCK_MOVEMENT),
        (0x08, F::BACKGROUND),
        (0x10, F::PREFER_LINKED_CELS),
        (0x20, F::COLLAPSED),
        (0x40, F::REFERENCE),
    ] {
        if f.contains(named) {
            v |= bit;
        }
    }
    v
}
pub fn layer<'a>(l: &ch::layer::LayerChunk<'a>) -> RLayer<'a> {
    RLayer {
        flags: layer_flags(&l.flags),
        ty: ltype(l.layer_type),
        level: l.child_level,
        blend: blend(l.blend_mode),
        opacity: l.opacity,
        name: l.name.as_bytes(),
        tileset: l.tileset_index,
        user: l.user_data.as_ref().map(user),
    }
}
pub fn cel<'a>(c: &ch::cel::CelChunk<'a>) -> RCel<'a> {
    use ch::cel::CelContent as C;
    RCel {
        layer: c.layer_index,
        x: c.x,
        y: c.y,
        opacity: c.opacity,
        z: c.z_index,
        content: match &c.content {
            C::Image(i) => RContent::Image { w: i.width, h: i.height, data: i.data, compressed: i.compressed },
            C::LinkedCel { frame_position } => RContent::Link(*frame_position),
            C::CompressedTilemap {
                width,
                height,
                bits_per_tile,
                bitmask_tile_id,
                bitmask_x_flip,
                bitmask_y_flip,
                bitmask_diagonal_flip,
                data,
            } => RContent::Tilemap {
                w: *width,
                h: *height,
                bits: *bits_per_tile,
                id: *bitmask_tile_id,
                x: *bitmask_x_flip,
                y: *bitmask_y_flip,
                d: *bitmask_diagonal_flip,
                data,
            },
            C::Unknown { cel_type, data } => RContent::Unknown { ty: *cel_type, data },
        },
        user: c.user_data.as_ref().map(user),
    }
}
fn color(c: &b::scalars::Color) -> [u8; 4] {
    [c.red, c.green, c.blue, c.alpha]
}
pub fn user<'a>(u: &ch::user_data::UserDataChunk<'a>) -> RUser<'a> {
    RUser {
        text: u.text.map(|t| t.as_bytes()),
        color: u.color.as_ref().map(color),
        props: u.properties_maps.as_ref().map(|p| match p {
            Ok((_, m)) => Ok(m.iter().map(map).collect()),
            Err(e) => Err(err(e)),
        }),
        depth: 0,
    }
}
pub fn map<'a>(m: &ch::user_data::PropertiesMap<'a>) -> RMap<'a> {
    RMap {
        id: m.extension_entry_id,
        props: m.properties.iter().map(|p| (p.name.as_bytes(), value(&p.value))).collect(),
    }
}
fn fix(f: &b::scalars::Fixed) -> u128 {
    // Stored as a little-endian 32-bit 16.16 number.
    (f.0 as u128) << 16 | f.1 as u128
}
fn two(a: i32, b: i32) -> u128 {
    a as u32 as u128 | (b as u32 as u128) << 32
}
pub fn value<'a>(v: &ch::user_data::Value<'a>) -> RValue<'a> {
    use ch::user_data::Value as V;
    use RValue::Scalar as S;
    match v {
        V::Bool(b) => S(1, *b as u128),
        V::Int8(x) => S(2, *x as u8 as u128),
        V::Uint8(x) => S(3, *x as u128),
        V::Int16(x) => S(4, *x as u16 as u128),
        V::Uint16(x) => S(5, *x as u128),
        V::Int32(x) => S(6, *x as u32 as u128),
        V::Uint32(x) => S(7, *x as u128),
        V::Int64(x) => S(8, *x as u64 as u128),
        V::Uint64(x) => S(9, *x as u128),
        V::Fixed(x) => S(10, fix(x)),
        V::Float(x) => S(11, x.to_bits() as u128),
        V::Double(x) => S(12, x.to_bits() as u128),
        V::String(s) => RValue::Str(s.as_bytes()),
        V::Point(p) => S(14, two(p.x, p.y)),
        V::Size(p) => S(15, two(p.width, p.height)),
        V::Rect(r) => S(16, rect(r)),
        V::Vector(v) => RValue::Vector(vector(v)),
        V::MixedVector(v) => RValue::Vector(RVec { elem: 0, vals: v.iter().map(value).collect() }),
        V::PropertiesMap(m) => RValue::Map(map(m)),
        V::Uuid(u) => S(19, *u),
    }
}
fn rect(r: &b::scalars::Rect) -> u128 {
    two(r.point.x, r.point.y) | two(r.size.width, r.size.height) << 64
}
pub fn vector<'a>(v: &ch::user_data::Vector<'a>) -> RVec<'a> {
    use ch::user_data::Vector as V;
    fn sc<'a, T>(ty: u16, v: &[T], f: impl Fn(&T) -> u128) -> RVec<'a> {
        RVec { elem: ty, vals: v.iter().map(|x| RValue::Scalar(ty, f(x))).collect() }
    }
    match v {
        V::Mixed(v) => RVec { elem: 0, vals: v.iter().map(value).collect() },
        V::Bool(v) => sc(1, v, |x| *x as u128),
        V::Int8(v) => sc(2, v, |x| *x as u8 as u128),
        V::Uint8(v) => sc(3, v, |x| *x as u128),
        V::Int16(v) => sc(4, v, |x| *x as u16 as u128),
        V::Uint16(v) => sc(5, v, |x| *x as u128),
        V::Int32(v) => sc(6, v, |x| *x as u32 as u128),
        V::Uint32(v) => sc(7, v, |x| *x as u128),
        V::Int64(v) => sc(8, v, |x| *x as u64 as u128),
        V::Uint64(v) => sc(9, v, |x| *x as u128),
        V::Fixed(v) => sc(10, v, fix),
        V::Float(v) => sc(11, v, |x| x.to_bits() as u128),
        V::Double(v) => sc(12, v, |x| x.to_bits() as u128),
        V::String(v) => RVec { elem: 13, vals: v.iter().map(|s| RValue::Str(s.as_bytes())).collect() },
        V::Point(v) => sc(14, v, |p| two(p.x, p.y)),
        V::Size(v) => sc(15, v, |p| two(p.width, p.height)),
        V::Rect(v) => sc(16, v, rect),
        V::Vector(v) => RVec { elem: 17, vals: v.iter().map(|x| RValue::Vector(vector(x))).collect() },
        V::PropertiesMap(v) => RVec { elem: 18, vals: v.iter().map(|x| RValue::Map(map(x))).collect() },
        V::Uuid(v) => sc(19, v, |x| *x),
    }
}
pub fn dir(d: ch::tags::AnimationDirection) -> (bool, u8) {
    use ch::tags::AnimationDirection as D;
    match d {
        D::Forward => (true, 0),
        D::Reverse => (true, 1),
        D::PingPong => (true, 2),
        D::PingPongReverse => (true, 3),
        D::Unknown(n) => (false, n),
    }
}
#[allow(deprecated)]
pub fn tag<'a>(t: &ch::tags::Tag<'a>) -> RTag<'a> {
    RTag {
        from: *t.frames.start(),
        to: *t.frames.end(),
        dir: dir(t.animation_direction),
        repeat: t.animation_repeat,
        color: t.color,
        name: t.name.as_bytes(),
        user: t.user_data.as_ref().map(user),
    }
}
pub fn slice<'a>(s: &ch::slice::SliceChunk<'a>) -> RSlice<'a> {
    use ch::slice::SliceFlags as F;
    RSlice {
        name: s.name.as_bytes(),
        flags: s.flags.contains(F::NINE_PATCH) as u32 | (s.flags.contains(F::PIVOT) as u32) << 1,
        keys: s
            .slice_keys
            .iter()
            .map(|k| RKey {
                frame: k.frame_number,
                x: k.x,
                y: k.y,
                w: k.width,
                h: k.height,
                nine: k.nine_patch.map(|n| (n.x, n.y, n.width, n.height)),
                pivot: k.pivot.map(|p| (p.x, p.y)),
            })
            .collect(),
        user: s.user_data.as_ref().map(user),
    }
}
fn fixed(f: &b::scalars::Fixed) -> (u16, u16) {
    (f.0, f.1)
}
fn old(p: &ch::old_palette::OldPaletteChunk) -> ROld {
    p.packets
        .iter()
        .map(|p| (p.entries_to_skip, p.colors.iter().map(|c| [c.red, c.green, c.blue]).collect()))
        .collect()
}
fn tileset_flags(f: &ch::tileset::TilesetFlags) -> u32 {
    use ch::tileset::TilesetFlags as F;
    let mut v = 0;
    for (bit, named) in
        [(1, F::EXTERNAL_FILE), (2, F::TILES), (4, F::TILE_0_EMPTY), (8, F::XFLIP), (16, F::YFLIP), (32, F::DFLIP)]
    {
        if f.contains(named) {
            v |= bit;
        }
    }
    v
}
pub fn chunk<'a>(c: &Chunk<'a>) -> RChunk<'a> {
    match c {
        Chunk::Palette0004(p) => RChunk::Old04(old(p)),
        Chunk::Palette0011(p) => RChunk::Old11(old(p)),
        Chunk::Layer(l) => RChunk::Layer(layer(l)),
        Chunk::Cel(c) => RChunk::Cel(cel(c)),
        Chunk::CelExtra(e) => RChunk::CelExtra {
            flags: e.flags.contains(ch::cel_extra::CelExtraFlags::PRECISE_BOUNDS_ARE_SET) as u32,
            x: fixed(&e.precise_x_position),
            y: fixed(&e.precise_y_position),
            w: fixed(&e.width_of_the_cel),
            h: fixed(&e.height_of_the_cel),
            future: e.future,
        },
        Chunk::ColorProfile(p) => {
            use ch::color_profile::ColorProfile as P;
            RChunk::Profile {
                gamma: p.fixed_gamma.as_ref().map(fixed),
                profile: match &p.profile {
                    P::NoColorProfile => RProfile::None,
                    P::Srgb => RProfile::Srgb,
                    P::EmbeddedICC(d) => RProfile::Icc(d),
                    P::Unknown(n) => RProfile::Unknown(*n),
                },
            }
        }
        Chunk::ExternalFiles(e) => {
            use ch::external_files::ExternalFileType as T;
            RChunk::External(
                e.files
                    .iter()
                    .map(|f| {
                        let t = match f.file_type {
                            T::ExternalPalette => (true, 0),
                            T::ExternalTileset => (true, 1),
                            T::ExtensionNameForProperties => (true, 2),
                            T::Unknown(n) => (false, n),
                        };
                        (f.entry_id, t, f.file_name.as_bytes())
                    })
                    .collect(),
            )
        }
        Chunk::Mask(m) => {
            RChunk::Mask { x: m.x, y: m.y, w: m.width, h: m.height, name: m.name.as_bytes(), data: m.data }
        }
        Chunk::Path => RChunk::Path,
        Chunk::Tags(t) => RChunk::Tags(t.tags.iter().map(tag).collect()),
        Chunk::Palette(p) => RChunk::Palette(RPalette {
            first: *p.indices.start(),
            last: *p.indices.end(),
            entries: p.entries.iter().map(|e| (color(&e.color), e.name.map(|n| n.as_bytes()))).collect(),
        }),
        Chunk::UserData(u) => RChunk::User(user(u)),
        Chunk::Slice(s) => RChunk::Slice(slice(s)),
        Chunk::Tileset(t) => RChunk::Tileset(RTileset {
            id: t.id,
            flags: tileset_flags(&t.flags),
            tiles: t.number_of_tiles,
            w: t.width,
            h: t.height,
            base: t.base_index,
            name: t.name.as_bytes(),
            ext: t.external_file.map(|e| (e.external_file_id, e.tileset_id)),
            data: t.tiles.as_ref().map(|d| d.data),
        }),
        Chunk::Unsupported(n) => RChunk::Unsupported(*n),
    }
}
pub fn raw<'a>(r: &b::raw_file::RawFile<'a>) -> RRaw<'a> {
    RRaw {
        header: header(&r.header),
        frames: r
            .frames
            .iter()
            .map(frame)
            .collect(),
    }
}
pub fn frame<'a>(f: &b::raw_frame::RawFrame<'a>) -> RFrame<'a> {
    RFrame { duration: f.duration, chunks: f.chunks.iter().map(chunk).collect() }
}
pub fn palette(p: &b::palette::Palette) -> Vec<[u8; 4]> {
    p.colors.iter().map(color).collect()
}
pub fn file<'a>(f: &b::file::File<'a>) -> RFile<'a> {
    RFile {
        header: header(&f.header),
        palette: f.palette.as_ref().map(palette),
        layers: f.layers.iter().map(layer).collect(),
        frames: f
            .frames
            .iter()
            .map(|f| (f.duration, f.cels.iter().map(|c| c.as_ref().map(cel)).collect()))
            .collect(),
        tags: f.tags.iter().map(tag).collect(),
        slices: f.slices.iter().map(slice).collect(),
        user: f.user_data.as_ref().map(user),
    }
}

// ---- views into the input -------------------------------------------------

pub type Span<'a> = (&'static str, &'a [u8]);
fn user_spans<'a>(u: &RUser<'a>, o: &mut Vec<Span<'a>>) {
    if let Some(t) = u.text {
        o.push(("user data text", t));
    }
    if u.depth > GUARANTEED_DEPTH {
        return;
    }
    if let Some(Ok(p)) = &u.props {
        p.iter().for_each(|m| map_spans(m, o));
    }
}
fn map_spans<'a>(m: &RMap<'a>, o: &mut Vec<Span<'a>>) {
    for (n, v) in &m.props {
        o.push(("property name", n));
        value_spans(v, o);
    }
}
fn value_spans<'a>(v: &RValue<'a>, o: &mut Vec<Span<'a>>) {
    match v {
        RValue::Str(s) => o.push(("property string", s)),
        RValue::Vector(v) => v.vals.iter().for_each(|v| value_spans(v, o)),
        RValue::Map(m) => map_spans(m, o),
        _ => {}
    }
}
fn layer_spans<'a>(l: &RLayer<'a>, o: &mut Vec<Span<'a>>) {
    o.push(("layer name", l.name));
    l.user.iter().for_each(|u| user_spans(u, o));
}
fn cel_spans<'a>(c: &RCel<'a>, o: &mut Vec<Span<'a>>) {
    match c.content {
        RContent::Image { data, .. } => o.push(("cel pixels", data)),
        RContent::Tilemap { data, .. } => o.push(("tilemap data", data)),
        RContent::Unknown { data, .. } => o.push(("unknown cel data", data)),
        RContent::Link(_) => {}
    }
    c.user.iter().for_each(|u| user_spans(u, o));
}
fn tag_spans<'a>(t: &RTag<'a>, o: &mut Vec<Span<'a>>) {
    o.push(("tag name", t.name));
    t.user.iter().for_each(|u| user_spans(u, o));
}
fn slice_spans<'a>(s: &RSlice<'a>, o: &mut Vec<Span<'a>>) {
    o.push(("slice name", s.name));
    s.user.iter().for_each(|u| user_spans(u, o));
}
pub fn raw_spans<'a>(r: &RRaw<'a>) -> Vec<Span<'a>> {
    let mut o = vec![];
    for c in r.frames.iter().flat_map(|f| &f.chunks) {
        match c {
            RChunk::Layer(l) => layer_spans(l, &mut o),
            RChunk::Cel(c) => cel_spans(c, &mut o),
            RChunk::CelExtra { future, .. } => o.push(("cel extra", future)),
            RChunk::Profile { profile: RProfile::Icc(d), .. } => o.push(("icc profile", d)),
            RChunk::External(v) => v.iter().for_each(|e| o.push(("external file name", e.2))),
            RChunk::Mask { name, data, .. } => {
                o.push(("mask name", name));
                o.push(("mask data", data));
            }
            RChunk::Tags(t) => t.iter().for_each(|t| tag_spans(t, &mut o)),
            RChunk::Palette(p) => {
                p.entries.iter().for_each(|e| e.1.iter().for_each(|n| o.push(("colour name", n))))
            }
            RChunk::User(u) => user_spans(u, &mut o),
            RChunk::Slice(s) => slice_spans(s, &mut o),
            RChunk::Tileset(t) => {
                o.push(("tileset name", t.name));
                t.data.iter().for_each(|d| o.push(("tileset pixels", d)));
            }
            _ => {}
        }
    }
    o
}
pub fn file_spans<'a>(f: &RFile<'a>) -> Vec<Span<'a>> {
    let mut o = vec![];
    f.layers.iter().for_each(|l| layer_spans(l, &mut o));
    f.frames.iter().for_each(|f| f.1.iter().flatten().for_each(|c| cel_spans(c, &mut o)));
    f.tags.iter().for_each(|t| tag_spans(t, &mut o));
    f.slices.iter().for_each(|s| slice_spans(s, &mut o));
    f.user.iter().for_each(|u| user_spans(u, &mut o));
    o
}
pub fn sprite_spans<'a>(s: &Sprite<'a>) -> Vec<Span<'a>> {
    s.images.iter().map(|i| ("image", i.1 .2)).collect()
}
