//! Drivers of the compositing properties.
use super::image::bpp;
use super::parse::{late, LATE, LATE_AT};
use super::tier;
use crate::enc::*;
use crate::explore::*;
use crate::gen::*;
use crate::refblend::{self, mul_un8, Px};
use crate::refcomp::Sel;
use crate::{cmp, ensure, Tier};
use aseprite_loader::loader::LayerSelection;

const N: usize = 256;
/// Alphabet of alpha and opacity values.
const ALPHAS: [u8; 7] = [255, 0, 1, 127, 128, 200, 254];

/// Blend a 256x256 canvas of sources onto a canvas of backdrops.  `op` gives
/// the opacity of every row; if it is not uniform every row is a layer of its own.
fn canvas(
    c: &mut Ctx,
    mode: u8,
    op: &dyn Fn(usize) -> u8,
    back: &dyn Fn(usize, usize) -> Px,
    src: &dyn Fn(usize, usize) -> Px,
    judge: &dyn Fn(Px, Px, u8, Px) -> Result<(), String>,
) -> Res {
    let uniform = (0..N).all(|y| op(y) == op(0));
    let mut px = Vec::with_capacity(N * N * 4);
    let mut start = Vec::with_capacity(N * N * 4);
    for y in 0..N {
        for x in 0..N {
            px.raw(&src(x, y));
            start.raw(&back(x, y));
        }
    }
    let blend = mode as u16;
    let mut ch = vec![];
    if uniform {
        ch.push(layer(&Layer { blend, opacity: op(0), ..Default::default() }));
        ch.push(cel(&image_cel(0, 0, 0, N as u16, N as u16, &px, false)));
    } else {
        for y in 0..N {
            ch.push(layer(&Layer { blend, opacity: op(y), ..Default::default() }));
        }
        for y in 0..N {
            let row = &px[y * N * 4..(y + 1) * N * 4];
            ch.push(cel(&image_cel(y as u16, 0, y as i16, N as u16, 1, row, false)));
        }
    }
    let b = file(&Header { width: N as u16, height: N as u16, ..Default::default() }, &[Frame::new(ch)]);
    c.input(&b);
    c.state ^= hash(&start).rotate_left(7);
    let l = cmp::must_load(&b)?;
    let mut buf = start.clone();
    if let Err(e) = l.af.render_frame(0, &mut buf, &LayerSelection::All) {
        crate::bad!("{}: rendering failed with {e:?}", refblend::NAMES[mode as usize]);
    }
    for y in 0..N {
        for x in 0..N {
            let i = (y * N + x) * 4;
            let g: Px = buf[i..i + 4].try_into().unwrap();
            let (b, s, o) = (back(x, y), src(x, y), op(y));
            if let Err(m) = judge(b, s, o, g) {
                crate::bad!(
                    "{}: source {s:?} at opacity {o} over {b:?} gives {g:?}, {m}",
                    refblend::NAMES[mode as usize]
                );
            }
        }
    }
    c.count("pixels blended", (N * N) as u64);
    Ok(hash(&buf))
}
/// The result must be the one of the reference blender.
fn exact(mode: u8) -> impl Fn(Px, Px, u8, Px) -> Result<(), String> {
    move |b, s, o, g| {
        if refblend::admissible(mode, b, s, o, g) {
            Ok(())
        } else {
            Err(format!("expected {:?}", refblend::blend(mode, b, s, o)))
        }
    }
}
/// Three different bijections of the square, one per channel.
fn pairs(perm: usize, x: usize, y: usize) -> ([u8; 3], [u8; 3]) {
    let (x, y) = (x as u8, y as u8);
    match perm {
        0 => ([x, y, 255 - x], [y, 255 - x, 255 - y]),
        1 => ([y, 255 - x, x], [255 - x, 255 - y, y]),
        2 => ([255 - y, x, y], [x, y, x.wrapping_add(y)]),
        _ => ([x, x, x], [y, y, y]),
    }
}
fn px(c: [u8; 3], a: u8) -> Px {
    [c[0], c[1], c[2], a]
}

// ---------------------------------------------------------------- C13

pub fn c13(t: Tier) -> Vec<Driver> {
    let wide = [255u8, 0, 1, 2, 3, 15, 63, 64, 85, 126, 127, 128, 129, 170, 191, 200, 240, 252, 253, 254];
    let alphas: Vec<u8> = if t == Tier::Quick { ALPHAS.to_vec() } else { wide.to_vec() };
    let lattice: Vec<u8> = if t == Tier::Quick {
        vec![0, 1, 127, 128, 200, 255]
    } else {
        vec![0, 1, 2, 63, 64, 100, 127, 128, 129, 191, 254, 255]
    };
    let l2 = lattice.clone();
    let l3 = lattice.clone();
    let a2 = alphas.clone();
    let mut v = vec![
        Driver::new("factors", 0, "every combination of depth, palette, compression, link, flags, group, mode, opacities, z-index, place and size of a cel", |c| {
            let b = factors(c);
            super::image::full(c, &b)
        }),
        Driver::new("context", tier(t, 3, 4), "three (thorough: four) deviations in what surrounds the blended cel: flags, depth, opacities, nesting, origin, links, canvas", |c| context(c, &refblend::SEPARABLE)),
        Driver::new(
            "opaque",
            0,
            "all 256x256 pairs of backdrop and source value in every channel, in four arrangements over the channels, opaque",
            |c| {
                let mode = c.all_of("mode", &refblend::SEPARABLE);
                let perm = c.all("arrangement", 4);
                canvas(c, mode, &|_| 255, &|x, y| px(pairs(perm, x, y).0, 255), &|x, y| px(pairs(perm, x, y).1, 255), &exact(mode))
            },
        ),
        Driver::new("source-alphas", 0, "all 256x256 pairs of backdrop and source value x every source alpha, over an opaque (thorough: also translucent) backdrop", move |c| {
            let mode = c.all_of("mode", &refblend::SEPARABLE);
            let ba = c.all_of("backdrop alpha", if t == Tier::Quick { &[255u8] } else { &[255, 1, 2, 64, 127, 128, 129, 200, 253, 254] });
            let sa = c.all("source alpha", 256) as u8;
            let perm = sa as usize % 3;
            canvas(c, mode, &|_| 255, &|x, y| px(pairs(perm, x, y).0, ba), &|x, y| px(pairs(perm, x, y).1, sa), &exact(mode))
        }),
        Driver::new(
            "alphas",
            0,
            "all 256x256 pairs of backdrop and source value, backdrop alpha x source alpha x opacity from an alphabet",
            move |c| {
                let mode = c.all_of("mode", &refblend::SEPARABLE);
                let ba = c.all_of("backdrop alpha", &alphas);
                let sa = c.all_of("source alpha", &alphas);
                let op = c.all_of("opacity", &alphas);
                let perm = (ba as usize + sa as usize * 3 + op as usize) % 3;
                canvas(c, mode, &|_| op, &|x, y| px(pairs(perm, x, y).0, ba), &|x, y| px(pairs(perm, x, y).1, sa), &exact(mode))
            },
        ),
        Driver::new("alpha-pairs", 0, "all 256x256 pairs of backdrop and source alpha, values and opacity from an alphabet", move |c| {
            let mode = c.all_of("mode", &refblend::SEPARABLE);
            let b = c.all_of("backdrop", &lattice);
            let s = c.all_of("source", &lattice);
            let op = c.all_of("opacity", &[255u8, 1, 128, 254]);
            canvas(
                c,
                mode,
                &|_| op,
                &|x, _| px([b, s, 255 - b], x as u8),
                &|_, y| px([s, b, b], y as u8),
                &exact(mode),
            )
        }),
        Driver::new("opacity-source", 0, "all 256x256 pairs of opacity and source value", move |c| {
            let mode = c.all_of("mode", &refblend::SEPARABLE);
            let b = c.all_of("backdrop", &l2);
            let (ba, sa) = c.all_of("alphas", &[(255u8, 255u8), (100, 200), (1, 128)]);
            canvas(
                c,
                mode,
                &|y| y as u8,
                &|_, _| px([b, 255 - b, b / 2], ba),
                &|x, _| px([x as u8, x as u8, 255 - x as u8], sa),
                &exact(mode),
            )
        }),
        Driver::new("opacity-alpha", 0, "all 256x256 pairs of opacity and backdrop or source alpha", move |c| {
            let mode = c.all_of("mode", &refblend::SEPARABLE);
            let b = c.all_of("backdrop", &l3);
            let s = c.all_of("source", &l3);
            let which = c.all("swept alpha", 2);
            canvas(
                c,
                mode,
                &|y| y as u8,
                &|x, _| px([b, s, 255 - b], if which == 0 { x as u8 } else { 190 }),
                &|x, _| px([s, b, b], if which == 0 { 190 } else { x as u8 }),
                &exact(mode),
            )
        }),
    ];
    if t == Tier::Thorough {
        v.push(Driver::new(
            "all-alphas",
            0,
            "every backdrop alpha x source alpha at full opacity, with all 256x256 value pairs, for normal and one mode of every kind",
            move |c| {
                let mode = c.all_of("mode", &[0u8, 6, 9, 11, 17]);
                let ba = c.all("backdrop alpha", 256) as u8;
                let sa = c.all_of("source alpha", &a2);
                let perm = (ba as usize + sa as usize) % 3;
                canvas(c, mode, &|_| 255, &|x, y| px(pairs(perm, x, y).0, ba), &|x, y| px(pairs(perm, x, y).1, sa), &exact(mode))
            },
        ));
    }
    v
}

// ---------------------------------------------------------------- C14

pub fn c14(t: Tier) -> Vec<Driver> {
    let k: Vec<u8> = if t == Tier::Quick {
        vec![0, 1, 50, 100, 127, 128, 200, 255]
    } else {
        vec![0, 1, 2, 17, 34, 50, 64, 85, 100, 127, 128, 153, 187, 200, 254, 255]
    };
    let fixed: Vec<u8> = if t == Tier::Quick { vec![0, 100, 255] } else { vec![0, 1, 77, 128, 254, 255] };
    vec![
        Driver::new("context", tier(t, 3, 4), "three (thorough: four) deviations in what surrounds the blended cel: flags, depth, opacities, nesting, origin, links, canvas", |c| context(c, &refblend::HSL)),
        Driver::new("lattice", 0, "all pairs of colours whose channels come from an alphabet", move |c| {
            let mode = c.all_of("mode", &refblend::HSL);
            let (ba, sa, op) = c.all_of("alphas", &[(255u8, 255u8, 255u8), (128, 255, 255), (255, 77, 255), (200, 180, 99)]);
            let n = k.len();
            let total = n.pow(6);
            let part = c.all("part", total.div_ceil(N * N));
            let at = |x: usize, y: usize| -> [u8; 6] {
                let mut i = (part * N * N + y * N + x).min(total - 1);
                [0; 6].map(|_| {
                    let v = k[i % n];
                    i /= n;
                    v
                })
            };
            let b = |x: usize, y: usize| {
                let v = at(x, y);
                px([v[0], v[1], v[2]], ba)
            };
            let s = |x: usize, y: usize| {
                let v = at(x, y);
                px([v[3], v[4], v[5]], sa)
            };
            canvas(c, mode, &|_| op, &b, &s, &exact(mode))
        }),
        Driver::new("planes", 0, "every pair of the six channels over all 256x256 values, the other four from an alphabet", move |c| {
            let mode = c.all_of("mode", &refblend::HSL);
            let i = c.all("first channel", 5);
            let j = i + 1 + c.all("second channel", 5 - i);
            let mut base = [0u8; 6];
            for (q, v) in base.iter_mut().enumerate() {
                if q != i && q != j {
                    *v = c.all_of("other channel", &fixed);
                }
            }
            let at = move |x: usize, y: usize| {
                let mut v = base;
                v[i] = x as u8;
                v[j] = y as u8;
                v
            };
            canvas(
                c,
                mode,
                &|_| 255,
                &|x, y| px([at(x, y)[0], at(x, y)[1], at(x, y)[2]], 255),
                &|x, y| px([at(x, y)[3], at(x, y)[4], at(x, y)[5]], 255),
                &exact(mode),
            )
        }),
        Driver::new("ties", 0, "backdrop or source with two equal channels (all 256x256 of them), against a palette of colours", |c| {
            let mode = c.all_of("mode", &refblend::HSL);
            let which = c.all("equal channels", 3);
            let side = c.all("side", 2);
            let other = c.all_of(
                "other colour",
                &[[255u8, 0, 0], [0, 255, 0], [0, 0, 255], [10, 200, 90], [90, 10, 200], [200, 90, 10], [128; 3], [0; 3], [255; 3], [3, 2, 1]],
            );
            let tie = move |x: usize, y: usize| {
                let (x, y) = (x as u8, y as u8);
                [[x, x, y], [x, y, x], [y, x, x]][which]
            };
            canvas(
                c,
                mode,
                &|_| 255,
                &|x, y| px(if side == 0 { tie(x, y) } else { other }, 255),
                &|x, y| px(if side == 0 { other } else { tie(x, y) }, 255),
                &exact(mode),
            )
        }),
        Driver::new("grays", 0, "all pairs of grays", |c| {
            let mode = c.all_of("mode", &refblend::HSL);
            let (ba, sa, op) = c.all_of("alphas", &[(255u8, 255u8, 255u8), (128, 255, 255), (255, 77, 255), (200, 180, 99)]);
            canvas(c, mode, &|_| op, &|x, _| px([x as u8; 3], ba), &|_, y| px([y as u8; 3], sa), &exact(mode))
        }),
        Driver::new("alpha-pairs", 0, "all 256x256 pairs of backdrop and source alpha, or of opacity and backdrop alpha", |c| {
            let mode = c.all_of("mode", &refblend::HSL);
            let cols = [[255u8, 0, 0], [12, 200, 99], [0, 0, 0], [255, 255, 255], [77, 77, 77], [1, 2, 254]];
            let b = c.all_of("backdrop", &cols);
            let s = c.all_of("source", &cols);
            match c.all("swept", 5) {
                4 => canvas(c, mode, &|y| y as u8, &|x, _| px(b, x as u8), &|_, _| px(s, 201), &exact(mode)),
                k => {
                    let op = [255u8, 1, 128, 254][k];
                    canvas(c, mode, &|_| op, &|x, _| px(b, x as u8), &|_, y| px(s, y as u8), &exact(mode))
                }
            }
        }),
    ]
}

// ---------------------------------------------------------------- C15

/// Alpha, unchanged-backdrop and transparent-backdrop rules, stated directly.
fn alpha_rule(b: Px, s: Px, op: u8, g: Px) -> Result<(), String> {
    let sa = mul_un8(s[3] as i32, op as i32);
    let ba = b[3] as i32;
    if ba == 0 {
        let e = [s[0], s[1], s[2], sa as u8];
        if g != e {
            return Err(format!("over a transparent backdrop the source {e:?} is expected"));
        }
        return Ok(());
    }
    if sa == 0 && g != b {
        return Err("a source that contributes nothing changes the backdrop".into());
    }
    let ra = sa + ba - mul_un8(ba, sa);
    if g[3] as i32 != ra {
        return Err(format!("expected alpha {ra}"));
    }
    Ok(())
}
pub fn c15(t: Tier) -> Vec<Driver> {
    let colours: Vec<([u8; 3], [u8; 3])> = {
        let k: &[[u8; 3]] = if t == Tier::Quick {
            &[[200, 100, 50], [0, 0, 0], [255, 255, 255]]
        } else {
            &[[200, 100, 50], [0, 0, 0], [255, 255, 255], [1, 254, 128], [127, 127, 127], [0, 255, 0], [255, 0, 1]]
        };
        k.iter().flat_map(|a| k.iter().map(move |b| (*a, *b))).collect()
    };
    let col2 = colours.clone();
    let ops: Vec<u8> = if t == Tier::Quick { ALPHAS.to_vec() } else { (0..=255).collect() };
    let modes: Vec<u8> = (0..19).collect();
    let (m1, m2, m3) = (modes.clone(), modes.clone(), modes);
    vec![
        Driver::new("factors", 0, "every combination of depth, palette, compression, link, flags, group, mode, opacities, z-index, place and size of a cel", |c| {
            let b = factors(c);
            super::image::full(c, &b)
        }),
        Driver::new("backgrounds", 0, "background layers and others: every depth, transparent index, alpha, palette kind and way of storing a cel", |c| {
            let b = backgrounds(c);
            super::image::full(c, &b)
        }),
        Driver::new("context", tier(t, 3, 4), "three (thorough: four) deviations in what surrounds the blended cel: flags, depth, opacities, nesting, origin, links, canvas", |c| context(c, &std::array::from_fn::<u8, 19, _>(|i| i as u8))),
        Driver::new("alpha", 0, "all 256x256 pairs of backdrop and source alpha in every mode", move |c| {
            let mode = c.all_of("mode", &m1);
            let (b, s) = c.all_of("colours", &colours);
            let op = c.all_of("opacity", &ops);
            canvas(c, mode, &|_| op, &|x, _| px(b, x as u8), &|_, y| px(s, y as u8), &alpha_rule)
        }),
        Driver::new("nothing", 0, "all backdrop values: zero opacity, transparent source, transparent backdrop", move |c| {
            let mode = c.all_of("mode", &m2);
            let ba = c.all_of("backdrop alpha", &[255u8, 0, 1, 100, 254]);
            let (sa, op) = c.all_of("source", &[(0u8, 255u8), (255, 0), (0, 0), (1, 1), (1, 127), (255, 255), (128, 255)]);
            let perm = c.all("arrangement", 3);
            canvas(c, mode, &|_| op, &|x, y| px(pairs(perm, x, y).0, ba), &|x, y| px(pairs(perm, x, y).1, sa), &alpha_rule)
        }),
        Driver::new("effective", 0, "all 256x256 pairs of layer and cel opacity in every mode, full comparison", move |c| {
            let mode = c.all_of("mode", &m3);
            let lo = c.all("layer opacity", 256) as u8;
            // 16 pixels: backdrop and source of various alphas.
            let a = [255u8, 0, 1, 128];
            let mut start = vec![];
            let mut px = vec![];
            for i in 0..16u8 {
                start.raw(&[10 * i, 255 - i, 77, a[i as usize % 4]]);
                px.raw(&[255 - 3 * i, 5 * i, 180, [255u8, 0, 200, 1][i as usize / 4]]);
            }
            let mut fs = vec![];
            for co in 0..=255u8 {
                let mut ch = vec![];
                if co == 0 {
                    ch.push(layer(&Layer { blend: mode as u16, opacity: lo, ..Default::default() }));
                }
                ch.push(cel(&Cel { opacity: co, ..image_cel(0, 0, 0, 4, 4, &px, false) }));
                fs.push(Frame::new(ch));
            }
            let b = file(&Header { width: 4, height: 4, ..Default::default() }, &fs);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let mut h = 0u64;
            for co in 0..256 {
                h = h.rotate_left(3) ^ cmp::render(&l, co, &Sel::All, &start)?;
            }
            c.count("opacity pairs", 256);
            Ok(h)
        }),
        Driver::new("flag", 0, "layer opacity is valid only if the header says so: every header flag bit, layer and cel opacity", move |c| {
            let flags = match c.all("flags", 35) {
                32 => 0,
                33 => !0,
                34 => !1,
                i => 1u32 << i,
            };
            let lo = c.all("layer opacity", 256) as u8;
            let co = c.all_of("cel opacity", &ALPHAS);
            let col = col2[0];
            let b = file(
                &Header { width: 2, height: 1, flags, ..Default::default() },
                &[Frame::new(vec![
                    layer(&Layer { opacity: lo, ..Default::default() }),
                    cel(&Cel { opacity: co, ..image_cel(0, 0, 0, 2, 1, &[px(col.0, 255), px(col.1, 99)].concat(), false) }),
                ])],
            );
            c.input(&b);
            let l = cmp::must_load(&b)?;
            cmp::render(&l, 0, &Sel::All, &[10, 20, 30, 255, 1, 2, 3, 4])
        }),
        Driver::new("links", 0, "linked cels have an opacity of their own", |c| {
            let (lo, a, b) = (c.all_of("layer", &ALPHAS), c.all_of("stored", &ALPHAS), c.all_of("linked", &ALPHAS));
            let mode = c.all("mode", 19) as u16;
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let file = file(
                &Header { width: 2, height: 2, depth, ..Default::default() },
                &[
                    Frame::new(vec![
                        std_palette(),
                        layer(&Layer { opacity: lo, blend: mode, ..Default::default() }),
                        cel(&Cel { opacity: a, ..image_cel(0, 0, 0, 2, 2, &pixels(4 * bpp(depth), 40), true) }),
                    ]),
                    Frame::new(vec![cel(&Cel { opacity: b, content: Content::Link(0), ..Default::default() })]),
                ],
            );
            c.input(&file);
            let l = cmp::must_load(&file)?;
            let start = [10, 20, 30, 255, 1, 2, 3, 4, 200, 100, 50, 128, 9, 8, 7, 0];
            Ok(cmp::render(&l, 0, &Sel::All, &start)? ^ cmp::render(&l, 1, &Sel::All, &start)?.rotate_left(9))
        }),
    ]
}

/// Blending in every context: what surrounds a cel must not change how it blends.
fn context(c: &mut Ctx, modes: &[u8]) -> Res {
    let mode = c.all_of("mode", modes);
    let depth = c.of("depth", &[32u16, 16, 8]);
    let header = match c.pick("header flags", 33) {
        0 => 1,
        1 => !0,
        i => 1 | 1u32 << (i - 1),
    };
    let flags = match c.pick("layer flags", 24) {
        0 => 3u16,
        i @ 1..=16 => 1 | 1 << (i - 1),
        i => [0, 0xffff, 0x7f, 9, 0x49, 0x2f, 0x8000][i - 17],
    };
    let lo = c.of("layer opacity", &[255u8, 0, 1, 100, 128, 254]);
    let co = c.of("cel opacity", &[255u8, 0, 1, 77, 128, 254]);
    let (w, h) = c.of("cel size", &[(4u16, 4u16), (1, 1), (4, 1), (2, 5), (5, 4), (0, 0)]);
    let (x, y) = c.of("origin", &[(0i16, 0i16), (1, 0), (0, 1), (-1, -1), (3, 3), (-4, 0), (4, 4)]);
    let z = c.of("z-index", &[0i16, 1, -1, 32767, -32768]);
    let zlib = c.flag("compressed");
    let linked = c.flag("linked");
    let below = c.pick("layers below", 4);
    let level = c.pick("inside a group", 3) as u16;
    let name = c.of("name", &["", "Background", "a"]);
    let transparent = c.of("transparent index", &[0u8, 7, 255]);
    let ground = c.pick("canvas", 4);
    let user = c.flag("user data");
    let late = c.pick("empty frames before", 3);
    let mut ch = vec![palette_from(0, &(0..256u32).map(|i| [i as u8, (i * 5) as u8, 255 - i as u8, [255, 255, 128, 0][i as usize % 4]]).collect::<Vec<_>>())];
    for i in 0..below {
        // Without cels of their own, or with one.
        ch.push(layer(&Layer { flags: 11, blend: 5 * i as u16, ..Default::default() }));
    }
    for l in 0..level {
        ch.push(layer(&Layer { ty: 1, level: l, opacity: 100, blend: 2, ..Default::default() }));
    }
    let k = below as u16 + level;
    ch.push(layer(&Layer { flags, level, blend: mode as u16, opacity: lo, name: name.into(), ..Default::default() }));
    if user {
        ch.push(user_text(b"user"));
    }
    if below == 3 {
        ch.push(cel(&image_cel(1, 0, 0, 4, 4, &pixels(16 * bpp(depth), 99), true)));
    }
    let n = w as usize * h as usize * bpp(depth);
    let px: Vec<u8> = (0..n).map(|i| [200u8, 17, 90, 255, 0, 255, 128, 128, 3, 250, 60, 1, 77, 77, 77, 254][(i * 5 + i / 16) % 16]).collect();
    let here = Cel { x, y, z, opacity: co, ..image_cel(k, 0, 0, w, h, &px, zlib) };
    let mut fs = vec![];
    if linked {
        ch.push(cel(&Cel { layer: k, x: 2, y: 0, opacity: 33, z: 0, ..here.clone() }));
        fs.push(Frame::new(ch));
        fs.extend((0..late).map(|_| Frame::new(vec![])));
        fs.push(Frame::new(vec![cel(&Cel { content: Content::Link(0), ..here })]));
    } else {
        ch.push(cel(&here));
        fs.extend((0..late).map(|_| Frame::new(vec![])));
        fs.push(Frame::new(ch));
    }
    let b = file(&Header { width: 4, height: 4, depth, flags: header, transparent, ..Default::default() }, &fs);
    c.input(&b);
    let l = cmp::must_load(&b)?;
    let start: Vec<u8> = (0..16u8)
        .flat_map(|i| match ground {
            0 => [i * 16, 255 - i * 9, 128, 255],
            1 => [0; 4],
            2 => [255; 4],
            _ => [i, i * 7, 200, i * 17],
        })
        .collect();
    let last = fs.len() - 1;
    let mut r = cmp::render(&l, last, &Sel::All, &start)?;
    r ^= cmp::render(&l, last, &Sel::Visible, &start)?.rotate_left(9);
    let mask = (0..=k).map(|i| i == k).collect();
    Ok(r ^ cmp::render(&l, last, &Sel::Mask(mask), &start)?.rotate_left(18))
}

/// Small sprites with every combination of what decides how a cel is shown.
pub fn factors(c: &mut Ctx) -> Vec<u8> {
    let depth = c.all_of("depth", &[8u16, 32, 16]);
    let transparent = if depth == 8 { c.all_of("transparent index", &[0u8, 2]) } else { 0 };
    let pal = match if depth == 8 { c.all("palette", 3) } else { 0 } {
        0 => palette_from(0, &(0..256).map(|i| [i as u8, 7, 255 - i as u8, [255, 128, 255, 0][i as usize % 4]]).collect::<Vec<_>>()),
        1 => old_palette(OLD04, &[(0, 0, (0..256).map(|i| [i as u8, 9, 255 - i as u8]).collect())]),
        _ => old_palette(OLD11, &[(0, 0, (0..256).map(|i| [i as u8 & 63, 11, 63 - (i as u8 & 63)]).collect())]),
    };
    let zip = c.all("compressed", 2) == 1;
    let linked = c.all("linked", 2) == 1;
    let background = c.all("background", 2) == 1;
    let visible = c.all("visible", 2) == 1;
    let group = c.all("group", 3);
    let blend = c.all_of("blend mode", &[0u16, 1, 13]);
    let lo = c.all_of("layer opacity", &[255u8, 100]);
    let co = c.all_of("cel opacity", &[255u8, 77]);
    let flags = c.all_of("opacity valid", &[1u32, 0]);
    let z = c.all_of("z-index", &[0i16, -2]);
    let (x, y) = c.all_of("origin", &[(0i16, 0i16), (-1, 1)]);
    let (w, h) = c.all_of("size", &[(2u16, 2u16), (4, 1)]);
    let other = c.all("other layer", 2) == 1;
    let bpp = bpp(depth);
    let px: Vec<u8> = (0..w as usize * h as usize).flat_map(|i| [[0u8, 1, 2, 77][i % 4], 40, 90, [255, 128, 0, 200][i % 4]]).collect();
    let px: Vec<u8> = match bpp {
        1 => px.chunks(4).map(|p| p[0]).collect(),
        2 => px.chunks(4).flat_map(|p| [p[0], p[3]]).collect(),
        _ => px,
    };
    let mut ch = vec![pal];
    let mut k = 0;
    if other {
        ch.push(layer(&Layer { name: b"other".to_vec(), ..Default::default() }));
        k += 1;
    }
    if group > 0 {
        ch.push(layer(&Layer { flags: if group == 1 { 3 } else { 2 }, ty: 1, opacity: 50, blend: 2, name: b"group".to_vec(), ..Default::default() }));
        k += 1;
    }
    let lf = visible as u16 | 2 | (background as u16) << 3;
    ch.push(layer(&Layer { flags: lf, level: (group > 0) as u16, blend, opacity: lo, name: b"layer".to_vec(), ..Default::default() }));
    if other {
        ch.push(cel(&image_cel(0, 0, 0, 2, 2, &pixels(4 * bpp, 9), false)));
    }
    let here = Cel { x, y, z, opacity: co, ..image_cel(k, 0, 0, w, h, &px, zip) };
    let mut fs = vec![];
    if linked {
        ch.push(cel(&Cel { x: 1, opacity: 33, z: 0, ..here.clone() }));
        fs.push(Frame::new(ch));
        let mut next = vec![cel(&Cel { content: Content::Link(0), ..here })];
        if other {
            next.push(cel(&Cel { content: Content::Link(0), ..Default::default() }));
        }
        fs.push(Frame::new(next));
    } else {
        ch.push(cel(&here));
        fs.push(Frame::new(ch));
    }
    file(&Header { depth, width: 3, height: 2, flags, transparent, ..Default::default() }, &fs)
}
/// Indexed sprites with one or two layers that may be backgrounds, every way of
/// storing their cels, and every relation of the transparent index to the pixels.
pub fn backgrounds(c: &mut Ctx) -> Vec<u8> {
    let depth = c.all_of("depth", &[8u16, 16, 32]);
    let transparent = c.all_of("transparent index", &[0u8, 1, 2, 254, 255]);
    let alpha = c.all_of("alpha of the entries", &[255u8, 0, 100]);
    let old = depth == 8 && c.all("old palette", 2) == 1;
    let n = 1 + c.all("layers", 2);
    let mut ch = vec![if old {
        old_palette(OLD04, &[(0, 0, (0..256).map(|i| [i as u8, 7, 255 - i as u8]).collect())])
    } else {
        palette_from(0, &(0..256).map(|i| [i as u8, 7, 255 - i as u8, alpha]).collect::<Vec<_>>())
    }];
    let mut next = vec![];
    for l in 0..n {
        let flags = c.all_of("layer flags", &[3u16, 11, 9, 0x4b]);
        ch.push(layer(&Layer { flags, opacity: 255 - 100 * l as u8, name: b"Background".to_vec(), ..Default::default() }));
    }
    for l in 0..n {
        let zip = c.all("compressed", 2) == 1;
        let bpp = bpp(depth);
        let px: Vec<u8> = [0u8, 1, 2, 254, 255, transparent].iter().flat_map(|v| vec![*v; bpp]).collect();
        ch.push(cel(&image_cel(l as u16, l as i16, 0, 3, 2, &px, zip)));
        if c.all("linked", 2) == 1 {
            next.push(cel(&Cel { layer: l as u16, y: 1, content: Content::Link(0), ..Default::default() }));
        }
    }
    file(&Header { depth, width: 4, height: 3, transparent, ..Default::default() }, &[Frame::new(ch), Frame::new(next)])
}

// ---------------------------------------------------------------- C16

/// One cel at an origin; opaque pixels that all differ from their neighbours.
fn place(c: &mut Ctx, w: u16, h: u16, cw: u16, ch: u16, x: i16, y: i16, depth: u16, z: bool) -> Res {
    let n = cw as usize * ch as usize;
    let img: Vec<u8> = match depth {
        8 => (0..n).map(|i| (i % 251) as u8).collect(),
        16 => (0..n).flat_map(|i| [(i % 251) as u8, 255 - (i / 251 % 16) as u8]).collect(),
        _ => (0..n).flat_map(|i| [(i % 251) as u8, (i / 251 % 251) as u8, (i / 63001) as u8, 255 - (i % 7) as u8]).collect(),
    };
    let b = file(
        &Header { width: w, height: h, depth, transparent: 255, ..Default::default() },
        &[Frame::new(vec![
            std_palette(),
            layer(&Layer::default()),
            cel(&image_cel(0, x, y, cw, ch, &img, z)),
        ])],
    );
    c.input(&b);
    let l = cmp::must_load(&b)?;
    let m = w as usize * h as usize * 4;
    let start: Vec<u8> = (0..m + 9).map(|i| (i as u8).wrapping_mul(29) | 1).collect();
    cmp::render(&l, 0, &Sel::All, &start)
}
pub fn c16(t: Tier) -> Vec<Driver> {
    let m = tier(t, 3i16, 5);
    let edges = [0u16, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 32769, 65534, 65535];
    vec![
        Driver::new("factors", 0, "every combination of depth, palette, compression, link, flags, group, mode, opacities, z-index, place and size of a cel", |c| {
            let b = factors(c);
            super::image::full(c, &b)
        }),
        Driver::new("fields", tier(t, 2, 3), "every field of a loadable sprite, boundary values", |c| super::image::fields(c)).live(HEADER | CELS),
        Driver::new("small", 0, "every canvas and cel size up to 3x3 (thorough: 5x5), every origin that can matter", move |c| {
            let w = 1 + c.all("width", m as usize) as i16;
            let h = 1 + c.all("height", m as usize) as i16;
            let cw = c.all("cel width", m as usize + 1) as i16;
            let ch = c.all("cel height", m as usize + 1) as i16;
            let x = c.all("x", (w + cw + 3) as usize) as i16 - cw - 1;
            let y = c.all("y", (h + ch + 3) as usize) as i16 - ch - 1;
            place(c, w as u16, h as u16, cw as u16, ch as u16, x, y, 32, (w + h + x) % 2 == 0)
        }),
        Driver::new("medium", 0, "canvas and cel extents from 1 to 40 (thorough: 70) in one direction, every origin that can matter, several depths", move |c| {
            let top = tier(t, 40usize, 70);
            let column = c.all("direction", 2) == 1;
            let w = 1 + c.all("extent", top) as i16;
            let cw = 1 + c.all("cel extent", top) as i16;
            // One beyond either end, everything in between.
            let x = c.all("origin", (w + cw + 2) as usize) as i16 - cw - 1 + (cw == 1) as i16;
            let rows = c.all_of("other direction", tier(t, &[(1u16, 1u16, 0i16), (2, 2, -1)], &[(1, 1, 0), (2, 2, -1), (2, 2, 1), (2, 1, 1)]));
            let (depth, z) = [(32, false), (16, true), (8, false), (32, true)][(w + cw + x).rem_euclid(4) as usize];
            let (h, ch, y) = rows;
            if column {
                place(c, h, w as u16, ch, cw as u16, y, x, depth, z)
            } else {
                place(c, w as u16, h, cw as u16, ch, x, y, depth, z)
            }
        }),
        Driver::new("extreme-row", 0, "canvas and cel widths x origins around 8, 15 and 16-bit limits, one or two rows", move |c| {
            let w = c.all_of("width", &edges[1..]);
            let cw = c.all_of("cel width", &edges);
            let x = c.all_of(
                "x",
                &[0i16, 1, -1, 2, 127, 128, -128, 255, 256, -255, -256, -257, 32766, 32767, -32767, -32768],
            );
            let (h, ch, y) = c.all_of("rows", &[(1u16, 1u16, 0i16), (2, 2, -1), (2, 1, 1)]);
            if (w as usize * h as usize).max(cw as usize * ch as usize) > 66000 && y != 0 {
                return Ok(0);
            }
            place(c, w, h, cw, ch, x, y, 8, false)
        }),
        Driver::new("extreme-column", 0, "canvas and cel heights x origins around 8, 15 and 16-bit limits, one or two columns", move |c| {
            let h = c.all_of("height", &edges[1..]);
            let ch = c.all_of("cel height", &edges);
            let y = c.all_of(
                "y",
                &[0i16, 1, -1, 2, 127, 128, -128, 255, 256, -255, -256, -257, 32766, 32767, -32767, -32768],
            );
            let (w, cw, x) = c.all_of("columns", &[(1u16, 1u16, 0i16), (2, 2, -1), (2, 1, 1)]);
            if (w as usize * h as usize).max(cw as usize * ch as usize) > 66000 && x != 0 {
                return Ok(0);
            }
            place(c, w, h, cw, ch, x, y, 8, false)
        }),
        Driver::new("corners", 0, "both origins extreme at once", |c| {
            let v = [0i16, 1, -1, 2, -2, 3, -3, 4, -4, 255, 256, -256, 32767, -32768, -32767];
            let (x, y) = (c.all_of("x", &v), c.all_of("y", &v));
            let (w, h) = c.all_of("canvas", &[(1u16, 1u16), (3, 2), (2, 3), (256, 2), (300, 7), (2, 300)]);
            let (cw, ch) = c.all_of("cel", &[(1u16, 1u16), (2, 3), (4, 2), (256, 257), (260, 3), (3, 260), (0, 5), (5, 0)]);
            place(c, w, h, cw, ch, x, y, 16, false)
        }),
        Driver::new("area", 0, "canvases and cels of more than 65535 pixels", |c| {
            let (w, h) = c.all_of("canvas", &[(300u16, 300u16), (257, 256), (600, 200)]);
            let (cw, ch) = c.all_of("cel", &[(300u16, 300u16), (256, 257), (90, 700), (512, 129)]);
            let x = c.all_of("x", &[0i16, -7, 44, -256]);
            let y = c.all_of("y", &[0i16, -3, 60, -250]);
            let depth = c.all_of("depth", &[32u16, 16, 8]);
            let z = c.all("compressed", 2) == 1;
            place(c, w, h, cw, ch, x, y, depth, z)
        }),
        Driver::new("empty-canvas", 0, "canvases without pixels", |c| {
            let (w, h) = c.all_of("canvas", &[(0u16, 0u16), (0, 3), (3, 0), (0, 65535), (65535, 0)]);
            let (x, y) = (c.all("x", 5) as i16 - 2, c.all("y", 5) as i16 - 2);
            place(c, w, h, 2, 2, x, y, 32, false)
        }),
        Driver::new("two", 0, "two cels at independent positions on a 2x2 canvas", |c| {
            let mut ch = vec![layer(&Layer::default()), layer(&Layer { blend: 16, opacity: 128, ..Default::default() })];
            for k in 0..2u16 {
                let x = c.all("x", 5) as i16 - 2;
                let y = c.all("y", 5) as i16 - 2;
                let (w, h) = c.all_of("size", &[(2u16, 2u16), (3, 1), (1, 3)]);
                let p = pixels(w as usize * h as usize * 4, 50 * k as u8 + 3);
                ch.push(cel(&image_cel(k, x, y, w, h, &p, k == 1)));
            }
            let b = file(&Header { width: 2, height: 2, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            cmp::render(&l, 0, &Sel::All, &[5; 20])
        }),
    ]
}

// ---------------------------------------------------------------- C17

/// Pixel data of a 2x2 cel in which every order of layers is observable.
fn quad(i: usize) -> Vec<u8> {
    let i = i as u8;
    let k = i.wrapping_mul(71).wrapping_add(13);
    vec![
        k, 255 - k, i, 128, k.wrapping_mul(3), 40, k, 255, 200, k, 7, 90, i, k.wrapping_mul(5), 99, [0, 255, 128, 60][i as usize % 4],
    ]
}
const START: [u8; 20] = [10, 20, 30, 255, 0, 0, 0, 0, 9, 200, 77, 128, 255, 255, 255, 254, 1, 2, 3, 4];
fn permute(c: &mut Ctx, mut v: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    let mut out = vec![];
    while !v.is_empty() {
        let i = c.all("next cel", v.len());
        out.push(v.remove(i));
    }
    out
}
fn show(c: &mut Ctx, b: &[u8]) -> Res {
    c.input(b);
    let l = cmp::must_load(b)?;
    let n = l.s.size.0 as usize * l.s.size.1 as usize * 4;
    let start: Vec<u8> = START.iter().copied().cycle().take(n.max(START.len())).collect();
    let mut h = 0u64;
    for f in 0..l.s.frames.len() {
        h = h.rotate_left(3) ^ cmp::render(&l, f, &Sel::All, &start)?;
        h = h.rotate_left(3) ^ cmp::render(&l, f, &Sel::Visible, &start)?;
    }
    Ok(h)
}
pub fn c17(t: Tier) -> Vec<Driver> {
    let canvas = Header { width: 2, height: 2, ..Default::default() };
    let (h1, h2, h3, h4, h5, h6) =
        (canvas.clone(), canvas.clone(), canvas.clone(), canvas.clone(), canvas.clone(), canvas.clone());
    let zs: Vec<i16> = if t == Tier::Quick { vec![0, 1, -1, 2, -2] } else { vec![0, 1, -1, 2, -2, 3, -3] };
    vec![
        Driver::new("factors", 0, "every combination of depth, palette, compression, link, flags, group, mode, opacities, z-index, place and size of a cel", |c| {
            let b = factors(c);
            super::image::full(c, &b)
        }),
        Driver::new("backgrounds", 0, "background layers and others: every depth, transparent index, alpha, palette kind and way of storing a cel", |c| {
            let b = backgrounds(c);
            super::image::full(c, &b)
        }),
        Driver::new("late-items", 0, "252 to 300 items of one kind and one of 48 others, sound or faulty, before, between or after", |c| {
            let (b, _) = late(c, &LATE_AT, LATE, 3);
            super::image::full(c, &b)
        }),
        Driver::new("context", tier(t, 3, 4), "three (thorough: four) deviations in what surrounds the blended cel: flags, depth, opacities, nesting, origin, links, canvas", |c| context(c, &std::array::from_fn::<u8, 19, _>(|i| i as u8))),
        Driver::new("fields", tier(t, 2, 3), "every field of a loadable sprite, boundary values", |c| super::image::fields(c)).live(LAYERS | CELS),
        Driver::new("chunk-rows", 0, "any three (thorough: four) chunks of 25 kinds in a row, layers before or after: every image, frame and selection", move |c| {
            let b = super::parse::row(c, tier(t, 3, 4), false);
            super::image::full(c, &b)
        }),
        Driver::new("alike", 0, "two or three cels over the same pixels whose colours, opacities, modes and positions coincide in any combination", move |c| {
            let n = 2 + c.all("third layer", 2) as u16;
            let w = c.all_of("cel width", &[1u16, 2]);
            let px = [[200u8, 100, 50, 255], [30, 60, 90, 128], [200, 100, 50, 254]];
            let (mut ch, mut cels) = (vec![], vec![]);
            for l in 0..n {
                let few = l == 2;
                let (opacity, o) = c.all_of("opacities", if few { &[(255u8, 255u8), (100, 255)] } else { &[(255, 255), (100, 255), (255, 100), (100, 100)] });
                let blend = c.all_of("mode", if few { &[0u16, 1] } else { &[0, 1, 13] });
                let x = c.all("x", if few { 2 } else { 3 }) as i16;
                let mut p = px[c.all("first pixel", if few { 2 } else { 3 })].to_vec();
                if w == 2 {
                    p.extend(px[if few { 1 } else { c.all("second pixel", 2) }]);
                }
                ch.push(layer(&Layer { opacity, blend, ..Default::default() }));
                cels.push(cel(&Cel { opacity: o, ..image_cel(l, x, 0, w, 1, &p, false) }));
            }
            ch.extend(cels);
            show(c, &file(&Header { width: 3, height: 1, ..Default::default() }, &[Frame::new(ch)]))
        }),
        Driver::new("rows", 0, "rows of up to six (thorough: seven) pixels, each clear, faint, translucent, opaque or equal to its neighbour, over several backdrops, modes and opacities", move |c| {
            let n = 1 + c.all("width", tier(t, 6, 7)) as u16;
            let kinds = [[0u8, 0, 0, 0], [90, 20, 200, 0], [250, 130, 5, 1], [30, 60, 90, 128], [200, 100, 50, 255]];
            let mut p = vec![];
            for _ in 0..n {
                p.extend(c.all_of("pixel", &kinds));
            }
            let ground = c.all("backdrop", 4);
            let (blend, opacity) = c.all_of("mode and opacity", &[(0u16, 255u8), (0, 120), (1, 255), (16, 120), (13, 255)]);
            let h = Header { width: n, height: 1, ..Default::default() };
            let b = file(&h, &[Frame::new(vec![layer(&Layer { blend, opacity, ..Default::default() }), cel(&image_cel(0, 0, 0, n, 1, &p, false))])]);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let start: Vec<u8> = (0..n)
                .flat_map(|i| match ground {
                    0 => [0; 4],
                    1 => [10, 200, 99, 255],
                    2 => [10, 200, 99, 60],
                    _ => [[7, 8, 9, 255], [0; 4], [77, 1, 230, 128]][i as usize % 3],
                })
                .collect();
            cmp::render(&l, 0, &Sel::All, &start)
        }),
        Driver::new("wide", 0, "two cels of every extent up to 70 (thorough: 300), pixels of many patterns, in either order of z-index", move |c| {
            let n = 1 + c.all("extent", tier(t, 70, 300)) as u16;
            let column = c.all("direction", 2) == 1;
            let (p, q) = (c.all("lower pattern", 6), c.all("upper pattern", 6));
            let (m1, m2) = c.all_of("modes", &[(0u16, 0u16), (0, 1), (13, 0), (16, 10)]);
            let z = c.all_of("z", &[0i16, -3]);
            let row = |k: usize, seed: u8| -> Vec<u8> {
                (0..n)
                    .flat_map(|i| {
                        let v = (i as u8).wrapping_mul(37).wrapping_add(seed);
                        match k {
                            0 => [200, 100, seed, 255],
                            1 => [v, 255 - v, v / 2, 255],
                            2 => [v, seed, 255 - v, v.wrapping_mul(7)],
                            3 => [seed, v, 90, if i % 2 == 0 { 255 } else { 0 }],
                            4 => [v, v, seed, if i + 1 == n { 255 } else { 0 }],
                            _ => [v & 0xc0, seed, 3, if i / 8 % 2 == 0 { 255 } else { 128 }],
                        }
                    })
                    .collect()
            };
            let (w, h) = if column { (1, n) } else { (n, 1) };
            let mut ch = vec![layer(&Layer { blend: m1, ..Default::default() }), layer(&Layer { blend: m2, opacity: 200, ..Default::default() })];
            ch.push(cel(&image_cel(0, 0, 0, w, h, &row(p, 11), n % 2 == 0)));
            ch.push(cel(&Cel { z, ..image_cel(1, 0, 0, w, h, &row(q, 140), false) }));
            let b = file(&Header { width: w, height: h, ..Default::default() }, &[Frame::new(ch)]);
            show(c, &b)
        }),
        Driver::new("z3", 0, "three layers: every z-index from -3 to 3 and every order of the cel chunks", move |c| {
            let mut cels = vec![];
            for l in 0..3 {
                let z = c.all("z", 7) as i16 - 3;
                cels.push(cel(&Cel { z, ..image_cel(l, 0, 0, 2, 2, &quad(l as usize), false) }));
            }
            let mut ch = vec![layer(&Layer::default()); 3];
            ch.extend(permute(c, cels));
            show(c, &file(&h1, &[Frame::new(ch)]))
        }),
        Driver::new("z4", 0, "four layers: every z-index from an alphabet around 0, with gaps in the cel table", move |c| {
            let mut ch = vec![layer(&Layer::default()); 4];
            for l in 0..4u16 {
                let k = c.all("z or no cel", zs.len() + 1);
                if k < zs.len() {
                    ch.push(cel(&Cel { z: zs[k], ..image_cel(l, 0, 0, 2, 2, &quad(l as usize), l % 2 == 0) }));
                }
            }
            show(c, &file(&h2, &[Frame::new(ch)]))
        }),
        Driver::new("z-extreme", 0, "z-indices at the ends of their range on three layers out of 300", move |c| {
            let v = [0i16, 1, -1, 255, 256, -256, 298, -298, 299, -299, 32767, 32766, -32768, -32767];
            let which = c.all_of("layers", &[[0u16, 1, 2], [0, 255, 256], [1, 298, 299], [0, 150, 299]]);
            let mut ch = vec![layer(&Layer::default()); 300];
            for (i, l) in which.into_iter().enumerate() {
                let z = c.all_of("z", &v);
                ch.push(cel(&Cel { z, ..image_cel(l, 0, 0, 2, 2, &quad(i), false) }));
            }
            show(c, &file(&h3, &[Frame::new(ch)]))
        }),
        Driver::new("types", 0, "four layers of any type, with and without cels, in one of three modes", move |c| {
            let mut ch = vec![];
            let mut cels = vec![];
            for l in 0..4u16 {
                let ty = c.all_of("type", &[0u16, 1, 2, 3]);
                let (blend, opacity) = [(0u16, 255u8), (9, 200), (17, 128), (13, 255)][l as usize];
                ch.push(layer(&Layer { ty, blend, opacity, name: vec![b'a' + l as u8], ..Default::default() }));
                match c.all("cel", 3) {
                    0 => cels.push(cel(&image_cel(l, 0, 0, 2, 2, &quad(l as usize), true))),
                    1 => cels.push(cel(&Cel { z: -1, opacity: 100, ..image_cel(l, 0, 0, 2, 2, &quad(l as usize), false) })),
                    _ => {}
                }
            }
            ch.extend(cels);
            show(c, &file(&h4, &[Frame::new(ch)]))
        }),
        Driver::new("modes", 0, "three layers: any two modes on top of each other, layer and cel opacities", move |c| {
            let mut ch = vec![layer(&Layer::default())];
            let mut cels = vec![cel(&image_cel(0, 0, 0, 2, 2, &quad(0), false))];
            for l in 1..3u16 {
                let blend = c.all("mode", 19) as u16;
                let (opacity, o) = c.all_of("opacity", &[(255u8, 255u8), (100, 255), (255, 99), (180, 170)]);
                ch.push(layer(&Layer { blend, opacity, ..Default::default() }));
                cels.push(cel(&Cel { opacity: o, ..image_cel(l, 0, 0, 2, 2, &quad(l as usize), l == 1) }));
            }
            ch.extend(cels);
            show(c, &file(&h5, &[Frame::new(ch)]))
        }),
        Driver::new("frames", 0, "three frames x two layers: only the cels of the frame contribute", move |c| {
            let mut fs = vec![];
            for f in 0..3usize {
                let mut ch = vec![];
                if f == 0 {
                    ch.push(layer(&Layer { opacity: 200, ..Default::default() }));
                    ch.push(layer(&Layer { blend: 1, ..Default::default() }));
                }
                for l in 0..2u16 {
                    match c.all("slot", 3) {
                        0 => {}
                        1 => ch.push(cel(&image_cel(l, 0, 0, 2, 2, &quad(f * 2 + l as usize), f == 1))),
                        _ => {
                            // A link needs a stored image: frame 2 of its layer.
                            if f == 2 {
                                ch.push(cel(&Cel { opacity: 90, z: -1, ..image_cel(l, 1, 0, 1, 2, &quad(l as usize)[..8], true) }));
                            } else {
                                ch.push(cel(&Cel { layer: l, x: -1, y: 1, z: 1, content: Content::Link(2), ..Default::default() }));
                            }
                        }
                    }
                }
                fs.push(Frame::new(ch));
            }
            let b = file(&h6, &fs);
            c.input(&b);
            match cmp::load(&b)? {
                Err(e) => {
                    c.count("dangling links", 1);
                    Ok(hash(format!("{e:?}").as_bytes()))
                }
                Ok(_) => show(c, &b),
            }
        }),
        Driver::new("many", 0, "300 layers: two cels on any of them, in either order", move |c| {
            let i = c.all("layer", 300) as u16;
            let j = c.all_of("other layer", &[0u16, 1, 127, 128, 254, 255, 256, 257, 299]);
            let swap = c.all("order", 2) == 1;
            let mut ch = vec![];
            for l in 0..300usize {
                ch.push(layer(&Layer { opacity: (l % 255) as u8 + 1, blend: (l % 19) as u16, ..Default::default() }));
            }
            let mut cels = vec![
                cel(&image_cel(i, 0, 0, 2, 2, &quad(1), false)),
                cel(&image_cel(j, 0, 0, 2, 2, &quad(2), false)),
            ];
            if swap {
                cels.reverse();
            }
            ch.extend(cels);
            show(c, &file(&Header { width: 7, height: 7, ..Default::default() }, &[Frame::new(ch)]))
        }),
        Driver::new("late-layers", 0, "65536 layers: two cels on any of the first, last and middle ones, z-indices at boundaries", move |c| {
            const AT: [u16; 9] = [0, 1, 255, 256, 32766, 32767, 32768, 65534, 65535];
            let (i, j) = (c.all_of("layer", &AT), c.all_of("other layer", &AT));
            let z = c.all_of("z-index", &[0i16, 1, -1, 32767, -32768]);
            let swap = c.all("order", 2) == 1;
            let mut ch = vec![layer(&Layer { name: vec![], ..Default::default() }); 65536];
            let mut cels = vec![
                cel(&image_cel(i, 0, 0, 2, 2, &quad(1), false)),
                cel(&Cel { z, ..image_cel(j, 0, 0, 2, 2, &quad(2), false) }),
            ];
            if swap {
                cels.reverse();
            }
            ch.extend(cels);
            show(c, &file(&Header { width: 2, height: 2, ..Default::default() }, &[Frame::new(ch)]))
        }),
        Driver::new("crowd", 0, "frames of up to 70 cels: z-indices and chunk orders of many patterns", move |c| {
            let n = c.all("cels", 71) as u16;
            let zp = c.all("z-indices", 8);
            let order = c.all("chunk order", 4);
            let mut ch: Vec<Vec<u8>> = (0..n).map(|l| layer(&Layer { blend: [0, 10, 3][l as usize % 3], ..Default::default() })).collect();
            let mut ids: Vec<u16> = (0..n).collect();
            match order {
                0 => {}
                1 => ids.reverse(),
                2 => ids.sort_by_key(|l| (l % 7, l % 3)),
                _ => ids.rotate_left(n as usize / 2),
            }
            for l in ids {
                let z = match zp {
                    0 => 0,
                    1 => -(l as i16),
                    2 => -2 * l as i16,
                    3 => l as i16 % 3 - 1,
                    4 => n as i16 - l as i16,
                    5 => if l % 2 == 0 { 1 } else { -1 },
                    6 => if l == n / 2 { -40 } else { 0 },
                    _ => (l as i16 * 37) % 11 - 5,
                };
                let p = (l * 3) as u8;
                // Overlapping bars: every cel meets its neighbours.
                let px = [p, 255 - p, p ^ 0x55, 255, 255 - p, p, 7, 128];
                ch.push(cel(&Cel { z, ..image_cel(l, l as i16 % 6, l as i16 / 6 % 6, 2, 1, &px, l % 2 == 0) }));
            }
            show(c, &file(&Header { width: 7, height: 7, ..Default::default() }, &[Frame::new(ch)]))
        }),
        Driver::new("accumulate", 0, "rendering continues on whatever the buffer holds: any two frames or selections in sequence", |c| {
            let b = super::image::rgba_sprite();
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let n = 24;
            let mut buf = vec![c.all_of("fill", &[0u8, 1, 128, 255]); n];
            for _ in 0..3 {
                let f = c.all("frame", 2);
                let sel = match c.all("selection", 4) {
                    0 => Sel::All,
                    1 => Sel::Visible,
                    2 => Sel::Mask(vec![true]),
                    _ => Sel::Mask(vec![false, true, true]),
                };
                cmp::render(&l, f, &sel, &buf)?;
                let _ = l.af.render_frame(f, &mut buf, &cmp::selection(&sel));
            }
            c.visit(hash(&buf));
            Ok(hash(&buf))
        }),
    ]
}

// ---------------------------------------------------------------- C18

/// A file whose `n` layers have every visibility, kind and well-formed nesting.
pub fn tree(c: &mut Ctx, n: usize, cels: impl Fn(usize) -> Vec<Vec<u8>>) -> Vec<u8> {
    let mut ch = vec![];
    let mut max = 0u16;
    for i in 0..n {
        let level = max - c.all("up", max as usize + 1) as u16;
        let group = c.all("group", 2) == 1;
        let flags = 2 | c.all("visible", 2) as u16;
        max = level + group as u16;
        ch.push(layer(&Layer { flags, ty: group as u16, level, name: vec![b'a' + i as u8], ..Default::default() }));
    }
    for i in 0..n {
        ch.extend(cels(i));
    }
    file(&Header { width: n as u16, height: 1, ..Default::default() }, &[Frame::new(ch)])
}
/// One pixel per layer, so every selected layer is visible on its own.
fn dot(i: usize) -> Vec<Vec<u8>> {
    vec![cel(&image_cel(i as u16, i as i16, 0, 1, 1, &[10 + i as u8, 200, i as u8, 255], i % 2 == 0))]
}
fn masks(n: usize) -> Vec<Sel> {
    let mut v = vec![Sel::Visible, Sel::All];
    for len in 0..=n + 1 {
        for m in 0..1usize << len {
            v.push(Sel::Mask((0..len).map(|i| m >> i & 1 == 1).collect()));
        }
    }
    v
}
pub fn c18(t: Tier) -> Vec<Driver> {
    let n = tier(t, 5, 6);
    vec![
        Driver::new("factors", 0, "every combination of depth, palette, compression, link, flags, group, mode, opacities, z-index, place and size of a cel", |c| {
            let b = factors(c);
            super::image::full(c, &b)
        }),
        Driver::new("backgrounds", 0, "background layers and others: every depth, transparent index, alpha, palette kind and way of storing a cel", |c| {
            let b = backgrounds(c);
            super::image::full(c, &b)
        }),
        Driver::new("fields", tier(t, 2, 3), "every field of a loadable sprite, boundary values", |c| super::image::fields(c)).live(LAYERS),
        Driver::new("jumps", 0, "five layers nested with gaps in their levels", |c| {
            let mut ch = vec![];
            // Levels of the enclosing layers; only they can be returned to.
            let mut open: Vec<u16> = vec![];
            for _ in 0..5 {
                let keep = c.all("enclosing layers", open.len() + 1);
                open.truncate(keep);
                // A sibling of a closed layer keeps its level, so deeper gaps only below a new parent.
                let level = match open.last() {
                    None => 0,
                    Some(l) => l + 1 + c.all("gap", 3) as u16,
                };
                let group = c.all("group", 2) == 1;
                ch.push(layer(&Layer { flags: 2 | c.all("visible", 2) as u16, ty: group as u16, level, ..Default::default() }));
                if group {
                    open.push(level);
                }
            }
            for i in 0..5 {
                ch.extend(dot(i));
            }
            let b = file(&Header { width: 5, height: 1, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            Ok(cmp::render(&l, 0, &Sel::Visible, &[1; 20])? ^ cmp::render(&l, 0, &Sel::All, &[1; 20])?.rotate_left(9))
        }),
        Driver::new("trees", 0, "five layers (thorough: six) of every visibility, kind and nesting; visible and all", move |c| {
            let b = tree(c, n, dot);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let start = vec![1u8; n * 4];
            Ok(cmp::render(&l, 0, &Sel::Visible, &start)? ^ cmp::render(&l, 0, &Sel::All, &start)?.rotate_left(9))
        }),
        Driver::new("masks", 0, "three layers of every visibility, kind and nesting; every mask up to one longer than needed", move |c| {
            let b = tree(c, 3, dot);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let mut h = 0u64;
            for s in masks(3) {
                h = h.rotate_left(3) ^ cmp::render(&l, 0, &s, &[7; 16])?;
                c.count("selections rendered", 1);
            }
            Ok(h)
        }),
        Driver::new("deep", 0, "chains of nested groups: one hidden group anywhere, siblings before, inside and after", |c| {
            let depth = 1 + c.all_of("depth", &[0usize, 1, 2, 3, 7, 40, 255, 256, 299]);
            let hidden = c.all("hidden", depth.min(12) + 1);
            let hidden = if depth > 12 && hidden > 0 { 1 + (hidden - 1) * (depth - 1) / 11 } else { hidden };
            let mut ch = vec![];
            let mut cels = vec![];
            let push = |ch: &mut Vec<Vec<u8>>, cels: &mut Vec<Vec<u8>>, l: Layer| {
                let i = ch.len();
                if l.ty == 0 {
                    cels.push(cel(&image_cel(i as u16, i as i16, 0, 1, 1, &[1, 2, i as u8, 255], false)));
                }
                ch.push(layer(&l));
            };
            push(&mut ch, &mut cels, Layer::default());
            for d in 0..depth {
                push(&mut ch, &mut cels, Layer { ty: 1, level: d as u16, flags: (d + 1 != hidden) as u16, ..Default::default() });
                if d % 3 == 0 {
                    push(&mut ch, &mut cels, Layer { level: d as u16 + 1, ..Default::default() });
                }
            }
            push(&mut ch, &mut cels, Layer { level: depth as u16, ..Default::default() });
            // Leave the groups again, one level at a time.
            for d in (0..depth).rev().take(5) {
                push(&mut ch, &mut cels, Layer { level: d as u16, ..Default::default() });
            }
            push(&mut ch, &mut cels, Layer::default());
            let w = ch.len();
            ch.extend(cels);
            let b = file(&Header { width: w as u16, height: 1, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let start = vec![3u8; w * 4];
            Ok(cmp::render(&l, 0, &Sel::Visible, &start)? ^ cmp::render(&l, 0, &Sel::All, &start)?.rotate_left(9))
        }),
        Driver::new("flags", 0, "every layer flag bit: only visibility decides", |c| {
            let mut ch = vec![];
            for i in 0..3usize {
                let vis = c.all("visible", 2) as u16;
                let bit = c.all("other flag", 16);
                let flags = if bit == 0 { vis } else { vis | 1 << bit };
                ch.push(layer(&Layer { flags, name: vec![b'a' + i as u8], ..Default::default() }));
            }
            for i in 0..3 {
                ch.extend(dot(i));
            }
            let b = file(&Header { width: 3, height: 1, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            Ok(cmp::render(&l, 0, &Sel::Visible, &[9; 12])? ^ cmp::render(&l, 0, &Sel::All, &[9; 12])?.rotate_left(9))
        }),
        Driver::new("kinds", 0, "layers of every type: selections address layers by their number in the file", |c| {
            let mut ch = vec![];
            for i in 0..4usize {
                let ty = c.all_of("type", &[0u16, 1, 2, 3]);
                let flags = c.all("visible", 2) as u16;
                ch.push(layer(&Layer { ty, flags, name: vec![b'a' + i as u8], ..Default::default() }));
            }
            for i in 0..4 {
                ch.extend(dot(i));
            }
            let b = file(&Header { width: 4, height: 1, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let mut h = 0u64;
            for s in [
                Sel::Visible,
                Sel::All,
                Sel::Mask(vec![true]),
                Sel::Mask(vec![false, true]),
                Sel::Mask(vec![false, false, true]),
                Sel::Mask(vec![false, false, false, true]),
                Sel::Mask(vec![true, true, true, true, true]),
            ] {
                h = h.rotate_left(3) ^ cmp::render(&l, 0, &s, &[7; 16])?;
            }
            Ok(h)
        }),
        Driver::new("named-trees", 0, "five layers of every kind and nesting, three patterns of names and visibility: every set of names, and predicates", |c| {
            let mut level = 0;
            let names = c.all_of("names", &[["a", "b", "c", "d", "e"], ["a", "b", "a", "c", "b"], ["a", "", "a/b", "b", "a"]]);
            let hidden = c.all_of("hidden", &[0u32, 31, 10]);
            let mut ch: Vec<Vec<u8>> = vec![];
            let mut groups = vec![];
            for i in 0..5u32 {
                if i > 0 {
                    level = c.all("level", level as usize + 2) as u16;
                }
                groups.push(c.all("group", 2) == 1);
                let flags = 2 | (hidden >> i & 1 == 0) as u16;
                ch.push(layer(&Layer { flags, level, ty: groups[i as usize] as u16, name: names[i as usize].into(), ..Default::default() }));
            }
            for i in 0..5 {
                ch.extend(dot(i));
            }
            let b = file(&Header { width: 4, height: 1, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let mut h = 0u64;
            for set in 0..32u32 {
                let asked: Vec<&str> = (0..5).filter(|i| set >> i & 1 != 0).map(|i| names[i]).collect();
                let exp: Vec<bool> = names.iter().map(|n| asked.contains(n)).collect();
                h = h.rotate_left(3) ^ check_selection(&l, &l.af.select_layers_by_name(&asked), &exp)?;
                c.count("selections rendered", 1);
            }
            check_selection(&l, &l.af.select_layers(|l| l.layer_type == aseprite_loader::binary::chunks::layer::LayerType::Group), &groups)?;
            let seen: Vec<bool> = l.s.layers.iter().map(|l| l.visible).collect();
            Ok(h ^ check_selection(&l, &l.af.select_layers(|l| l.visible), &seen)?)
        }),
        Driver::new("name-pairs", 0, "selection by name: every pair of common and odd names", |c| {
            use super::parse::NAMES;
            let long = "a".repeat(300);
            let longer = "a".repeat(301);
            let all: Vec<&str> = NAMES.iter().copied().chain([long.as_str(), &longer]).collect();
            let (a, b) = (c.all_of("first name", &all), c.all_of("second name", &all));
            let mut ch: Vec<Vec<u8>> =
                [a, b, a].iter().map(|n| layer(&Layer { name: (*n).into(), flags: 3, ..Default::default() })).collect();
            for i in 0..3 {
                ch.extend(dot(i));
            }
            let b_ = file(&Header { width: 3, height: 1, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b_);
            let l = cmp::must_load(&b_)?;
            check_selection(&l, &l.af.select_layers_by_name(&[a]), &[true, a == b, true])?;
            check_selection(&l, &l.af.select_layers_by_name(&[b]), &[a == b, true, a == b])?;
            check_selection(&l, &l.af.select_layers_by_name(&[b, a, b]), &[true; 3])?;
            check_selection(&l, &l.af.select_layers(|l| l.name == b), &[a == b, true, a == b])?;
            Ok((a == b) as u64)
        }),
        Driver::new("names", 0, "selection by name: every assignment of names to four layers, every set of requested names", |c| {
            let names = ["", "a", "A", "ab"];
            let mut ch = vec![];
            let mut have = vec![];
            for i in 0..4usize {
                let k = c.all("name", names.len());
                have.push(names[k]);
                // Hidden layers and groups can be selected like any other.
                ch.push(layer(&Layer { name: names[k].into(), flags: (i != 1) as u16, ty: (i == 2) as u16, ..Default::default() }));
            }
            for i in 0..4 {
                ch.extend(dot(i));
            }
            let b = file(&Header { width: 4, height: 1, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let mut h = 0u64;
            for m in 0..16usize {
                let mut want: Vec<&str> = (0..4).filter(|i| m >> i & 1 == 1).map(|i| names[i]).collect();
                let exp: Vec<bool> = have.iter().map(|n| want.contains(n)).collect();
                for _ in 0..2 {
                    let sel = l.af.select_layers_by_name(&want);
                    check_selection(&l, &sel, &exp)?;
                    want.push("zz");
                    want.reverse();
                }
                h = h.rotate_left(3) ^ hash(&exp.iter().map(|x| *x as u8).collect::<Vec<_>>());
                c.count("name sets", 2);
            }
            Ok(h)
        }),
        Driver::new("many-names", 0, "selection by name: requests of up to 5000 names, one of them matching", |c| {
            const N: [usize; 28] = [
                1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 1000, 5000,
            ];
            let n = c.all_of("names", &N);
            let have = ["b", "B", "b ", "ab", "bb", "name 7", "", "\u{df}", "ss"];
            let k = c.all("wanted", have.len() + 1);
            let at = match c.all("place", 3) {
                0 => 0,
                1 => n / 2,
                _ => n - 1,
            };
            let twice = c.all("twice", 2) == 1;
            let others: Vec<String> = (0..n).map(|i| format!("other {}", i * 7919 % 5000)).collect();
            let mut want: Vec<&str> = others.iter().map(|s| s.as_str()).collect();
            if k < have.len() {
                want[at] = have[k];
                if twice {
                    want.push(have[k]);
                }
            }
            let mut ch: Vec<Vec<u8>> = have.iter().map(|n| layer(&Layer { name: n.as_bytes().to_vec(), ..Default::default() })).collect();
            for i in 0..4 {
                ch.extend(dot(i));
            }
            let b = file(&Header { width: 4, height: 1, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b);
            c.state ^= hash(&[k as u8, (n >> 8) as u8, n as u8, at as u8, (at >> 8) as u8, twice as u8]);
            let l = cmp::must_load(&b)?;
            let exp: Vec<bool> = (0..have.len()).map(|i| i == k).collect();
            check_selection(&l, &l.af.select_layers_by_name(&want), &exp)
        }),
        Driver::new("predicate", 0, "selection by predicate: it sees every layer, in order, and decides alone", |c| {
            let mut ch = vec![];
            for i in 0..4usize {
                let ty = c.all_of("type", &[0u16, 1, 2]);
                let flags = c.all("visible", 2) as u16;
                ch.push(layer(&Layer { ty, flags, opacity: 50 + i as u8, name: vec![b'a' + i as u8], ..Default::default() }));
            }
            for i in 0..4 {
                ch.extend(dot(i));
            }
            let b = file(&Header { width: 4, height: 1, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let mut h = 0u64;
            for m in 0..16usize {
                let exp: Vec<bool> = (0..4).map(|i| m >> i & 1 == 1).collect();
                let sel = l.af.select_layers(|x| m >> (x.opacity - 50) & 1 == 1);
                h = h.rotate_left(3) ^ check_selection(&l, &sel, &exp)?;
                c.count("predicates", 1);
            }
            let exp: Vec<bool> = l.s.layers.iter().map(|x| x.visible).collect();
            check_selection(&l, &l.af.select_layers(|x| x.visible), &exp)?;
            Ok(h)
        }),
        Driver::new("very-late", 0, "65536 layers: hidden layers and groups, masks and predicates around 8, 15 and 16-bit limits", |c| {
            const AT: [usize; 8] = [0, 255, 256, 32767, 32768, 65533, 65534, 65535];
            let i = c.all_of("layer", &AT);
            let k = c.all("marked by", 6);
            let mut ls = vec![Layer { name: vec![], ..Default::default() }; 65536];
            match k {
                0 => ls[i].flags = 2,
                1 => {
                    ls[i] = Layer { flags: 2, ty: 1, name: vec![], ..Default::default() };
                    ls[i + 1..].iter_mut().for_each(|l| l.level = 1);
                }
                2 => {
                    // The hidden group ends before the last layer.
                    ls[i] = Layer { flags: 2, ty: 1, name: vec![], ..Default::default() };
                    ls[i + 1..].iter_mut().for_each(|l| l.level = 1);
                    ls[65535].level = 0;
                }
                3 => ls[i].name = b"it".to_vec(),
                _ => {}
            }
            let mut ch: Vec<Vec<u8>> = ls.iter().map(layer).collect();
            for (n, at) in AT.iter().enumerate() {
                ch.push(cel(&image_cel(*at as u16, n as i16, 0, 1, 1, &[10 + n as u8, 200, 3, 255], false)));
            }
            let b = file(&Header { width: AT.len() as u16, height: 1, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let start = [7u8; 32];
            let exp: Vec<bool> = match k {
                0..=2 => return Ok(cmp::render(&l, 0, &Sel::Visible, &start)? ^ cmp::render(&l, 0, &Sel::All, &start)?),
                _ => (0..65536).map(|n| (n == i) == (k != 5)).collect(),
            };
            let sel = match k {
                3 => l.af.select_layers_by_name(&["it"]),
                _ => {
                    let n = std::cell::Cell::new(0);
                    l.af.select_layers(|_| {
                        n.set(n.get() + 1);
                        exp[n.get() - 1]
                    })
                }
            };
            let mut a = start;
            let got = l.af.render_frame(0, &mut a, &sel);
            cmp::rendered(&l.s, 0, &Sel::Mask(exp.clone()), &start, &a, 32, got)?;
            cmp::render(&l, 0, &Sel::Mask(exp), &start)
        }),
        Driver::new("late", 0, "masks on 300 layers", |c| {
            let i = c.all("layer", 300);
            let len = c.all_of("mask length", &[0usize, 1, 255, 256, 257, 299, 300, 301, 600]);
            let inverse = c.all("inverse", 2) == 1;
            let mut ch = vec![layer(&Layer::default()); 300];
            for i in 0..300 {
                ch.push(cel(&image_cel(i as u16, i as i16, 0, 1, 1, &[10, 200, i as u8, 255], false)));
            }
            let b = file(&Header { width: 300, height: 1, ..Default::default() }, &[Frame::new(ch)]);
            c.input(&b);
            let l = cmp::must_load(&b)?;
            let m: Vec<bool> = (0..len).map(|k| (k == i) != inverse).collect();
            cmp::render(&l, 0, &Sel::Mask(m), &[1; 1200])
        }),
    ]
}
/// A selection made by the crate renders exactly the layers it must mark.
fn check_selection(l: &cmp::Loaded<'_>, sel: &LayerSelection, exp: &[bool]) -> Res {
    let start = [7u8; 16];
    let mut a = start;
    let got = l.af.render_frame(0, &mut a, sel);
    let h = cmp::rendered(&l.s, 0, &Sel::Mask(exp.to_vec()), &start, &a, 16, got)?;
    if let LayerSelection::Mask(m) = sel {
        ensure!(
            (0..exp.len().max(m.len())).all(|i| m.get(i).copied().unwrap_or(false) == exp.get(i).copied().unwrap_or(false)),
            "the selection is {m:?}, expected {exp:?}"
        );
    }
    Ok(h)
}
