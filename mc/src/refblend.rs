//! Reference model, part 3: Aseprite's RGBA blenders (src/doc/blend_funcs.cpp),
//! written in 32-bit integer arithmetic.
//!
//! Two formulas go through floating point (soft light and the HSL family).  For
//! those the value before truncation is computed in double precision and, if it
//! lies within EPS of an integer, every result is accepted that some other order
//! of evaluating the same formula in double precision gives.
pub type Px = [u8; 4];
const EPS: f64 = 1e-9;

pub const NAMES: [&str; 19] = [
    "normal", "multiply", "screen", "overlay", "darken", "lighten", "color-dodge", "color-burn", "hard-light",
    "soft-light", "difference", "exclusion", "hue", "saturation", "color", "luminosity", "addition", "subtract",
    "divide",
];
pub const SEPARABLE: [u8; 15] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 18];
pub const HSL: [u8; 4] = [12, 13, 14, 15];

pub fn mul_un8(a: i32, b: i32) -> i32 {
    let t = a * b + 0x80;
    ((t >> 8) + t) >> 8
}
fn div_un8(a: i32, b: i32) -> i32 {
    (a * 255 + b / 2) / b
}

pub fn normal(b: Px, s: Px, op: u8) -> Px {
    if b[3] == 0 {
        return [s[0], s[1], s[2], mul_un8(s[3] as i32, op as i32) as u8];
    }
    if s[3] == 0 {
        return b;
    }
    let ba = b[3] as i32;
    let sa = mul_un8(s[3] as i32, op as i32);
    let ra = sa + ba - mul_un8(ba, sa);
    let ch = |i: usize| {
        let (bc, sc) = (b[i] as i32, s[i] as i32);
        (bc + (sc - bc) * sa / ra) as u8
    };
    [ch(0), ch(1), ch(2), ra as u8]
}

fn merge(b: Px, s: Px, op: u8) -> Px {
    let lerp = |x: u8, y: u8| (x as i32 + mul_un8(y as i32 - x as i32, op as i32)) as u8;
    let a = lerp(b[3], s[3]);
    if a == 0 {
        return [0; 4];
    }
    let rgb = |i: usize| {
        if b[3] == 0 {
            s[i]
        } else if s[3] == 0 {
            b[i]
        } else {
            lerp(b[i], s[i])
        }
    };
    [rgb(0), rgb(1), rgb(2), a]
}

/// The "new layer blend" combination of normal and mode blending.
/// `mixed` is the source colour after the mode's colour formula.
fn combine(b: Px, s: Px, op: u8, mixed: Px) -> Px {
    let n = normal(b, s, op);
    let m = normal(b, mixed, op);
    let nm = merge(n, m, b[3]);
    let total = mul_un8(s[3] as i32, op as i32);
    let comp = mul_un8(b[3] as i32, total);
    merge(nm, m, comp as u8)
}

fn multiply(b: i32, s: i32) -> i32 {
    mul_un8(b, s)
}
fn screen(b: i32, s: i32) -> i32 {
    b + s - mul_un8(b, s)
}
fn hard(b: i32, s: i32) -> i32 {
    if s < 128 {
        multiply(b, s * 2)
    } else {
        screen(b, s * 2 - 255)
    }
}
/// Orders of evaluation of the soft light formula; 0 is Aseprite's.
const SOFT: usize = 8;
fn soft(b: i32, s: i32, k: usize) -> f64 {
    let f = |v: i32| if k & 1 == 0 { v as f64 / 255.0 } else { v as f64 * (1.0 / 255.0) };
    let (b, s) = (f(b), f(s));
    let d = if b <= 0.25 {
        if k & 2 == 0 {
            ((16.0 * b - 12.0) * b + 4.0) * b
        } else {
            16.0 * b * b * b - 12.0 * b * b + 4.0 * b
        }
    } else {
        b.sqrt()
    };
    let r = match (s <= 0.5, k & 4 == 0) {
        (true, true) => b - (1.0 - 2.0 * s) * b * (1.0 - b),
        (true, false) => b - (1.0 - 2.0 * s) * (b * (1.0 - b)),
        (false, true) => b + (2.0 * s - 1.0) * (d - b),
        (false, false) => (2.0 * s - 1.0).mul_add(d - b, b),
    };
    r * 255.0 + 0.5
}
/// Channel formula of the separable modes other than normal and soft light.
pub fn channel(mode: u8, b: i32, s: i32) -> i32 {
    match mode {
        1 => multiply(b, s),
        2 => screen(b, s),
        3 => hard(s, b),
        4 => b.min(s),
        5 => b.max(s),
        6 => {
            if b == 0 {
                0
            } else if b >= 255 - s {
                255
            } else {
                div_un8(b, 255 - s)
            }
        }
        7 => {
            if b == 255 {
                255
            } else if 255 - b >= s {
                0
            } else {
                255 - div_un8(255 - b, s)
            }
        }
        8 => hard(b, s),
        10 => (b - s).abs(),
        11 => b + s - 2 * mul_un8(b, s),
        16 => (b + s).min(255),
        17 => (b - s).max(0),
        18 => {
            if b == 0 {
                0
            } else if b >= s {
                255
            } else {
                div_un8(b, s)
            }
        }
        _ => unreachable!(),
    }
}

/// The truncated value; near an integer, every value that a differently
/// ordered evaluation of the same formula in double precision may give.
fn candidates(v: f64, variants: impl Iterator<Item = f64>) -> (u8, u8) {
    let floor = |v: f64| v.floor().clamp(0.0, 255.0) as u8;
    let n = floor(v);
    if (v - v.round()).abs() > EPS {
        return (n, n);
    }
    variants.map(floor).fold((n, n), |(lo, hi), n| (lo.min(n), hi.max(n)))
}

/// The source colour after the mode's colour formula: per channel, the lowest
/// and highest admissible value.
pub fn mixed(mode: u8, b: Px, s: Px) -> [(u8, u8); 3] {
    match mode {
        0 => [0, 1, 2].map(|i| (s[i], s[i])),
        9 => [0, 1, 2].map(|i| {
            let (b, s) = (b[i] as i32, s[i] as i32);
            candidates(soft(b, s, 0), (1..SOFT).map(|k| soft(b, s, k)))
        }),
        12..=15 => {
            let c = hsl(mode, b, s, 0);
            let near = c.iter().any(|v| (v - v.round()).abs() <= EPS);
            let v: [C3; HSLS] = std::array::from_fn(|k| if near && k > 0 { hsl(mode, b, s, k) } else { c });
            std::array::from_fn(|i| candidates(c[i], v.iter().map(|v| v[i])))
        }
        m => [0, 1, 2].map(|i| {
            let v = channel(m, b[i] as i32, s[i] as i32) as u8;
            (v, v)
        }),
    }
}

type C3 = [f64; 3];
/// Orders of evaluation of the HSL formulas; 0 is Aseprite's.
const HSLS: usize = 24;
fn lum(c: C3, k: usize) -> f64 {
    let [r, g, b] = [0.3 * c[0], 0.59 * c[1], 0.11 * c[2]];
    match k % 4 {
        0 => r + g + b,
        1 => r + (g + b),
        2 => r + b + g,
        _ => 0.3f64.mul_add(c[0], 0.59f64.mul_add(c[1], b)),
    }
}
fn minf(x: f64, y: f64) -> f64 {
    if x < y {
        x
    } else {
        y
    }
}
fn maxf(x: f64, y: f64) -> f64 {
    if x > y {
        x
    } else {
        y
    }
}
fn sat(c: C3) -> f64 {
    maxf(c[0], maxf(c[1], c[2])) - minf(c[0], minf(c[1], c[2]))
}
fn set_lum(c: C3, l: f64, k: usize, one: f64) -> C3 {
    let d = l - lum(c, k);
    let mut c = c.map(|v| v + d);
    let l = lum(c, k);
    let n = minf(c[0], minf(c[1], c[2]));
    let x = maxf(c[0], maxf(c[1], c[2]));
    // Out of gamut only by rounding: the exact value is the boundary itself.
    let tiny = if k < 4 { 0.0 } else { 1e-9 * one };
    let scale = |v: f64, num: f64, den: f64| if k / 4 % 2 == 0 { v * num / den } else { v * (num / den) };
    if n < -tiny {
        c = c.map(|v| l + scale(v - l, l, l - n));
    }
    if x > one + tiny {
        c = c.map(|v| l + scale(v - l, one - l, x - l));
    }
    c
}
/// Aseprite's set_sat with its MIN/MID/MAX reference macros, which may name the
/// same channel twice when channels are equal.
fn set_sat(c: C3, s: f64, k: usize) -> C3 {
    let (r, g, b) = (c[0], c[1], c[2]);
    let min = {
        let m = if g < b { 1 } else { 2 };
        if r < c[m] {
            0
        } else {
            m
        }
    };
    let max = {
        let m = if g > b { 1 } else { 2 };
        if r > c[m] {
            0
        } else {
            m
        }
    };
    let mid = if r > g {
        if g > b {
            1
        } else if r > b {
            2
        } else {
            0
        }
    } else if g > b {
        if b > r {
            2
        } else {
            0
        }
    } else {
        1
    };
    let mut o = c;
    if o[max] > o[min] {
        let (num, den) = (o[mid] - o[min], o[max] - o[min]);
        o[mid] = if k / 4 % 2 == 0 { num * s / den } else { num * (s / den) };
        o[max] = s;
    } else {
        o[mid] = 0.0;
        o[max] = 0.0;
    }
    o[min] = 0.0;
    o
}
/// The colour scaled to 0..255, before truncation.
fn hsl(mode: u8, b: Px, s: Px, k: usize) -> C3 {
    let norm = k / 8;
    let f = |p: Px| {
        [p[0], p[1], p[2]].map(|v| match norm {
            0 => v as f64 / 255.0,
            1 => v as f64 * (1.0 / 255.0),
            _ => v as f64,
        })
    };
    let one = if norm == 2 { 255.0 } else { 1.0 };
    let (b, s) = (f(b), f(s));
    let c = match mode {
        12 => set_lum(set_sat(s, sat(b), k), lum(b, k), k, one),
        13 => set_lum(set_sat(b, sat(s), k), lum(b, k), k, one),
        14 => set_lum(s, lum(b, k), k, one),
        15 => set_lum(b, lum(s, k), k, one),
        _ => unreachable!(),
    };
    c.map(|v| v * (255.0 / one))
}

/// Is `got` an admissible result of blending?
pub fn admissible(mode: u8, b: Px, s: Px, op: u8, got: Px) -> bool {
    if mode == 0 || b[3] == 0 {
        return got == normal(b, s, op);
    }
    // Aseprite's own order of evaluation first.
    let floor = |v: f64| v.floor().clamp(0.0, 255.0) as u8;
    let own = match mode {
        9 => Some([0, 1, 2].map(|i| floor(soft(b[i] as i32, s[i] as i32, 0)))),
        12..=15 => Some(hsl(mode, b, s, 0).map(floor)),
        _ => None,
    };
    if own.is_some_and(|c| got == combine(b, s, op, [c[0], c[1], c[2], s[3]])) {
        return true;
    }
    let m = mixed(mode, b, s);
    let lo = combine(b, s, op, [m[0].0, m[1].0, m[2].0, s[3]]);
    if got == lo {
        return true;
    }
    if m.iter().all(|c| c.0 == c.1) {
        return false;
    }
    // Channels are independent from here on, so each may take either value.
    let hi = combine(b, s, op, [m[0].1, m[1].1, m[2].1, s[3]]);
    got[3] == lo[3] && (0..3).all(|i| got[i] == lo[i] || got[i] == hi[i])
}

/// All admissible results (normally exactly one).
pub fn blend_all(mode: u8, b: Px, s: Px, op: u8) -> Vec<Px> {
    if mode == 0 || b[3] == 0 {
        return vec![normal(b, s, op)];
    }
    let m = mixed(mode, b, s);
    let lo = combine(b, s, op, [m[0].0, m[1].0, m[2].0, s[3]]);
    let hi = combine(b, s, op, [m[0].1, m[1].1, m[2].1, s[3]]);
    let mut v = vec![lo];
    for i in 0..3 {
        if lo[i] != hi[i] {
            for k in 0..v.len() {
                let mut p = v[k];
                p[i] = hi[i];
                v.push(p);
            }
        }
    }
    v
}
pub fn blend(mode: u8, b: Px, s: Px, op: u8) -> Px {
    blend_all(mode, b, s, op)[0]
}
