//! The drivers of ../mc, compiled for a 32-bit platform (wasm32) and explored
//! by run.mjs, which owns the queue of unexplored subtrees.
#![allow(dead_code, unused_imports, static_mut_refs)]
#[path = "../../mc/src/alloc.rs"]
mod alloc;
#[path = "../../mc/src/checks/mod.rs"]
mod checks;
#[path = "../../mc/src/cmp.rs"]
mod cmp;
#[path = "../../mc/src/enc.rs"]
mod enc;
#[path = "../../mc/src/explore.rs"]
mod explore;
#[path = "../../mc/src/gen.rs"]
mod gen;
#[path = "../../mc/src/lift.rs"]
mod lift;
#[path = "../../mc/src/refblend.rs"]
mod refblend;
#[path = "../../mc/src/refcomp.rs"]
mod refcomp;
#[path = "../../mc/src/refl.rs"]
mod refl;
#[path = "../../mc/src/refp.rs"]
mod refp;
#[path = "../../mc/src/steps.rs"]
mod steps;

use explore::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

// One thread; the host reads these buffers, also after a trap.
static mut DRIVERS: Vec<(&'static str, Driver)> = Vec::new();
static mut IN: Vec<u32> = Vec::new();
static mut OUT: Vec<u8> = Vec::new();
static mut CUR: Vec<u32> = Vec::new();
static mut PANIC: Vec<u8> = Vec::new();

#[no_mangle]
pub extern "C" fn init(thorough: u32) -> u32 {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        unsafe { PANIC = format!("{loc}: {msg}").into_bytes() };
    }));
    let mut all: Vec<(&'static str, Driver)> = vec![];
    for t in [Tier::Quick, Tier::Thorough] {
        for id in checks::IDS {
            // C20 needs threads, C32 a count of steps.
            if id != "C20" && id != "C32" && (t == Tier::Quick || thorough == 1) {
                all.extend(checks::drivers(id, t).into_iter().map(|d| (id, d)));
            }
        }
    }
    unsafe {
        DRIVERS = all;
        DRIVERS.len() as u32
    }
}
fn put(s: &mut Vec<u8>, v: u32) {
    s.extend(v.to_le_bytes());
}
/// Driver `i` in words: property, name, bound and description.
#[no_mangle]
pub extern "C" fn info(i: u32) {
    unsafe {
        let (id, d) = &DRIVERS[i as usize];
        OUT = format!("{id}\t{}\t{}\t{}", d.name, d.bound, d.what).into_bytes();
    }
}
#[no_mangle]
pub extern "C" fn room(n: u32) -> *mut u32 {
    unsafe {
        IN = vec![0; n as usize];
        IN.as_mut_ptr()
    }
}
#[no_mangle]
pub extern "C" fn out(which: u32, end: u32) -> u32 {
    unsafe {
        let (p, n) = match which {
            0 => (OUT.as_ptr() as usize, OUT.len()),
            1 => (PANIC.as_ptr() as usize, PANIC.len()),
            _ => (CUR.as_ptr() as usize, CUR.len() * 4),
        };
        (if end == 0 { p } else { p + n }) as u32
    }
}

struct Item {
    base: Arc<Vec<u32>>,
    next: u32,
    end: u32,
    devs: u32,
}
/// Explores up to `max` executions of the subtrees in IN: for each the choices before
/// the point of divergence, the alternatives there and the deviations used.
/// Answers 0 (OUT holds what is left and what was seen), 1 (OUT holds a
/// violation) or 2 (OUT holds an error of the check itself).
#[no_mangle]
pub extern "C" fn task(driver: u32, max: u32) -> u32 {
    let (d, words) = unsafe { (&DRIVERS[driver as usize].1, &IN[..]) };
    let mut local: Vec<Item> = vec![];
    let mut at = 0;
    while at < words.len() {
        let n = words[at + 3] as usize;
        local.push(Item {
            next: words[at],
            end: words[at + 1],
            devs: words[at + 2],
            base: Arc::new(words[at + 4..at + 4 + n].to_vec()),
        });
        at += 4 + n;
    }
    let (mut executions, mut transitions, mut points) = (0u32, 0u32, 0u32);
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut sample = String::new();
    while executions < max {
        let Some(item) = local.pop() else { break };
        let prefix = if item.next == u32::MAX {
            vec![]
        } else {
            let mut p = Vec::with_capacity(item.base.len() + 1);
            p.extend_from_slice(&item.base);
            p.push(item.next);
            if item.next + 1 < item.end {
                local.push(Item { base: item.base.clone(), next: item.next + 1, end: item.end, devs: item.devs });
            }
            p
        };
        unsafe {
            CUR.clear();
            CUR.extend_from_slice(&prefix);
            PANIC.clear();
        }
        let plen = prefix.len();
        let (ctx, o) = run_plain(d, prefix);
        executions += 1;
        transitions += (ctx.trace.len() - plen.saturating_sub(1).min(ctx.trace.len())) as u32;
        points = points.max(ctx.trace.len() as u32);
        for (k, v) in &ctx.counters {
            *counters.entry(k).or_insert(0) += v;
        }
        states.insert(ctx.state);
        let choices: Vec<u32> = ctx.trace.iter().map(|p| p.choice).collect();
        let out = unsafe { &mut OUT };
        match o {
            Outcome::Ok(h) => {
                outcomes.insert(h);
                let devs = devs_of(&ctx.trace);
                if sample.is_empty() && (devs > 0 || d.bound == 0) {
                    sample = describe(&ctx, devs);
                }
            }
            Outcome::Bad(m) => {
                *out = format!("{m}\n{choices:?}\n{}", describe(&ctx, devs_of(&ctx.trace))).into_bytes();
                return 1;
            }
            Outcome::Internal(m) => {
                *out = format!("{m} choices={choices:?}").into_bytes();
                return 2;
            }
        }
        let mut dv = devs_of(&ctx.trace[..plen]);
        for i in plen..ctx.trace.len() {
            let p = ctx.trace[i];
            let cost = dv + p.cost as u32;
            if p.n > 1 && cost <= d.bound {
                local.push(Item { base: Arc::new(choices[..i].to_vec()), next: 1, end: p.n, devs: cost });
            }
            if p.cost && p.choice != 0 {
                dv += 1;
            }
        }
    }
    let o = unsafe { &mut OUT };
    o.clear();
    for v in [executions, transitions, points, states.len() as u32, outcomes.len() as u32, local.len() as u32] {
        put(o, v);
    }
    for h in states.iter().chain(&outcomes) {
        o.extend(h.to_le_bytes());
    }
    for i in &local {
        for v in [i.next, i.end, i.devs, i.base.len() as u32] {
            put(o, v);
        }
        for v in i.base.iter() {
            put(o, *v);
        }
    }
    o.extend(sample.as_bytes());
    for (k, v) in counters {
        o.extend(format!("\n{k}\t{v}").as_bytes());
    }
    0
}
