#![cfg_attr(not(feature = "inner"), allow(dead_code, unused_imports))]
#![cfg_attr(not(feature = "inner"), allow(dead_code))]
mod alloc;
mod checks;
mod cmp;
mod enc;
mod explore;
mod gen;
mod lift;
mod refblend;
mod refcomp;
mod refl;
mod refp;
mod steps;

use explore::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
/// Wall-clock budget of one exploration; reaching it is reported as an incomplete run.
fn budget(t: Tier) -> Duration {
    let d = match t {
        Tier::Quick => 400,
        Tier::Thorough => 3 * 3600,
    };
    let s = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    Duration::from_secs(s)
}
const HANG: Duration = Duration::from_secs(120);

fn root() -> PathBuf {
    std::env::var_os("MC_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o + "\""
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("run") => run(&a[2], Path::new(&a[3])),
        Some("one") => one(&a[2], &a[3], &a[4]),
        Some("replay") => replay(&a[2]),
        Some("list") => {
            for id in checks::IDS {
                for d in checks::drivers(id, tier()) {
                    println!("{id} {} bound={} {}", d.name, d.bound, d.what);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID | replay FILE | list");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

/// Parent: supervises the exploring child.
fn check(id: &str) -> i32 {
    if !checks::IDS.contains(&id) {
        eprintln!("unknown property {id}");
        return 2;
    }
    if id == "C32" && !steps::COUNTED {
        eprintln!("C32 needs the build that counts steps: use run.sh");
        return 2;
    }
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("mc-{}-{id}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let me = std::env::current_exe().unwrap();
    let mut ch = Command::new(&me).args(["run", id, dir.to_str().unwrap()]).spawn().expect("spawn");
    let mut seen: std::collections::HashMap<PathBuf, (u64, Instant)> = Default::default();
    let mut hung = false;
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed().as_secs() < 2 { 10 } else { 200 }));
        for (p, n, _, _) in journals(&dir) {
            if n == u64::MAX {
                seen.remove(&p);
                continue;
            }
            let e = seen.entry(p).or_insert((n, Instant::now()));
            if e.0 != n {
                *e = (n, Instant::now());
            } else if e.1.elapsed() > HANG {
                hung = true;
            }
        }
        if hung {
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
    };
    let code = match status.code() {
        Some(c @ (0 | 1)) if !hung => c,
        Some(2) if !hung => 2,
        _ => crashed(id, &dir, status, hung, start),
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

type J = (PathBuf, u64, u32, Vec<u32>);
fn journals(dir: &Path) -> Vec<J> {
    let mut v = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if !e.file_name().to_string_lossy().starts_with('w') {
            continue;
        }
        let Ok(b) = std::fs::read(e.path()) else { continue };
        if b.len() < 8 {
            continue;
        }
        let n = u64::from_le_bytes(b[..8].try_into().unwrap());
        if b.len() < 16 {
            v.push((e.path(), n, 0, vec![]));
            continue;
        }
        let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
        let len = (u(12) as usize).min((b.len() - 16) / 4);
        v.push((e.path(), n, u(8), (0..len).map(|k| u(16 + 4 * k)).collect()));
    }
    v
}

/// The child died or hung: find the execution that does it, one by one.
fn crashed(id: &str, dir: &Path, status: std::process::ExitStatus, hung: bool, start: Instant) -> i32 {
    let me = std::env::current_exe().unwrap();
    let mut js_: Vec<J> = journals(dir).into_iter().filter(|j| j.1 != u64::MAX).collect();
    js_.sort_by_key(|j| j.3.len());
    for (_, _, d, choices) in js_ {
        let c = choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
        let mut p = Command::new(&me)
            .args(["one", id, &format!("#{d}"), &format!("[{c}]")])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let t = Instant::now();
        let why = loop {
            if let Some(s) = p.try_wait().unwrap() {
                break match s.code() {
                    Some(0) | Some(1) | Some(2) => None,
                    _ => Some(format!("the process died ({s}): abort, stack overflow or runaway allocation")),
                };
            }
            if t.elapsed() > HANG {
                let _ = p.kill();
                let _ = p.wait();
                break Some(format!("no answer within {} s", HANG.as_secs()));
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        if let Some(why) = why {
            let ds = checks::drivers(id, tier());
            let v = Violation {
                driver: ds[d as usize].name.into(),
                choices,
                labels: vec![],
                msg: why,
                input: vec![],
                note: String::new(),
                devs: 0,
                deterministic: true,
            };
            let path = write_replay(id, &v);
            write_evidence(id, &[], 1, start.elapsed().as_secs_f64(), Some(&v.msg));
            println!("{}: {}", v.driver, v.msg);
            println!("VIOLATION property={id} replay={path}");
            return 1;
        }
    }
    // Aborts and invalid memory accesses that depend on what ran before are still the code's.
    // (A kill from outside, for instance for lack of memory, is not.)
    use std::os::unix::process::ExitStatusExt;
    if let Some(sig @ (4 | 6 | 7 | 8 | 11)) = status.signal() {
        if !hung {
            let ds = checks::drivers(id, tier());
            let last = journals(dir).into_iter().next();
            let v = Violation {
                driver: last.as_ref().map_or("?", |j| ds.get(j.2 as usize).map_or("?", |d| d.name)).into(),
                choices: last.map_or(vec![], |j| j.3),
                labels: vec![],
                msg: format!("the exploring process died with signal {sig}; single executions do not reproduce it"),
                input: vec![],
                note: String::new(),
                devs: 0,
                deterministic: false,
            };
            let path = write_replay(id, &v);
            write_evidence(id, &[], 1, start.elapsed().as_secs_f64(), Some(&v.msg));
            println!("{}: {}", v.driver, v.msg);
            println!("VIOLATION property={id} replay={path}");
            return 1;
        }
    }
    eprintln!("{id}: exploring process {} but no execution reproduces it", if hung { "hung" } else { "died" });
    2
}

/// Child: explores every driver of the check.
fn run(id: &str, dir: &Path) -> i32 {
    install_hook();
    let start = Instant::now();
    let deadline = start + budget(tier());
    let j = Journal { dir: Some(dir.to_path_buf()) };
    let only = std::env::var("MC_DRIVER").ok();
    let mut all: Vec<(Driver, Stats)> = vec![];
    for (i, d) in checks::drivers(id, tier()).into_iter().enumerate() {
        if only.as_ref().map_or(false, |o| o != d.name) {
            continue;
        }
        let s = explore(&d, i, &j, deadline);
        println!(
            "{id} {:<22} bound={} executions={} states={} transitions={} outcomes={} {:.1}s{}",
            d.name,
            d.bound,
            s.executions,
            s.states,
            s.transitions,
            s.outcomes,
            s.wall,
            if s.capped { " INCOMPLETE (time budget)" } else { "" }
        );
        for (k, v) in &s.counters {
            println!("    {k} = {v}");
        }
        if let Some(m) = &s.internal {
            eprintln!("internal error: {m}");
            return 2;
        }
        let v = s.violation.clone();
        all.push((d, s));
        if let Some(v) = v {
            if !v.deterministic {
                eprintln!("{id}: not reproducible: {} {}", v.driver, v.msg);
                // A result that changes between identical calls breaks the property as well.
            }
            let path = write_replay(id, &v);
            write_evidence(id, &all, 1, start.elapsed().as_secs_f64(), None);
            println!("{}: {}", v.driver, v.msg);
            for (l, c, n) in v.labels.iter().filter(|l| l.1 != 0).take(20) {
                println!("    {l} = {c} of {n}");
            }
            println!("VIOLATION property={id} replay={path}");
            return 1;
        }
    }
    write_evidence(id, &all, 0, start.elapsed().as_secs_f64(), None);
    0
}

fn write_replay(id: &str, v: &Violation) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}.json"));
    let labels: Vec<String> =
        v.labels.iter().filter(|l| l.1 != 0).map(|(l, c, n)| js(&format!("{l}={c}/{n}"))).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"driver\": {},\n \"tier\": {},\n \"choices\": {:?},\n \"message\": {},\n \"deviations\": [{}],\n \"note\": {},\n \"input_hex\": {}\n}}\n",
        js(id),
        js(&v.driver),
        js(if tier() == Tier::Quick { "quick" } else { "thorough" }),
        v.choices,
        js(&v.msg),
        labels.join(", "),
        js(&v.note),
        js(&hex(&v.input[..v.input.len().min(1 << 16)]))
    );
    let _ = std::fs::write(&p, s);
    p.display().to_string()
}

fn write_evidence(id: &str, all: &[(Driver, Stats)], violations: u32, wall: f64, note: Option<&str>) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let sum = |f: fn(&Stats) -> u64| all.iter().map(|(_, s)| f(s)).sum::<u64>();
    let mut samples: Vec<String> = vec![];
    let mut ds: Vec<String> = vec![];
    for (d, s) in all {
        for x in s.samples.iter().take(2) {
            samples.push(js(&format!("{}: {x}", d.name)));
        }
        let cs: Vec<String> = s.counters.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
        ds.push(format!(
            "{{\"driver\": {}, \"explores\": {}, \"deviation_bound\": {}, \"alphabet\": {}, \"executions\": {}, \"executions_by_deviations\": {:?}, \"states\": {}, \"transitions\": {}, \"distinct_outcomes\": {}, \"longest_choice_sequence\": {}, \"complete\": {}, \"wall_s\": {:.2}, \"counters\": {{{}}}}}",
            js(d.name), js(d.what), d.bound, js(if d.alpha == Alpha::Wide { "wide" } else { "narrow" }),
            s.executions, s.by_devs, s.states, s.transitions, s.outcomes, s.max_points, !s.capped && s.violation.is_none(), s.wall, cs.join(", ")
        ));
    }
    if samples.is_empty() {
        samples.push(js(note.unwrap_or("none")));
    }
    let complete = violations == 0 && !all.is_empty() && all.iter().all(|(_, s)| !s.capped);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {complete},\n  \"samples\": [{}],\n  \"binding\": \"every execution of the choice tree runs the crate built from /repo's working tree and compares its complete result with the reference model\",\n  \"drivers\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        js(id),
        js(if tier() == Tier::Quick { "quick" } else { "thorough" }),
        sum(|s| s.states),
        sum(|s| s.transitions),
        sum(|s| s.executions),
        samples.join(", "),
        ds.join(",\n   "),
        checks::ASSUMPTIONS.iter().map(|a| js(a)).collect::<Vec<_>>().join(", ")
    );
    std::fs::write(dir.join(format!("{id}.json")), s).expect("evidence");
}

fn find(id: &str, which: &str) -> Option<Driver> {
    let ds = checks::drivers(id, tier());
    if let Some(i) = which.strip_prefix('#') {
        return ds.into_iter().nth(i.parse().ok()?);
    }
    ds.into_iter().find(|d| d.name == which)
}
fn nums(s: &str) -> Vec<u32> {
    s.trim_matches(['[', ']', ' ']).split(',').filter_map(|x| x.trim().parse().ok()).collect()
}
fn one(id: &str, which: &str, choices: &str) -> i32 {
    install_hook();
    let d = find(id, which).expect("driver");
    let c = nums(choices);
    let stack = d.stack;
    std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || match run_one(&d, c, true) {
            (ctx, Outcome::Ok(h)) => {
                println!("ok outcome={h:x} {}", describe(&ctx, devs_of(&ctx.trace)));
                0
            }
            (ctx, Outcome::Bad(m)) => {
                println!("violation: {m}\n{}\ninput {}", describe(&ctx, devs_of(&ctx.trace)), lim(&hex(&ctx.input)));
                1
            }
            (_, Outcome::Internal(m)) => {
                println!("internal: {m}");
                2
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2)
}
fn lim(s: &str) -> &str {
    &s[..s.len().min(4000)]
}
fn replay(f: &str) -> i32 {
    let s = std::fs::read_to_string(f).expect("replay file");
    let get = |k: &str| {
        let i = s.find(&format!("\"{k}\":")).unwrap() + k.len() + 3;
        s[i..].lines().next().unwrap().trim().trim_end_matches(',').trim_matches('"').to_string()
    };
    std::env::set_var("VERIF_TIER", get("tier"));
    let id = get("property");
    println!("{} {}: {}", id, get("driver"), get("message"));
    one(&id, &get("driver"), &get("choices"))
}
