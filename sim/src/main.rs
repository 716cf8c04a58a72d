//! Deterministic simulation of the closure-to-function-pointer library. One process executes many
//! runs; each run is a forked child decided entirely by its seed (or by recorded decisions).

#![cfg_attr(feature = "lane-nightly", feature(c_variadic))]
#![allow(static_mut_refs, dangerous_implicit_autorefs, improper_ctypes_definitions, clippy::all)]

mod alloc;
mod builtin;
mod crash;
mod heap;
mod hold;
mod interpose;
mod props;
mod raw;
#[macro_use]
mod rt;
mod sched;
mod shapes;
mod simjit;
mod sys;
mod vals;
mod world;

use rt::{sh, NSTREAM, ST_HARNESS, ST_KNOWN, ST_OK, ST_RUNNING, ST_VIOLATION};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;

#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
fn warm_up() {
    use iced_x86::{Decoder, DecoderOptions, Encoder, InstructionInfoFactory};
    let bits = if cfg!(target_arch = "x86_64") { 64 } else { 32 };
    let code = [0x55u8, 0x89, 0xe5, 0xeb, 0x00, 0x5d, 0xc3];
    let mut f = InstructionInfoFactory::new();
    let mut e = Encoder::new(bits);
    for i in &mut Decoder::with_ip(bits, &code, 0x1000, DecoderOptions::NONE) {
        let _ = f.info(&i);
        let _ = e.encode(&i, 0x1000);
    }
}
#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
fn warm_up() {}

struct Outcome {
    status: u32,
    oracle: u32,
    msg: String,
}

type Streams = Vec<Vec<u32>>;

fn child(prop: u32, eligible: &[u16]) -> ! {
    crash::install();
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        libc::alarm(120);
    }
    heap::activate();
    world::run(prop, eligible);
    rt::finish(ST_OK, 0, format_args!(""))
}

fn run_one(prop: u32, seed: u64, eligible: &[u16], given: Option<&Streams>) -> Outcome {
    rt::begin_run(prop, seed, given);
    let st = unsafe {
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            child(prop, eligible);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        st
    };
    let s = sh();
    let mut o = Outcome {
        status: s.status,
        oracle: s.oracle,
        msg: String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned(),
    };
    if s.status == ST_RUNNING {
        let ph = rt::PH_NAMES.get(s.phase as usize).copied().unwrap_or("?");
        o.status = ST_VIOLATION;
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGALRM || sig == libc::SIGXCPU || (sig == libc::SIGKILL && s.phase != 0) {
                o.oracle = rt::O::Progress as u32;
                o.msg = format!("the run hangs during {}", ph);
            } else {
                o.oracle = rt::O::Crash as u32;
                o.msg = format!("the process died by signal {} during {}", sig, ph);
            }
        } else {
            o.oracle = rt::O::Crash as u32;
            o.msg = format!("the process exited during {}", ph);
        }
    }
    o
}

fn streams() -> Streams {
    let s = sh();
    (0..NSTREAM).map(|i| s.streams[i][..s.pos[i].min(s.lens[i]) as usize].to_vec()).collect()
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' | '\\' => {
                o.push('\\');
                o.push(ch);
            }
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn events() -> Vec<String> {
    let s = sh();
    let n = s.ev_count;
    let from = n.saturating_sub(rt::EV_CAP as u64);
    (from..n)
        .map(|i| {
            let e = s.ev[i as usize % rt::EV_CAP];
            let name = rt::ek::NAMES.get(e.kind as usize).copied().unwrap_or("?");
            let extra = if e.kind == rt::ek::CREATE {
                format!(" [{}]", shapes::table::SHAPES[e.b as usize].name)
            } else {
                String::new()
            };
            format!("t{} {} {} {}{}", e.tid, name, e.a, e.b, extra)
        })
        .collect()
}

fn eligible(prop: u32) -> Vec<u16> {
    let v: Vec<u16> = (0..shapes::table::SHAPES.len())
        .filter(|i| props::eligible(prop, &shapes::table::SHAPES[*i]))
        .map(|i| i as u16)
        .collect();
    if v.is_empty() {
        eprintln!("no eligible shape");
        std::process::exit(2);
    }
    v
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|v| v.parse().unwrap_or_else(|_| panic!("bad {k}"))).unwrap_or(d)
    }
}

fn seed_of(base: u64, i: u64) -> u64 {
    rt::mix2(base, i) >> 1
}

/// Runs seeds `first, first+stride, ..` and writes a summary.
fn worker(a: &Args) -> i32 {
    let prop = a.num("--prop", 1) as u32;
    let base = a.num("--base", 1);
    let first = a.num("--first", 0);
    let stride = a.num("--stride", 1);
    let count = a.num("--count", 100);
    let limit = a.num("--limit", 600);
    let out = a.get("--out").expect("--out").to_string();
    let t0 = std::time::Instant::now();
    let el = eligible(prop);
    let mut stats = vec![0u64; rt::NSTAT];
    let mut runs = 0u64;
    let mut nontriv = 0u64;
    let mut events_total = 0u64;
    let mut hist: HashSet<u64> = HashSet::new();
    let mut inter: HashSet<u64> = HashSet::new();
    let mut seen = vec![0u8; 4096];
    let mut known: Vec<(u64, String)> = vec![];
    let mut nknown = 0u64;
    let mut truncated = 0u64;
    let mut violation = String::new();
    let mut samples: Vec<String> = vec![];
    let mut i = first;
    let mut done = 0;
    while done < count {
        if t0.elapsed().as_secs() >= limit {
            break;
        }
        let seed = seed_of(base, i);
        let o = run_one(prop, seed, &el, None);
        let s = sh();
        runs += 1;
        done += 1;
        events_total += s.ev_count;
        for j in 0..rt::NSTAT {
            if j == rt::Stat::multi_live_max as usize {
                stats[j] = stats[j].max(s.stats[j]);
            } else {
                stats[j] += s.stats[j];
            }
        }
        for j in 0..4096 {
            seen[j] |= s.shape_seen[j];
        }
        if s.overflow != 0 {
            truncated += 1;
        }
        if o.status == ST_HARNESS {
            eprintln!("harness error: prop {} seed {}: {}", prop, seed, o.msg);
            return 2;
        }
        if o.status == ST_KNOWN {
            nknown += 1;
            if known.len() < 3 {
                known.push((seed, o.msg.clone()));
            }
        }
        if props::nontrivial(prop) {
            nontriv += 1;
            if hist.len() < 3_000_000 {
                hist.insert(s.hist_hash);
                inter.insert(s.sched_hash);
            }
            if samples.len() < 2 && o.status == ST_OK {
                let ev = events();
                samples.push(format!(
                    "seed {}: {} events: {}",
                    seed,
                    s.ev_count,
                    ev.iter().take(24).cloned().collect::<Vec<_>>().join("; ")
                ));
            }
        }
        if o.status == ST_VIOLATION {
            // The same decisions must give the same result.
            let st = streams();
            let again = run_one(prop, seed, &el, None);
            let third = run_one(prop, seed, &el, Some(&st));
            if again.status != ST_VIOLATION || third.status != ST_VIOLATION || again.msg != o.msg {
                eprintln!(
                    "violation of seed {} did not reproduce: {} / {} / {}",
                    seed, o.msg, again.msg, third.msg
                );
                return 2;
            }
            violation = format!(
                "{{\"seed\":{},\"index\":{},\"oracle\":\"{}\",\"message\":\"{}\"}}",
                seed,
                i,
                rt::ORACLE_NAMES[o.oracle as usize],
                esc(&o.msg)
            );
            break;
        }
        i += stride;
    }
    let mut j = String::new();
    let _ = write!(j, "{{\"runs\":{},\"nontrivial\":{},\"events\":{},\"truncated\":{},\"wall\":{:.3},", runs, nontriv, events_total, truncated, t0.elapsed().as_secs_f64());
    let _ = write!(j, "\"eligible_shapes\":{},\"shapes_seen\":[{}],", el.len(), (0..4096).filter(|i| seen[*i] != 0).map(|i| i.to_string()).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"known\":{},\"known_examples\":[{}],", nknown, known.iter().map(|k| format!("{{\"seed\":{},\"message\":\"{}\"}}", k.0, esc(&k.1))).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"samples\":[{}],", samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"stats\":{{{}}},", (0..rt::NSTAT).map(|i| format!("\"{}\":{}", rt::STAT_NAMES[i], stats[i])).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"violation\":{}}}", if violation.is_empty() { "null" } else { &violation });
    std::fs::write(&out, j).unwrap();
    for (ext, set) in [("hist", &hist), ("sched", &inter)] {
        let mut b = Vec::with_capacity(set.len() * 8);
        let mut v: Vec<u64> = set.iter().copied().collect();
        v.sort();
        for h in v {
            b.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(format!("{out}.{ext}"), b).unwrap();
    }
    0
}

fn write_streams(path: &str, st: &Streams) {
    let mut f = std::fs::File::create(path).unwrap();
    for s in st {
        writeln!(f, "{}", s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
    }
}
fn read_streams(path: &str) -> Streams {
    let t = std::fs::read_to_string(path).unwrap();
    let mut v: Streams = t.lines().map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
    v.resize(NSTREAM, vec![]);
    v
}

fn report(o: &Outcome) -> String {
    format!(
        "{{\"status\":{},\"oracle\":\"{}\",\"message\":\"{}\",\"event_hash\":\"{:016x}\",\"events\":[{}]}}",
        o.status,
        rt::ORACLE_NAMES[o.oracle as usize],
        esc(&o.msg),
        sh().ev_hash,
        events().iter().map(|e| format!("\"{}\"", esc(e))).collect::<Vec<_>>().join(",")
    )
}

/// Shrinks the decisions of a violating seed while the same oracle keeps failing.
fn minimise(a: &Args) -> i32 {
    let prop = a.num("--prop", 1) as u32;
    let seed = a.num("--seed", 1);
    let budget = a.num("--budget", 25);
    let el = eligible(prop);
    let o = run_one(prop, seed, &el, None);
    if o.status != ST_VIOLATION {
        eprintln!("seed {} does not violate", seed);
        return 2;
    }
    let oracle = o.oracle;
    let mut best = streams();
    let t0 = std::time::Instant::now();
    let mut tries = 0u64;
    let mut test = |c: &Streams| -> Option<Streams> {
        if t0.elapsed().as_secs() >= budget {
            return None;
        }
        tries += 1;
        let r = run_one(prop, seed, &el, Some(c));
        if r.status == ST_VIOLATION && r.oracle == oracle {
            Some(streams())
        } else {
            None
        }
    };
    if test(&best).is_none() {
        eprintln!("recorded decisions do not reproduce seed {}", seed);
        return 2;
    }
    let weight = |s: &Streams| -> (usize, u64) {
        (s.iter().map(|v| v.len()).sum(), s.iter().flatten().map(|x| *x as u64).sum())
    };
    loop {
        let before = weight(&best);
        // Empty whole streams, cut tails, remove and zero chunks, lower values.
        for i in 0..NSTREAM {
            let mut c = best.clone();
            c[i].clear();
            if weight(&c) < weight(&best) {
                if let Some(s) = test(&c) {
                    best = if weight(&s) < weight(&c) { s } else { c };
                    continue;
                }
            }
            let mut cut = best[i].len() / 2;
            while cut > 0 {
                let mut c = best.clone();
                let n = c[i].len().saturating_sub(cut);
                c[i].truncate(n);
                if !best[i].is_empty() && test(&c).is_some() {
                    best = c;
                } else {
                    cut /= 2;
                }
            }
        }
        for i in 0..NSTREAM {
            let mut size = (best[i].len() / 2).max(1);
            loop {
                let mut p = 0;
                while p < best[i].len() {
                    let e = (p + size).min(best[i].len());
                    let mut c = best.clone();
                    c[i].drain(p..e);
                    if test(&c).is_some() {
                        best = c;
                        continue;
                    }
                    if best[i][p..e].iter().any(|x| *x != 0) {
                        let mut c = best.clone();
                        c[i][p..e].iter_mut().for_each(|x| *x = 0);
                        if test(&c).is_some() {
                            best = c;
                        }
                    }
                    p = e;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            for p in 0..best[i].len() {
                for v in [1, best[i][p] / 2, best[i][p].saturating_sub(1)] {
                    if v < best[i][p] {
                        let mut c = best.clone();
                        c[i][p] = v;
                        if test(&c).is_some() {
                            best = c;
                        }
                    }
                }
            }
        }
        if weight(&best) >= before || t0.elapsed().as_secs() >= budget {
            break;
        }
    }
    let f = run_one(prop, seed, &el, Some(&best));
    if f.status != ST_VIOLATION {
        eprintln!("minimised decisions do not reproduce");
        return 2;
    }
    write_streams(a.get("--out").expect("--out"), &best);
    println!("{{\"tries\":{},\"decisions\":{},\"report\":{}}}", tries, weight(&best).0, report(&f));
    0
}

fn main() {
    // Same addresses every time. (Emulated runs are started that way.)
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    unsafe {
        const NO_RANDOMIZE: libc::c_ulong = 0x0040000;
        let p = libc::personality(0xffffffff);
        if p >= 0 && (p as libc::c_ulong) & NO_RANDOMIZE == 0 && std::env::var_os("CFFI_SIM_REEXEC").is_none() {
            if libc::personality(p as libc::c_ulong | NO_RANDOMIZE) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(std::env::args_os().skip(1))
                    .env_clear()
                    .env("CFFI_SIM_REEXEC", "1")
                    .exec();
                eprintln!("re-exec failed: {e}");
                std::process::exit(2);
            }
        }
    }
    let a = Args(std::env::args().skip(1).collect());
    rt::map_shared();
    warm_up();
    heap::reserve();
    simjit::reserve();
    let code = match a.0.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a),
        Some("minimise") => minimise(&a),
        Some("replay") => {
            let prop = a.num("--prop", 1) as u32;
            let st = read_streams(a.get("--streams").expect("--streams"));
            let o = run_one(prop, a.num("--seed", 1), &eligible(prop), Some(&st));
            println!("{}", report(&o));
            match o.status {
                ST_VIOLATION => 1,
                ST_HARNESS => 2,
                _ => 0,
            }
        }
        Some("one") => {
            let prop = a.num("--prop", 1) as u32;
            let o = run_one(prop, a.num("--seed", 1), &eligible(prop), None);
            for e in events() {
                println!("{e}");
            }
            println!("status {} oracle {} {}", o.status, rt::ORACLE_NAMES[o.oracle as usize], o.msg);
            0
        }
        Some("log") => {
            // One line per seed: everything a run decided and observed, condensed.
            let prop = a.num("--prop", 1) as u32;
            let el = eligible(prop);
            let (base, first, count) = (a.num("--base", 1), a.num("--first", 0), a.num("--count", 100));
            let rev = a.num("--reverse", 0) != 0;
            let mut lines = vec![String::new(); count as usize];
            for n in 0..count {
                let i = if rev { count - 1 - n } else { n };
                let seed = seed_of(base, first + i);
                let o = run_one(prop, seed, &el, None);
                let s = sh();
                let mut h = 0u64;
                for x in streams() {
                    for v in x {
                        h = rt::mix2(h, v as u64);
                    }
                    h = rt::mix2(h, 77);
                }
                lines[i as usize] = format!(
                    "{} {} {} {:016x} {:016x} {:016x} {} {}",
                    seed, o.status, s.ev_count, s.ev_hash, s.sched_hash, h, s.stats[rt::Stat::steps as usize], o.msg
                );
            }
            for l in lines {
                println!("{l}");
            }
            0
        }
        _ => {
            eprintln!("usage: worker|minimise|replay|one|log");
            2
        }
    };
    std::process::exit(code);
}
