mod checks;
mod corpus;
mod dump;
mod engine;
mod fams;
mod imp;
mod more;
mod reflex;
mod refparse;
mod slots;
mod sys;
mod toks;
mod wider;

use engine::*;
use refparse::Mode;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use sys::*;

const WORKERS: usize = 8;
const STACK: usize = 1 << 30;

fn hex(s: &str) -> String { let mut o = String::from("x"); for b in s.bytes() { let _ = write!(o, "{:02x}", b); } o }
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..(s.len() - 1) / 2).map(|i| u8::from_str_radix(&s[1 + 2 * i..3 + 2 * i], 16).unwrap()).collect();
    String::from_utf8_lossy(&b).to_string()
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Finding { dev: String, text: String }

fn findings(root: &str, id: &str) -> Vec<Finding> {
    let mut v = vec![];
    for l in std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut f = r.splitn(3, ' ');
            let p = f.next().unwrap_or("").trim_start_matches("property=");
            let d = f.next().unwrap_or("").trim_start_matches("dev=");
            if p == id { v.push(Finding { dev: d.into(), text: f.next().unwrap_or("").into() }); }
        }
    }
    v
}

fn tier(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }

fn worker(root: &str, id: &str, t: &str, me: usize, dir: &str) {
    die_with_parent();
    limit_memory(7 << 29);
    imp::silence_panics();
    let shm = Shm::open(&format!("{}/shm", dir), WORKERS, me, false);
    let devs = findings(root, id).into_iter().map(|f| f.dev).collect();
    let mut ctx = Ctx::new(id, tier(t), shm, me, devs);
    if let Ok(d) = std::env::var("MC_DUMP") { ctx.dump = Some(std::io::BufWriter::new(std::fs::File::create(format!("{}/{}.{}", d, id, me)).expect("dump"))); }
    let dir2 = dir.to_string();
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        checks::run(&mut ctx);
        let mut o = String::new();
        let _ = writeln!(o, "N {} {} {} {}", ctx.runs, ctx.transitions, ctx.accepted, ctx.capped as u8);
        for v in &ctx.viol { let _ = writeln!(o, "V {} {} {}", v.kind, hex(&v.src), hex(&v.what)); }
        for (d, (n, s)) in &ctx.known { let _ = writeln!(o, "K {} {} {}", d, n, hex(s)); }
        for s in &ctx.samples { let _ = writeln!(o, "S {}", hex(s)); }
        for (f, a, b) in &ctx.families { let _ = writeln!(o, "F {} {} {}", hex(f), a, b); }
        let st = ctx.states_vec();
        let mut b = Vec::with_capacity(st.len() * 8);
        for s in st { b.extend_from_slice(&s.to_le_bytes()); }
        std::fs::write(format!("{}/states.{}", dir2, me), b).expect("write states");
        o.push_str("END\n");
        std::fs::write(format!("{}/res.{}", dir2, me), o).expect("write result");
    }).expect("thread");
    if h.join().is_err() {
        eprintln!("engine panic: {}", imp::last_panic());
        std::process::exit(3);
    }
    std::process::exit(0);
}

fn run(root: &str, id: &str, t: &str) -> i32 {
    let start = Instant::now();
    if !checks::known_id(id) { eprintln!("no such property {}", id); return 2; }
    let dir = format!("{}/mc/run/{}-{}", root, id, std::process::id());
    std::fs::create_dir_all(&dir).expect("run dir");
    let shm = Shm::open(&format!("{}/shm", dir), WORKERS, 0, true);
    let exe = std::env::current_exe().expect("exe");
    let mut kids = vec![];
    for w in 0..WORKERS {
        kids.push(Command::new(&exe).args(["worker", root, id, t, &w.to_string(), &dir]).stdin(Stdio::null()).spawn().expect("spawn"));
    }
    let mut viol: Vec<Viol> = vec![];
    let mut error: Option<String> = None;
    let mut done = [false; WORKERS];
    let mut watch: Vec<(u64, u64, Instant)> = vec![(u64::MAX, 0, Instant::now()); WORKERS];
    while done.iter().any(|d| !d) {
        std::thread::sleep(Duration::from_millis(20));
        for w in 0..WORKERS {
            if done[w] { continue; }
            let (seq, inside) = shm.status(w);
            match kids[w].try_wait() {
                Ok(Some(st)) => {
                    done[w] = true;
                    if !st.success() {
                        if inside {
                            let (k, src) = shm.current(w);
                            viol.push(Viol { kind: imp::kind_name(k).into(), src, what: format!("the process died while running this input ({})", st) });
                            shm.stop_flag().store(1, std::sync::atomic::Ordering::Relaxed);
                        } else { error = Some(format!("worker {} ended with {}", w, st)); }
                    }
                    continue;
                }
                Ok(None) => {}
                Err(e) => { error = Some(e.to_string()); done[w] = true; continue; }
            }
            let cpu = cpu_ticks(kids[w].id());
            if watch[w].0 != seq || !inside { watch[w] = (seq, cpu, Instant::now()); }
            else if cpu.saturating_sub(watch[w].1) > 1500 || watch[w].2.elapsed() > Duration::from_secs(180) {
                let (k, src) = shm.current(w);
                viol.push(Viol { kind: imp::kind_name(k).into(), src, what: "no result after 15 s of processor time".into() });
                kill9(kids[w].id());
                let _ = kids[w].wait();
                done[w] = true;
                shm.stop_flag().store(1, std::sync::atomic::Ordering::Relaxed);
            }
        }
    }
    let (mut runs, mut trans, mut acc, mut capped) = (0u64, 0u64, 0u64, false);
    let mut states: HashSet<u64> = HashSet::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut fams: Vec<(String, u64, u64)> = vec![];
    for w in 0..WORKERS {
        for l in std::fs::read_to_string(format!("{}/res.{}", dir, w)).unwrap_or_default().lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "N" => { runs += f[1].parse::<u64>().unwrap(); trans += f[2].parse::<u64>().unwrap(); acc += f[3].parse::<u64>().unwrap(); capped |= f[4] == "1"; }
                "V" => viol.push(Viol { kind: f[1].into(), src: unhex(f[2]), what: unhex(f[3]) }),
                "K" => {
                    let s = unhex(f[3]);
                    let e = known.entry(f[1].into()).or_insert((0, s.clone()));
                    e.0 += f[2].parse::<u64>().unwrap();
                    if (s.chars().count(), &s) < (e.1.chars().count(), &e.1) { e.1 = s; }
                }
                "S" => samples.push(unhex(f[1])),
                "F" => {
                    let n = unhex(f[1]);
                    let (a, b) = (f[2].parse::<u64>().unwrap(), f[3].parse::<u64>().unwrap());
                    match fams.iter_mut().find(|x| x.0 == n) { Some(x) => { x.1 += a; x.2 += b; } None => fams.push((n, a, b)) }
                }
                _ => {}
            }
        }
        let b = std::fs::read(format!("{}/states.{}", dir, w)).unwrap_or_default();
        for c in b.chunks_exact(8) { states.insert(u64::from_le_bytes(c.try_into().unwrap())); }
    }
    let _ = std::fs::remove_dir_all(&dir);
    viol.sort_by_key(|v| (v.src.chars().count(), v.src.clone(), v.kind.clone()));
    viol.dedup_by_key(|v| (v.src.clone(), v.kind.clone()));
    let list = findings(root, id);
    for f in &list {
        if let Some((n, s)) = known.get(&f.dev) {
            println!("KNOWN-FINDING: property={} {} [{} of the inputs explored, shortest {:?}]", id, f.text, n, s);
        }
    }
    samples.sort();
    samples.dedup();
    samples.sort_by_key(|s| s.len());
    if samples.len() > 12 { let n = samples.len(); samples = (0..12).map(|i| samples[i * n / 12].clone()).collect(); }
    // evidence
    let wall = start.elapsed().as_secs_f64();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut e = String::from("{\n");
    let _ = writeln!(e, " \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",", json(id), json(t), seed);
    let _ = writeln!(e, " \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"accepted_by_impl\": {},", states.len(), trans, runs, acc);
    let _ = writeln!(e, "  \"exhaustive\": {}, \"stopped_early\": {},", !capped && viol.is_empty() && error.is_none(), capped);
    let _ = writeln!(e, "  \"what_is_counted\": \"states: distinct configurations of the reference model (lexer mode with bracket and indentation stacks; parser rule stack with the next token); transitions: tokens consumed by the reference parser, or delivered by the reference lexer; traces: source texts run through both the model and the implementation and compared\",");
    let _ = writeln!(e, "  \"families\": [{}],", fams.iter().map(|f| format!("\n   {{\"family\": {}, \"inputs\": {}, \"accepted\": {}}}", json(&f.0), f.1, f.2)).collect::<Vec<_>>().join(","));
    let _ = writeln!(e, "  \"known_findings_met\": [{}],", known.iter().map(|(d, (n, s))| format!("{{\"deviation\": {}, \"inputs\": {}, \"shortest\": {}}}", json(d), n, json(s))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(e, "  \"samples\": [{}]\n }},", samples.iter().map(|s| format!("\n   {}", json(s))).collect::<Vec<_>>().join(","));
    let _ = writeln!(e, " \"assumptions\": [\"the reference lexer and parser in mc/src state the property correctly\", \"behaviour outside the enumerated alphabets and bounds is not explored\"],");
    let _ = writeln!(e, " \"wall_s\": {:.2}, \"violations\": {}\n}}", wall, viol.len());
    std::fs::create_dir_all(format!("{}/evidence", root)).expect("evidence dir");
    std::fs::write(format!("{}/evidence/{}.json", root, id), e).expect("evidence");
    println!("{} {}: {} inputs, {} model states, {} transitions, {} accepted{} in {:.1} s", id, t, runs, states.len(), trans, acc, if capped { ", STOPPED EARLY" } else { "" }, wall);
    if !viol.is_empty() {
        std::fs::create_dir_all(format!("{}/replays", root)).expect("replay dir");
        for (n, v) in viol.iter().take(5).enumerate() {
            let p = format!("{}/replays/{}-{}.txt", root, id, n);
            let body = format!("property {}\nkind {}\nsource {}\nreadable {:?}\nwhat {}\nrun: bash run.sh replay {}\n", id, v.kind, hex(&v.src), v.src, v.what, p);
            std::fs::write(&p, body).expect("replay");
            if n == 0 { println!("VIOLATION property={} replay={}", id, p); }
            let w: String = v.what.chars().take(600).collect();
            println!("  {} {:?}: {}", v.kind, v.src.chars().take(300).collect::<String>(), w);
        }
        return 1;
    }
    if let Some(m) = error { eprintln!("engine error: {}", m); return 2; }
    0
}

fn replay(root: &str, path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| s.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].to_string()).unwrap_or_default();
    show(root, &get("kind "), &unhex(&get("source ")), &get("property "))
}

/// Run one source through model and implementation and print both.
fn show(root: &str, kind: &str, src: &str, id: &str) -> i32 {
    imp::silence_panics();
    let dir = std::env::temp_dir().join(format!("mc-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let shm = Shm::open(dir.join("shm").to_str().unwrap(), WORKERS, 0, true);
    let _ = std::fs::remove_dir_all(&dir);
    let devs: Vec<String> = findings(root, id).into_iter().map(|f| f.dev).collect();
    let mut ctx = Ctx::new(id, Tier::Quick, shm, 0, devs);
    let (kind, src) = (kind.to_string(), src.to_string());
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        println!("source {:?}", src);
        let il = imp::lex_impl(&ctx.shm, &src);
        let ml = reflex::lex(&src, Default::default());
        println!("implementation tokens: {:?}", il.stat);
        for t in &il.toks { println!("   {:?}", t); }
        println!("model tokens: {:?} (error at {})", ml.end, ml.err_at);
        for t in &ml.toks { println!("   {:?}", t); }
        for (n, m) in [("file", Mode::File), ("eval", Mode::Eval), ("single", Mode::Single), ("func_type", Mode::FuncType)] {
            if kind != n && kind != "all" { continue; }
            let mo = model(&src, m, Default::default(), None);
            let i = imp::parse_impl(&ctx.shm, &src, m, None);
            println!("{}:\n  model          {}\n  implementation {}", n, describe_model(&mo.expect, &src), describe(&i, &src));
        }
        checks::replay(&mut ctx, &kind, &src);
        for v in &ctx.viol { println!("VIOLATES {}: {}", ctx.id, v.what); }
        ctx.viol.len()
    }).unwrap();
    if h.join().unwrap_or(1) > 0 { 1 } else { 0 }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let g = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    // <root>/mc/target/release/mc
    let exe = std::env::current_exe().expect("exe");
    let root = exe.ancestors().nth(4).and_then(|p| p.to_str()).unwrap_or("/verif").to_string();
    let root = root.as_str();
    let code = match g(1) {
        "run" => run(root, g(2), g(3)),
        "worker" => { worker(g(2), g(3), g(4), g(5).parse().unwrap(), g(6)); 0 }
        "replay" => replay(root, g(2)),
        "show" => show(root, g(2), &g(3).replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r"), g(4)),
        _ => { eprintln!("usage: mc run ID quick|thorough | replay FILE | show KIND TEXT [ID]"); 2 }
    };
    std::process::exit(code);
}
