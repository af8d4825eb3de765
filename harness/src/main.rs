#![allow(bare_trait_objects)]
mod dict;
mod doc;
mod gen;
mod model;
mod props;
mod recog;
mod rt;
mod stats;
mod tape;
mod target;

use props::{Env, Verdict};
use stats::{json_str, Stats};
use std::time::{Duration, Instant};
use tape::{mix, Rng, Tape};

#[global_allocator]
static ALLOC: rt::Counting = rt::Counting;

pub enum Out {
    Held,
    Violated(String),
    /// the harness itself failed
    Broken(String),
}

fn execute(prop: &str, t: &mut Tape, st: &mut Stats, env: &Env) -> Out {
    let _ = rt::take_panic();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Verdict { props::run(prop, t, st, env) }));
    match r {
        Ok(Ok(())) => Out::Held,
        Ok(Err(e)) => Out::Violated(e),
        Err(_) => match rt::take_panic() {
            Some((true, m)) => Out::Violated(format!("panic in the code under test: {}", m)),
            Some((false, m)) => Out::Broken(m),
            None => Out::Broken("panic without a message".into()),
        },
    }
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn shrink(prop: &str, tape: Vec<u32>, env: &Env, deadline: Instant) -> (Vec<u32>, String) {
    let mut st = Stats { off: true, ..Stats::default() };
    let mut try_it = |d: &[u32]| -> Option<(Vec<u32>, String)> {
        let mut t = Tape::replay(d.to_vec());
        match execute(prop, &mut t, &mut st, env) {
            Out::Violated(e) => Some((t.used(), e)),
            _ => None,
        }
    };
    let (mut best, mut why) = match try_it(&tape) {
        Some(x) => x,
        None => return (tape, String::new()),
    };
    let mut progress = true;
    while progress && Instant::now() < deadline {
        progress = false;
        let mut size = (best.len() / 2).max(1);
        while size > 0 && Instant::now() < deadline {
            let mut i = 0;
            while i < best.len() && Instant::now() < deadline {
                let end = (i + size).min(best.len());
                let mut d = best[..i].to_vec();
                d.extend_from_slice(&best[end..]);
                if let Some((u, e)) = try_it(&d) {
                    if u.len() < best.len() {
                        best = u;
                        why = e;
                        progress = true;
                        continue;
                    }
                }
                let mut d = best.clone();
                if d[i..end].iter().any(|x| *x != 0) {
                    for x in &mut d[i..end] {
                        *x = 0;
                    }
                    if let Some((u, e)) = try_it(&d) {
                        if u.len() <= best.len() {
                            best = u;
                            why = e;
                            progress = true;
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && Instant::now() < deadline {
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if nv < v {
                    let mut d = best.clone();
                    d[i] = nv;
                    if let Some((u, e)) = try_it(&d) {
                        if u.len() <= best.len() {
                            best = u;
                            why = e;
                            progress = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (best, why)
}

fn mutate_tape(r: &mut Rng, corpus: &[Vec<u32>]) -> Vec<u32> {
    let mut d = corpus[r.below(corpus.len())].clone();
    for _ in 0..1 + r.below(4) {
        if d.is_empty() {
            break;
        }
        let i = r.below(d.len());
        match r.below(6) {
            0 => d[i] = r.next() as u32,
            1 => d[i] = d[i].wrapping_add(1),
            2 => d[i] = r.below(4) as u32,
            3 => {
                let n = (1 + r.below(8)).min(d.len() - i);
                d.drain(i..i + n);
            }
            4 => {
                let n = (1 + r.below(8)).min(d.len() - i);
                let c: Vec<u32> = d[i..i + n].to_vec();
                let j = r.below(d.len() + 1);
                for (k, x) in c.into_iter().enumerate() {
                    d.insert(j + k, x);
                }
            }
            _ => {
                let o = &corpus[r.below(corpus.len())];
                let j = r.below(o.len() + 1);
                d.truncate(i);
                d.extend_from_slice(&o[j.min(o.len())..]);
            }
        }
    }
    if r.below(8) == 0 {
        let k = r.below(d.len() + 1);
        d.truncate(k);
    }
    d.truncate(tape::MAX_TAPE);
    d
}

fn tape_str(d: &[u32]) -> String {
    let v: Vec<String> = d.iter().map(|x| x.to_string()).collect();
    v.join(" ")
}

fn write_fail(path: &str, kind: &str, seed: u64, tape: &[u32], why: &str) {
    let s = format!(
        "{{\"kind\":{},\"seed\":{},\"tape\":{},\"why\":{}}}\n",
        json_str(kind),
        seed,
        json_str(&tape_str(tape)),
        json_str(why)
    );
    std::fs::write(path, s).expect("write the report");
}

fn worker(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").expect("--prop");
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let id: u64 = arg(args, "--worker").and_then(|s| s.parse().ok()).unwrap_or(0);
    let budget: f64 = arg(args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let cases: u64 = arg(args, "--cases").and_then(|s| s.parse().ok()).unwrap_or(u64::max_value());
    let dir = arg(args, "--dir").expect("--dir");
    let env = Env { scratch: dir.clone(), tier: arg(args, "--tier").unwrap_or("quick".into()) };
    rt::map_shared(&format!("{}/w{}.cur", dir, id));
    if let Some(m) = arg(args, "--mem") {
        rt::limit_memory(m.parse().expect("--mem"));
    }
    let start = Instant::now();
    let end = start + Duration::from_millis((budget * 1000.0) as u64);
    let mut st = Stats::default();
    let mut rng = Rng::new(mix(seed, id, 77));
    let mut seen: Vec<u8> = Vec::new();
    let mut corpus: Vec<Vec<u32>> = Vec::new();
    let guided = rt::coverage_size() > 0;
    rt::clear_counters();
    let mut i = 0u64;
    while i < cases && Instant::now() < end {
        let case_seed = mix(seed, id.wrapping_mul(0x1_0000_0001), i);
        let mutated = guided && corpus.len() > 4 && rng.below(3) == 0;
        let mut t = if mutated {
            let d = mutate_tape(&mut rng, &corpus);
            Tape::prefix(d, case_seed)
        } else {
            Tape::random(case_seed)
        };
        rt::publish(i, case_seed, &t.data);
        let out = execute(&prop, &mut t, &mut st, &env);
        st.evals += 1;
        i += 1;
        if guided && rt::harvest(&mut seen) {
            let u = t.used();
            if u.len() < 4000 {
                corpus.push(u);
                st.inc("inputs_that_reached_new_code_or_counts");
            }
        }
        match out {
            Out::Held => (),
            Out::Broken(m) => {
                write_fail(&format!("{}/w{}.fail", dir, id), "broken", case_seed, &t.used(), &m);
                return 12;
            }
            Out::Violated(why) => {
                let used = t.used();
                write_fail(&format!("{}/w{}.fail", dir, id), "violation", case_seed, &used, &why);
                let (small, why2) = shrink(&prop, used.clone(), &env, Instant::now() + Duration::from_secs(6));
                if !why2.is_empty() {
                    write_fail(&format!("{}/w{}.fail", dir, id), "violation", 0, &small, &why2);
                }
                finish(&dir, id, &st, &seen, start);
                return 10;
            }
        }
    }
    finish(&dir, id, &st, &seen, start);
    0
}

fn finish(dir: &str, id: u64, st: &Stats, seen: &[u8], start: Instant) {
    let mut s = String::from("{");
    s.push_str(&format!("\"evals\":{},\"wall\":{:.3}", st.evals, start.elapsed().as_secs_f64()));
    let m: Vec<String> = st.counts.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    s.push_str(&format!(",\"counts\":{{{}}}", m.join(",")));
    let m: Vec<String> = st.maxima.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    s.push_str(&format!(",\"maxima\":{{{}}}", m.join(",")));
    let m: Vec<String> = st.samples.iter().map(|x| json_str(x)).collect();
    s.push_str(&format!(",\"samples\":[{}]", m.join(",")));
    let cov: Vec<String> = seen.iter().enumerate().filter(|x| *x.1 != 0).map(|x| x.0.to_string()).collect();
    s.push_str(&format!(",\"covered\":[{}],\"coverage_size\":{}", cov.join(","), rt::coverage_size()));
    s.push_str("}\n");
    std::fs::write(format!("{}/w{}.json", dir, id), s).expect("write the statistics");
    for (name, set) in [("hash", &st.hashes), ("shape", &st.shapes)] {
        let mut b = Vec::with_capacity(set.len() * 8);
        for h in set {
            b.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(format!("{}/w{}.{}", dir, id, name), b).expect("write the hashes");
    }
}

/// runs one tape: exit 10 when it shows the violation
fn replay(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").expect("--prop");
    let seed: Option<u64> = arg(args, "--case-seed").and_then(|s| s.parse().ok());
    let dir = arg(args, "--dir").expect("--dir");
    let env = Env { scratch: dir, tier: arg(args, "--tier").unwrap_or("quick".into()) };
    let text = arg(args, "--tape").map_or(String::new(), |p| std::fs::read_to_string(p).expect("tape"));
    let data: Vec<u32> = text.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let mut t = match seed {
        Some(s) if s != 0 => Tape::prefix(data, s),
        _ => Tape::replay(data),
    };
    let mut st = Stats { off: true, ..Stats::default() };
    match execute(&prop, &mut t, &mut st, &env) {
        Out::Held => {
            println!("held");
            0
        }
        Out::Violated(e) => {
            println!("violated: {}", e);
            10
        }
        Out::Broken(e) => {
            println!("harness error: {}", e);
            12
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rt::install_hook();
    rt::install_logger();
    rt::no_core();
    let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let base = include_str!("../dict_base.txt");
    let _ = gen::DICT.set(dict::Dict::load(std::path::Path::new(&repo), base));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&args),
        Some("replay") => replay(&args),
        Some("rule") => {
            println!("{}", props::rule(&args[2]));
            0
        }
        Some("dict") => {
            print!("{}", dict::dump(std::path::Path::new(&repo)));
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}
