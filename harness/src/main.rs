//! Binds the specification in /verif/spec to the code in /repo.
//!   harness replay SESSIONS FIELDS PROGRESS [SCENARIOS KIND]
//!                                                 compare sessions generated from the specification
//!                                                 (with SCENARIOS: SESSIONS is the output of TLC)
//!   harness record PROFILE SEED COUNT OUT PROGRESS  record random sessions for the specification to check
//!   harness show SESSIONS                         perform sessions and print what is observed
mod alloc;
mod dec;
mod enc;
mod gen;
mod sess;
mod value;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

#[global_allocator]
static A: alloc::Watch = alloc::Watch;

static TICK: AtomicU64 = AtomicU64::new(0);
fn watchdog(limit: u64) {
    std::thread::spawn(move || {
        let (mut last, mut same) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let t = TICK.load(Ordering::Relaxed);
            same = if t == last { same + 1 } else { 0 };
            last = t;
            if same > limit * 2 {
                eprintln!("HANG");
                std::process::exit(4);
            }
        }
    });
}
fn limit_memory() {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    }
    let l = [6u64 << 30, 6u64 << 30];
    unsafe { setrlimit(9, &l) };
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| if std::env::var_os("HARNESS_PANICS").is_some() { eprintln!("{}", i) }));
    limit_memory();
    let out = std::io::stdout();
    match &a[1][..] {
        "replay" => {
            watchdog(10);
            let fields: Vec<String> = a[3].split(',').map(|s| s.to_string()).collect();
            let f = std::io::BufReader::new(std::fs::File::open(&a[2]).unwrap());
            let mut prog = std::fs::File::create(&a[4]).unwrap();
            let (mut n, mut calls, mut bad) = (0u64, 0u64, 0u64);
            let scen: Option<Value> = a.get(5).map(|p| serde_json::from_slice(&std::fs::read(p).unwrap()).expect("harness: scenarios"));
            // the part of the work of this process
            let shard: Vec<usize> = std::env::var("SHARD").unwrap_or_else(|_| "0/1".into()).split('/').map(|n| n.parse().unwrap()).collect();
            // the calls whose results count (all of them if empty)
            let only = std::env::var("ONLY").unwrap_or_default();
            let only: Vec<&str> = only.split(',').filter(|o| !o.is_empty()).collect();
            for (i, line) in f.lines().enumerate() {
                if i % shard[1] != shard[0] {
                    continue;
                }
                let line = line.unwrap();
                if scen.is_some() && !line.starts_with('"') {
                    continue;
                }
                let s = session(&line, &scen, a.get(6));
                use std::os::unix::fs::FileExt;
                prog.write_all_at(format!("{:>12}\n", i).as_bytes(), 0).unwrap();
                let ops = s["ops"].as_array().unwrap();
                let mut w = match make(s["k"].as_str().unwrap(), &s["s"]) {
                    Ok(w) => w,
                    Err(m) => {
                        bad += 1;
                        report(&s, 0, "panic", json!({"msg": m}).as_object().unwrap());
                        continue;
                    }
                };
                alloc::ON.store(1, Ordering::Relaxed);
                n += 1;
                let mut apart = false;
                for (j, op) in ops.iter().enumerate() {
                    apart |= op["o"] == "in";
                    TICK.fetch_add(1, Ordering::Relaxed);
                    calls += 1;
                    let got = w.step(op);
                    let spec = &op["x"];
                    let counts = only.is_empty() || only.contains(&op["o"].as_str().unwrap_or("")) || apart && only.contains(&"in+");
                    if spec.get("dead") == Some(&json!(1)) {
                        // the call ends the specified part of the session
                        if let Some(f) = sess::agrees(spec, &got, &fields).filter(|_| counts) {
                            bad += 1;
                            report(&s, j, &f, &got);
                        }
                        break;
                    }
                    if let Some(f) = sess::agrees(spec, &got, &fields).filter(|_| counts) {
                        bad += 1;
                        if bad <= 20 {
                            report(&s, j, &f, &got);
                        }
                        break;
                    }
                }
                alloc::ON.store(0, Ordering::Relaxed);
            }
            let _ = prog.flush();
            println!("{}", json!({"sessions": n, "calls": calls, "mismatches": bad}));
        }
        "pick" => {
            // the session in line a[3] of the output of TLC
            let f = std::io::BufReader::new(std::fs::File::open(&a[2]).unwrap());
            let scen = Some(serde_json::from_slice(&std::fs::read(&a[4]).unwrap()).expect("harness: scenarios"));
            for line in a[3].split(',') {
                let line = f.get_ref().try_clone().map(std::io::BufReader::new).map(|mut f| {
                    use std::io::Seek;
                    f.rewind().unwrap();
                    f.lines().nth(line.parse().unwrap())
                });
                if let Ok(Some(Ok(line))) = line {
                    if line.starts_with('"') {
                        writeln!(out.lock(), "{}", session(&line, &scen, a.get(5))).unwrap();
                    }
                }
            }
        }
        "record" => {
            watchdog(10);
            let p: Value = serde_json::from_str(&a[2]).expect("harness: profile");
            let seed: u64 = a[3].parse().unwrap();
            let count: u64 = a[4].parse().unwrap();
            let mut all = vec![];
            let mut calls = 0;
            for i in 0..count {
                let mut g = gen::Gen::new(seed.wrapping_mul(1_000_003).wrapping_add(i), &p);
                let kinds: Vec<String> = p["kinds"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
                let k = g.r.pick(&kinds).clone();
                let roots = |f: &str| -> Vec<String> { p[f].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
                let depth = 1 + g.r.below(p["depth"].as_u64().unwrap_or(3) as usize);
                let s = match &k[..] {
                    "dec" => {
                        let r = g.r.pick(&roots("droots")).clone();
                        let sd = g.r.pct(30);
                        g.dshape(&r, sd, depth)
                    }
                    "enc" => {
                        let r = g.r.pick(&roots("eroots")).clone();
                        g.eshape(&r, depth)
                    }
                    "io" => {
                        let r = g.r.pick(&roots("droots")).clone();
                        let d = g.dshape(&r, false, depth.min(2));
                        let r = g.r.pick(&roots("eroots")).clone();
                        let e = g.eshape(&r, depth.min(2));
                        let c = [0, 1, 2, 3, 3, 5, 8, 8, 16, 64];
                        json!({"dec":d,"enc":e,"rcap":*g.r.pick(&c),"wcap":*g.r.pick(&c)})
                    }
                    "tag" => json!({"via":*g.r.pick(&["box","ref","dyn",""])}),
                    _ => json!({}),
                };
                let mut cur = std::io::BufWriter::new(std::fs::File::create(&a[6]).unwrap());
                writeln!(cur, "{}", json!({"k":k,"s":s})).unwrap();
                let mut log = |op: &Value| {
                    TICK.fetch_add(1, Ordering::Relaxed);
                    writeln!(cur, "{}", op).unwrap();
                    cur.flush().unwrap();
                };
                let w = sess::World::new(&k, &s);
                alloc::ON.store(1, Ordering::Relaxed);
                let mut rec = gen::Rec { w, ops: vec![], obs: vec![], log: &mut log };
                match &k[..] {
                    "dec" => gen::rec_dec(&mut g, &s, &mut rec),
                    "enc" => gen::rec_enc(&mut g, &s, &mut rec),
                    "io" => gen::rec_io(&mut g, &s, &mut rec),
                    "tag" => gen::rec_tag(&mut g, &s, &mut rec),
                    _ => gen::rec_alg(&mut g, &mut rec),
                }
                alloc::ON.store(0, Ordering::Relaxed);
                let (ops, obs) = (rec.ops, rec.obs);
                calls += ops.len();
                all.push(json!({"k":k,"s":s,"ops":ops,"obs":obs}));
            }
            std::fs::write(&a[5], serde_json::to_vec(&all).unwrap()).unwrap();
            println!("{}", json!({"sessions": all.len(), "calls": calls}));
        }
        "show" => {
            watchdog(10);
            let f = std::io::BufReader::new(std::fs::File::open(&a[2]).unwrap());
            for line in f.lines() {
                let s: Value = serde_json::from_str(&line.unwrap()).expect("harness: session");
                let mut w = sess::World::new(s["k"].as_str().unwrap(), &s["s"]);
                let mut obs = vec![];
                for op in s["ops"].as_array().unwrap() {
                    alloc::ON.store(1, Ordering::Relaxed);
                    obs.push(Value::Object(w.step(op)));
                    alloc::ON.store(0, Ordering::Relaxed);
                    TICK.fetch_add(1, Ordering::Relaxed);
                }
                writeln!(out.lock(), "{}", json!(obs)).unwrap();
            }
        }
        c => panic!("harness: command {}", c),
    }
}
/// A line of sessions, or of the output of TLC (a behaviour of one of the scenarios).
fn session(line: &str, scen: &Option<Value>, kind: Option<&String>) -> Value {
    match scen {
        None => serde_json::from_str(line).expect("harness: session"),
        Some(scen) => {
            let b: String = serde_json::from_str(line).expect("harness: line");
            let mut b: Value = serde_json::from_str(&b).expect("harness: behaviour");
            let c = &scen[b["sc"].as_u64().unwrap() as usize - 1];
            let k = c.get("k").and_then(|k| k.as_str()).or(kind.map(|k| &k[..])).unwrap();
            json!({"k": k, "s": c["s"], "ops": b["ops"].take()})
        }
    }
}
/// A panic of a constructor is one of the library, unless the harness says otherwise.
fn make(k: &str, s: &Value) -> Result<sess::World, String> {
    std::panic::catch_unwind(|| sess::World::new(k, s)).map_err(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if m.starts_with("harness:") {
            eprintln!("HARNESS-ERROR {} for {}", m, s);
            std::process::exit(3);
        }
        m
    })
}
fn report(s: &Value, j: usize, f: &str, got: &serde_json::Map<String, Value>) {
    println!("{}", json!({"mismatch": {"field": f, "op": j, "got": got, "session": s}}));
}
