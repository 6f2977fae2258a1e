//! Concrete runner for the contract harnesses: replays and searches for failing inputs on the real
//! code, and serves as the (labelled) bounded stand-in where a harness is not proved.
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use vh::src::{Choice, Conc, Mode};

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }
static CASE_STARTED: AtomicU64 = AtomicU64::new(0);

fn hash(s: &[Choice]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &(a, b) in s {
        h = (h ^ a as u64).wrapping_mul(0x1000_0000_01b3);
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

fn run_case(f: fn(&mut Conc), mode: Mode, rec: &Arc<Mutex<Vec<Choice>>>) -> Result<(), String> {
    let mut c = Conc::new(mode, rec.clone());
    vh::tracked::reset();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    match r {
        Ok(()) => Ok(()),
        Err(_) => Err(LAST.with(|l| l.borrow().clone())),
    }
}

fn snapshot(rec: &Arc<Mutex<Vec<Choice>>>) -> Vec<Choice> {
    rec.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

/// Next prefix in depth-first order of the choice tree, or `None` when it is exhausted.
fn advance(v: &[Choice]) -> Option<Vec<u32>> {
    let mut p: Vec<Choice> = v.to_vec();
    while let Some((x, n)) = p.pop() {
        if x + 1 < n {
            let mut out: Vec<u32> = p.iter().map(|c| c.0).collect();
            out.push(x + 1);
            return Some(out);
        }
    }
    None
}

fn minimise(f: fn(&mut Conc), first: Vec<u32>, rec: &Arc<Mutex<Vec<Choice>>>) -> (Vec<u32>, String) {
    let mut best = first;
    let mut msg = match run_case(f, Mode::Follow(best.clone()), rec) {
        Err(m) => m,
        Ok(()) => return (best, "not reproduced on re-run".into()),
    };
    let deadline = Instant::now() + Duration::from_secs(10);
    let mut progress = true;
    while progress && Instant::now() < deadline {
        progress = false;
        // drop chunks from anywhere, then lower single choices
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() && Instant::now() < deadline {
                let mut c = best.clone();
                c.drain(i..i + size);
                if let Err(m) = run_case(f, Mode::Follow(c.clone()), rec) {
                    best = c;
                    msg = m;
                    progress = true;
                } else {
                    i += 1;
                }
            }
            size /= 2;
        }
        for i in 0..best.len() {
            for v in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    if let Err(m) = run_case(f, Mode::Follow(c.clone()), rec) {
                        best = c;
                        msg = m;
                        progress = true;
                        break;
                    }
                }
            }
            if Instant::now() > deadline {
                break;
            }
        }
    }
    (best, msg)
}

fn replay_json(id: &str, name: &str, choices: &[u32], msg: &str) -> serde_json::Value {
    serde_json::json!({"kind":"concrete","property":id,"section":name,"choices":choices,"message":msg})
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = format!("{m}{loc}");
            }
        });
    }));
    let args: Vec<String> = std::env::args().collect();
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || real_main(args))
        .unwrap()
        .join()
        .unwrap_or(3);
    std::process::exit(code);
}

fn real_main(args: Vec<String>) -> i32 {
    let rec: Arc<Mutex<Vec<Choice>>> = Arc::new(Mutex::new(Vec::new()));
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in vh::sections() {
                println!("{} {} {}", s.property, s.name, if s.kani { "kani" } else { "bounded" });
            }
            0
        },
        // vh replay FILE : exit 1 when the recorded input still breaks the property
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let name = v["section"].as_str().unwrap();
            let ch: Vec<u32> =
                v["choices"].as_array().unwrap_or(&vec![]).iter().map(|x| x.as_u64().unwrap() as u32).collect();
            let (home, name) = name.split_once('.').unwrap_or((v["property"].as_str().unwrap_or(""), name));
            let s = vh::sections().into_iter().find(|s| s.name == name && s.property == home).expect("section");
            let mode = match v["kind"].as_str() {
                Some("kani") => Mode::Raw(ch),
                Some("random") => Mode::Random(v["random"].as_str().unwrap().parse().unwrap()),
                _ => Mode::Follow(ch),
            };
            match run_case(s.run, mode, &rec) {
                Ok(()) => {
                    println!("holds");
                    0
                },
                Err(m) => {
                    println!("FAILS: {m}");
                    1
                },
            }
        },
        // vh run PROPERTY SEED SECONDS EXHAUSTIVE OUT [--trace FILE] [--only name,name]
        Some("run") => run(&args[2..], rec),
        _ => 2,
    }
}

fn run(a: &[String], rec: Arc<Mutex<Vec<Choice>>>) -> i32 {
    let (id, seed, secs, exh, out) =
        (&a[0], a[1].parse::<u64>().unwrap(), a[2].parse::<f64>().unwrap(), a[3].parse::<u64>().unwrap(), &a[4]);
    let trace = a.iter().position(|x| x == "--trace").map(|i| a[i + 1].clone());
    let only: Option<Vec<String>> = a
        .iter()
        .position(|x| x == "--only")
        .map(|i| a[i + 1].split(',').map(|s| s.to_string()).collect());
    // sections of other properties that this one needs as well, as PROPERTY.name
    let also: Vec<String> = a
        .iter()
        .position(|x| x == "--also")
        .map(|i| a[i + 1].split(',').map(|s| s.to_string()).collect())
        .unwrap_or_default();
    let secs_list: Vec<_> = vh::sections()
        .into_iter()
        .filter_map(|mut s| {
            if s.property == id {
                return Some(s);
            }
            let full = format!("{}.{}", s.property, s.name);
            let wanted = also.iter().any(|n| *n == full);
            s.name = Box::leak(full.into_boxed_str());
            s.kani = false;
            wanted.then_some(s)
        })
        .filter(|s| only.as_ref().is_none_or(|o| o.iter().any(|n| n == s.name)))
        .collect();
    let total_w: f64 = secs_list.iter().map(|s| s.weight).sum::<f64>().max(1.0);
    // watchdog: a case that does not end is a violation as well
    let current: Arc<Mutex<String>> = Arc::new(Mutex::new(String::new()));
    {
        let (rec, current, out, id) = (rec.clone(), current.clone(), out.clone(), id.clone());
        std::thread::spawn(move || {
            let t0 = Instant::now();
            let _ = t0;
            let mut seen = (0u64, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let n = CASE_STARTED.load(Ordering::Relaxed);
                if n != seen.0 {
                    seen = (n, Instant::now());
                } else if n > 0 && seen.1.elapsed() > Duration::from_secs(30) {
                    let name = current.lock().unwrap().clone();
                    let ch: Vec<u32> = snapshot(&rec).iter().map(|c| c.0).collect();
                    let v = serde_json::json!({"sections":[{"name":name,"cases":n,"distinct":0,"exhausted":false,
                        "failure": replay_json(&id,&name,&ch,"the call does not return within 30 s")}]});
                    std::fs::write(&out, v.to_string()).unwrap();
                    std::process::exit(1);
                }
            }
        });
    }
    let mut report = Vec::new();
    let mut failed = false;
    for s in &secs_list {
        *current.lock().unwrap() = s.name.to_string();
        let start = Instant::now();
        let budget = Duration::from_secs_f64(secs * s.weight / total_w);
        let mut cases = 0u64;
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut exhausted = false;
        let mut failure = None;
        let mut samples: Vec<Vec<u32>> = Vec::new();
        let mut tracef = trace.as_ref().map(|p| std::fs::File::create(p).unwrap());
        let mut one = |mode: Mode, follow: &[u32], rnd: u64, cases: &mut u64, distinct: &mut HashSet<u64>| -> Option<(Vec<u32>, String)> {
            CASE_STARTED.fetch_add(1, Ordering::Relaxed);
            if let Some(f) = tracef.as_mut() {
                use std::io::Seek;
                let _ = f.set_len(0);
                let _ = f.seek(std::io::SeekFrom::Start(0));
                let _ = write!(f, "{}", serde_json::json!({"property":id,"section":s.name,"follow":follow,"random":rnd.to_string()}));
            }
            let r = run_case(s.run, mode, &rec);
            *cases += 1;
            let snap = snapshot(&rec);
            if distinct.len() < 2_000_000 {
                distinct.insert(hash(&snap));
            }
            match r {
                Ok(()) => None,
                Err(m) => Some((snap.iter().map(|c| c.0).collect(), m)),
            }
        };
        // 1. the beginning of the choice tree, exhaustively
        let mut prefix: Option<Vec<u32>> = Some(vec![]);
        while let Some(p) = prefix {
            if let Some(x) = one(Mode::Follow(p.clone()), &p, 0, &mut cases, &mut distinct) {
                failure = Some(x);
                break;
            }
            let snap = snapshot(&rec);
            if samples.len() < 2 {
                samples.push(snap.iter().map(|c| c.0).collect());
            }
            prefix = advance(&snap);
            if prefix.is_none() {
                exhausted = true;
                break;
            }
            if cases >= exh || start.elapsed() > budget / 2 {
                break;
            }
        }
        // 2. random cases until the time is used
        let mut i = 0u64;
        while failure.is_none() && !exhausted && start.elapsed() < budget {
            let mut st = seed ^ hash(&[(i as u32, (i >> 32) as u32)]);
            for b in s.name.bytes() {
                st = st.wrapping_mul(31).wrapping_add(b as u64);
            }
            vh::src::mix(&mut st);
            if let Some(x) = one(Mode::Random(st), &[], st, &mut cases, &mut distinct) {
                failure = Some(x);
            }
            if samples.len() < 4 {
                samples.push(snapshot(&rec).iter().map(|c| c.0).collect());
            }
            i += 1;
        }
        let fj = failure.map(|(ch, m)| {
            failed = true;
            let (b, m2) = minimise(s.run, ch.clone(), &rec);
            if m2.starts_with("not reproduced") { replay_json(id, s.name, &ch, &m) } else { replay_json(id, s.name, &b, &m2) }
        });
        report.push(serde_json::json!({"name":s.name,"kani":s.kani,"cases":cases,"distinct":distinct.len(),"exhausted":exhausted,
            "samples":samples,"secs":start.elapsed().as_secs_f64(),"failure":fj}));
    }
    std::fs::write(out, serde_json::json!({"sections":report}).to_string()).unwrap();
    if failed { 1 } else { 0 }
}
