//! Explorer / replayer: random instruction histories against the real `process_instruction`, judged by
//! independent oracles (oracle.rs). `replay explore --secs S --seed N [--only Cxx] [--out FILE]` and
//! `replay case PROFILE SEED` (re-runs one history and prints it).
mod env;
mod gen;
mod oracle;
mod world;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use world::Watch;

/// One case on the calling thread, under the eyes of a watchdog.
fn watched(prof: u8, seed: u64, index: u64, skip: u64, w: &Arc<Watch>) -> gen::CaseResult {
    w.prof.store(prof as u64, SeqCst);
    w.seed.store(seed, SeqCst);
    w.index.store(index, SeqCst);
    w.calls.store(0, SeqCst);
    w.done.store(0, SeqCst);
    world::SKIP.with(|k| k.set(skip));
    world::WATCH.with(|x| *x.borrow_mut() = w.clone());
    gen::case(prof, seed)
}
/// Looks every 200 ms whether the thread still executes the same instruction; true after 12 s of that.
struct Dog {
    last: (u64, u64),
    same: u32,
}
impl Dog {
    fn new() -> Dog {
        Dog { last: (0, 0), same: 0 }
    }
    fn stuck(&mut self, w: &Watch) -> bool {
        let now = (w.seed.load(SeqCst), w.calls.load(SeqCst));
        let busy = w.done.load(SeqCst) != now.1;
        self.same = if busy && now == self.last { self.same + 1 } else { 0 };
        self.last = now;
        self.same >= 60
    }
}
/// A case on a thread of its own; an instruction that never ends counts as refused (the runtime would end it: it runs
/// out of compute) and the oracles judge the refusal.  None: even so the case does not end.
fn guarded(prof: u8, seed: u64, mut skip: u64) -> Option<gen::CaseResult> {
    for _ in 0..2 {
        let w: Arc<Watch> = Arc::default();
        let (w2, slot) = (w.clone(), Arc::new(Mutex::new(None)));
        let s2 = slot.clone();
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let r = watched(prof, seed, 0, skip, &w2);
            *s2.lock().unwrap() = Some(r);
        });
        let h = h.unwrap();
        let mut dog = Dog::new();
        let mut n = 0;
        loop {
            if h.is_finished() {
                return slot.lock().unwrap().take();
            }
            std::thread::sleep(Duration::from_millis(if n < 50 { 2 } else { 200 }));
            n += 1;
            if n >= 50 && dog.stuck(&w) {
                break;
            }
        }
        if skip != 0 {
            return None;
        }
        skip = w.calls.load(SeqCst);
    }
    None
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")
}
fn main() {
    if std::env::var("REPLAY_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    world::install();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("case") => {
            let prof: u8 = a[2].parse().unwrap();
            let seed: u64 = a[3].parse().unwrap();
            let Some(r) = guarded(prof, seed, 0) else {
                eprintln!("the case does not end");
                std::process::exit(3);
            };
            for t in &r.trace {
                eprintln!("{}", t);
            }
            for (p, m) in &r.viol {
                eprintln!("VIOLATED {} {}", p, m);
            }
            let only = arg(&a, "--only");
            if r.viol.iter().any(|(p, _)| only.as_deref().map_or(true, |o| o == *p)) {
                std::process::exit(1);
            }
        }
        Some("explore") => {
            let secs: f64 = arg(&a, "--secs").map_or(5.0, |x| x.parse().unwrap());
            let seed: u64 = arg(&a, "--seed").map_or(1, |x| x.parse().unwrap());
            let maxc: u64 = arg(&a, "--cases").map_or(u64::MAX, |x| x.parse().unwrap());
            let only = arg(&a, "--only");
            let nthr: u64 = arg(&a, "--threads").map_or(8, |x| x.parse().unwrap());
            let profs: Vec<u8> = arg(&a, "--profiles").map_or(gen::PROFILES.to_vec(), |x| x.split(',').map(|y| y.parse().unwrap()).collect());
            let t0 = Instant::now();
            let end = t0 + Duration::from_secs_f64(secs);
            struct Sh {
                viol: BTreeMap<&'static str, (u8, u64, String, u64)>,
                stats: BTreeMap<String, u64>,
                cases: u64,
                steps: u64,
            }
            let sh = Arc::new(Mutex::new(Sh { viol: BTreeMap::new(), stats: BTreeMap::new(), cases: 0, steps: 0 }));
            let add = |sh: &Arc<Mutex<Sh>>, prof: u8, cs: u64, r: gen::CaseResult, only: &Option<String>| -> bool {
                let mut s = sh.lock().unwrap();
                s.cases += 1;
                s.steps += r.steps;
                for (k, n) in r.stats {
                    *s.stats.entry(k).or_default() += n;
                }
                let mut stop = false;
                for (p, m) in r.viol {
                    let len = r.trace.len() as u64;
                    stop |= only.as_deref() == Some(p);
                    let e = s.viol.entry(p).or_insert((prof, cs, m.clone(), len));
                    if len < e.3 {
                        *e = (prof, cs, m, len);
                    }
                }
                stop
            };
            let start = |first: u64| {
                let w: Arc<Watch> = Arc::default();
                let (sh, profs, only, w2) = (sh.clone(), profs.clone(), only.clone(), w.clone());
                let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                    let mut i = first;
                    while Instant::now() < end && i < maxc {
                        // the history of a case depends on its number alone, not on the number of threads
                        let prof = profs[((i ^ (i >> 3)).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33) as usize % profs.len()];
                        let cs = seed.wrapping_mul(1_000_003).wrapping_add(i);
                        let r = watched(prof, cs, i, 0, &w2);
                        if add(&sh, prof, cs, r, &only) {
                            break;
                        }
                        i += nthr;
                    }
                });
                (h.unwrap(), w, Dog::new())
            };
            let mut hs: Vec<_> = (0..nthr).map(start).collect();
            let mut hung = 0;
            while !hs.is_empty() {
                std::thread::sleep(Duration::from_millis(200));
                let mut k = 0;
                while k < hs.len() {
                    if hs[k].0.is_finished() {
                        hs.swap_remove(k).0.join().unwrap();
                        continue;
                    }
                    let w = hs[k].1.clone();
                    if hs[k].2.stuck(&w) {
                        // the thread is lost; judge its case with the endless instruction refused, go on behind it
                        let (prof, cs, i) = (w.prof.load(SeqCst) as u8, w.seed.load(SeqCst), w.index.load(SeqCst));
                        hs.swap_remove(k);
                        hung += 1;
                        let stop = guarded(prof, cs, w.calls.load(SeqCst)).map_or(false, |r| add(&sh, prof, cs, r, &only));
                        if !stop && hung < 3 * nthr && Instant::now() < end {
                            hs.push(start(i + nthr));
                        }
                        continue;
                    }
                    k += 1;
                }
            }
            let s = sh.lock().unwrap();
            let mut o = format!("{{\"cases\":{},\"steps\":{},\"wall_s\":{:.2},\"stats\":{{", s.cases, s.steps, t0.elapsed().as_secs_f64());
            o += &s.stats.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
            o += "},\"violations\":{";
            o += &s.viol.iter().map(|(p, (pr, cs, m, _))| format!("\"{}\":{{\"profile\":{},\"seed\":{},\"what\":\"{}\"}}", p, pr, cs, esc(m))).collect::<Vec<_>>().join(",");
            o += "}}";
            match arg(&a, "--out") {
                Some(f) => std::fs::write(f, &o).unwrap(),
                None => eprintln!("{}", o),
            }
            if s.viol.keys().any(|p| only.as_deref().map_or(true, |o| o == *p)) {
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage: replay explore|case ...");
            std::process::exit(2);
        }
    }
}
