//! Runner: parallel generation, shrinking, replay files, evidence.
use crate::src::{splitmix, Src};
use crate::Res;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What one case reports about itself.
#[derive(Default)]
pub struct Rec {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub desc: String,
}
impl Rec {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
}

pub type CaseFn = fn(&mut Src, &mut Rec) -> Res;
pub struct Family {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: CaseFn,
}
pub fn fam(name: &'static str, quick: usize, thorough: usize, f: CaseFn) -> Family {
    Family { name, quick, thorough, f }
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub families: Vec<Family>,
    pub assumptions: &'static [&'static str],
}

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn run_case(f: CaseFn, s: &mut Src, rec: &mut Rec) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(s, rec))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

/// run a closure expected to panic (documented refusal); true if it panicked
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn hash64(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn case_seed(seed: u64, prop: &str, fam: &str, i: u64) -> u64 {
    let mut s = seed ^ hash64(format!("{prop}/{fam}").as_bytes());
    let a = splitmix(&mut s);
    let mut t = a ^ i.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut t)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("...");
        t
    }
}

struct Failure {
    index: u64,
    tape: Vec<u64>,
    msg: String,
}

struct Best {
    tape: Vec<u64>,
    msg: String,
    desc: String,
    evals: usize,
    finished: bool,
}
/// shrinks in a thread of its own, so that a shrunk input that never returns cannot
/// keep the violation from being reported
fn shrink_guarded(f: CaseFn, tape: Vec<u64>, msg: String) -> (Vec<u64>, String, String, usize) {
    let best: &'static Mutex<Best> = Box::leak(Box::new(Mutex::new(Best { tape, msg, desc: String::new(), evals: 0, finished: false })));
    let _ = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        shrink(f, best);
        best.lock().unwrap().finished = true;
    });
    let t = Instant::now();
    loop {
        std::thread::sleep(Duration::from_millis(5));
        let b = best.lock().unwrap();
        if b.finished || t.elapsed() > Duration::from_secs(90) {
            return (b.tape.clone(), b.msg.clone(), b.desc.clone(), b.evals);
        }
    }
}
fn shrink(f: CaseFn, shared: &Mutex<Best>) {
    let start = Instant::now();
    let mut evals = 0usize;
    let mut best = shared.lock().unwrap().tape.clone();
    let mut first = true;
    let mut try_tape = |t: Vec<u64>, best: &mut Vec<u64>| -> bool {
        if evals > env_u64("VERIF_SHRINK", 4000) as usize || start.elapsed() > Duration::from_secs(60) {
            return false;
        }
        evals += 1;
        let mut s = Src::replay(t.clone());
        let mut rec = Rec::default();
        if let Err(m) = run_case(f, &mut s, &mut rec) {
            let mut t = t;
            t.truncate(s.used());
            while t.last() == Some(&0) {
                t.pop();
            }
            if t.len() < best.len() || (t.len() == best.len() && t < *best) || first {
                first = false;
                *best = t.clone();
                *shared.lock().unwrap() = Best { tape: t, msg: m, desc: rec.desc, evals, finished: false };
                return true;
            }
        }
        false
    };
    let t0 = best.clone();
    try_tape(t0, &mut best);
    loop {
        let mut progress = false;
        // delete blocks
        let mut size = best.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut t = best.clone();
                t.drain(i..i + size);
                if try_tape(t, &mut best) {
                    progress = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero / halve / decrement values
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut t = best.clone();
                t[i] = 0;
                if try_tape(t, &mut best) {
                    progress = true;
                } else {
                    let mut lo = 0u64;
                    let mut hi = best.get(i).copied().unwrap_or(0);
                    while hi > lo + 1 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut t = best.clone();
                        t[i] = mid;
                        if try_tape(t, &mut best) {
                            progress = true;
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut t = best.clone();
                        t[i] -= 1;
                        if try_tape(t, &mut best) {
                            progress = true;
                        }
                    }
                }
            }
            i += 1;
        }
        if !progress {
            break;
        }
    }
}

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

/// Exit codes: 0 held, 1 violation, 3 error (watchdog, usage).
pub fn main(props: Vec<Prop>) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}");
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(2).expect("id");
            let p = props.iter().find(|p| p.id == id).expect("unknown property");
            if std::env::var("VERIF_STATUS").is_ok() {
                std::process::exit(check(p, &root))
            }
            std::process::exit(supervise(p, &root))
        }
        Some("case") => {
            // case <id> <family> <seed> <index>: one generated case, in a process of its own
            let p = props.iter().find(|p| p.id == args[2]).expect("unknown property");
            let f = p.families.iter().find(|f| f.name == args[3]).expect("family");
            let (seed, i): (u64, u64) = (args[4].parse().unwrap(), args[5].parse().unwrap());
            std::process::exit(one_case(p.id, f, seed, i))
        }
        Some("replay") => {
            let path = args.get(2).expect("file");
            std::process::exit(replay(&props, path))
        }
        Some("bench") => {
            // bench <id> [family]: timing per family
            let id = args.get(2).expect("id");
            let p = props.iter().find(|p| p.id == id).expect("unknown property");
            bench(p, args.get(3).map(|s| s.as_str()));
            std::process::exit(0)
        }
        _ => {
            eprintln!("usage: check <ID> | replay <file> | bench <ID> [family]");
            std::process::exit(3)
        }
    }
}

fn bench(p: &Prop, only: Option<&str>) {
    let seed = env_u64("VERIF_SEED", 1);
    let n = env_u64("BENCH_N", 200);
    for f in &p.families {
        if only.map_or(false, |o| o != f.name) {
            continue;
        }
        let mut times = vec![];
        let mut labels: BTreeMap<&str, usize> = BTreeMap::new();
        let mut nt = 0;
        let t0 = Instant::now();
        let from = env_u64("BENCH_FROM", 0);
        for i in from..from + n.min(f.quick as u64 * 4) {
            let mut s = Src::random(case_seed(seed, p.id, f.name, i));
            let mut rec = Rec::default();
            let t = Instant::now();
            let r = run_case(f.f, &mut s, &mut rec);
            let e = t.elapsed();
            if let Err(m) = r {
                println!("FAIL {} #{}: {}", f.name, i, trunc(&m, 600));
            }
            for l in &rec.labels {
                *labels.entry(l).or_default() += 1;
            }
            nt += rec.nontrivial as usize;
            times.push((e, i, trunc(&rec.desc, 300)));
        }
        times.sort();
        let k = times.len();
        println!(
            "{}: n={} total={:?} median={:?} p95={:?} max={:?} nontrivial={} labels={:?}",
            f.name, k, t0.elapsed(), times[k / 2].0, times[k * 95 / 100].0, times[k - 1].0, nt, labels
        );
        println!("   slowest #{}: {}", times[k - 1].1, times[k - 1].2);
    }
}

fn one_case(id: &'static str, f: &Family, seed: u64, i: u64) -> i32 {
    let (g, name) = (f.f, f.name);
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut s = Src::random(case_seed(seed, id, name, i));
        run_case(g, &mut s, &mut Rec::default())
    });
    match t.expect("spawn").join() {
        Ok(Ok(())) => 0,
        Ok(Err(m)) => {
            eprintln!("{m}");
            1
        }
        Err(_) => 1,
    }
}

/// runs `case` in a process of its own: how it ended, and the last line of its error output
fn case_apart(id: &str, name: &str, seed: u64, i: u64) -> Option<(std::process::ExitStatus, String)> {
    use std::io::Read;
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().ok()?)
        .args(["case", id, name, &seed.to_string(), &i.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .ok()?;
    let start = Instant::now();
    loop {
        if let Ok(Some(st)) = c.try_wait() {
            let mut e = Vec::new();
            let _ = c.stderr.take()?.read_to_end(&mut e);
            let e = String::from_utf8_lossy(&e).into_owned();
            return Some((st, trunc(&e.split_whitespace().collect::<Vec<_>>().join(" "), 300)));
        }
        if start.elapsed() > Duration::from_secs(60) {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// The check itself runs in a child process, so that a case that ends its process (endless
/// recursion, an abort) is found out: each case under way at that moment is run again in a
/// process of its own, and one that ends it again with the same signal is a violation.
/// Running out of memory or being killed from outside decides nothing; the check then goes on
/// without the cases that were under way.
fn supervise(p: &Prop, root: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let seed = env_u64("VERIF_SEED", 1);
    let start = Instant::now();
    let status = std::env::temp_dir().join(format!("verif-{}-{}", p.id, std::process::id()));
    let mut skip: Vec<(usize, u64)> = vec![];
    let mut rc = 3;
    for _round in 0..6 {
        let _ = std::fs::remove_file(&status);
        let left = env_u64("VERIF_TOTAL_LIMIT_S", if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { 6 * 3600 } else { 700 }).saturating_sub(start.elapsed().as_secs());
        let list: Vec<String> = skip.iter().map(|(f, i)| format!("{f}:{i}")).collect();
        let st = std::process::Command::new(std::env::current_exe().expect("own path"))
            .args(["check", p.id])
            .env("VERIF_STATUS", &status)
            .env("VERIF_SKIP", list.join(","))
            .env("VERIF_TOTAL_LIMIT_S", left.to_string())
            .status()
            .expect("run the check");
        if let Some(c) = st.code() {
            rc = if c == 0 && !skip.is_empty() { 3 } else { c };
            break;
        }
        let sig = st.signal().unwrap_or(0);
        eprintln!("ERROR: {} ended by signal {}", p.id, sig);
        let bytes = std::fs::read(&status).unwrap_or_default();
        let word = |k: usize| u64::from_le_bytes(bytes[k * 8..k * 8 + 8].try_into().unwrap());
        let mut active: Vec<(usize, u64)> = (0..bytes.len() / 16).filter(|k| word(2 * k) != 0).map(|k| (word(2 * k) as usize - 1, word(2 * k + 1))).collect();
        active.sort();
        // all at once, so that cases that do not end cost their limit only once
        let crash = [4, 6, 7, 8, 11].contains(&sig);
        let apart: Vec<Vec<String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = active
                .iter()
                .map(|&(fi, i)| {
                    let name = p.families[fi].name;
                    sc.spawn(move || {
                        let mut ends = vec![];
                        while crash && ends.len() < 2 {
                            match case_apart(p.id, name, seed, i) {
                                Some((st, e)) if st.code() == Some(1) => ends.push(e),
                                Some((st, e)) if st.signal() == Some(sig) && !e.contains("memory allocation") => ends.push(format!("the process is ended by signal {sig}: {e}")),
                                _ => break,
                            }
                        }
                        ends
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        for (&(fi, i), ends) in active.iter().zip(apart) {
            let name = p.families[fi].name;
            if ends.len() == 2 {
                let msg = ends[0].clone();
                let dir = format!("{root}/replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{dir}/{}-{}-seed{}-case{}.json", p.id, name, seed, i);
                let body = format!(
                    "{{\"property\":{},\"family\":{},\"seed\":{},\"case\":{},\n\"message\":{},\n\"generated\":true}}\n",
                    json_str(p.id), json_str(name), seed, i, json_str(&msg)
                );
                std::fs::write(&path, body).expect("write replay");
                let ev = format!(
                    "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\n\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":1,\"rule\":{},\"samples\":[{}]}},\n\"violations\":1,\n\"violation_details\":[{{\"replay\":{},\"message\":{}}}],\n\"assumptions\":[],\n\"wall_s\":{:.2}}}\n",
                    json_str(p.id), json_str(&std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into())), seed, i + 1, json_str(p.rule),
                    json_str(&format!("{name}: case {i}")), json_str(&path), json_str(&msg), start.elapsed().as_secs_f64()
                );
                let _ = std::fs::create_dir_all(format!("{root}/evidence"));
                std::fs::write(format!("{root}/evidence/{}.json", p.id), ev).expect("write evidence");
                eprintln!("counterexample ({} / {} case {}): {}", p.id, name, i, msg);
                println!("VIOLATION property={} replay={}", p.id, path);
                let _ = std::fs::remove_file(&status);
                return 1;
            }
        }
        if active.is_empty() {
            break;
        }
        skip.extend(active);
    }
    let _ = std::fs::remove_file(&status);
    rc
}

/// state shared by the workers of one family; leaked, because a worker stuck in a
/// case cannot be stopped and is left behind
struct Shared {
    f: CaseFn,
    id: &'static str,
    name: &'static str,
    index: usize,
    skip: Vec<u64>,
    status: Option<std::fs::File>,
    seed: u64,
    n: u64,
    next: AtomicU64,
    minfail: AtomicU64,
    done: AtomicUsize,
    exited: AtomicUsize,
    ntcount: AtomicU64,
    fail: Mutex<Option<Failure>>,
    labels: Mutex<BTreeMap<&'static str, u64>>,
    nts: Mutex<HashSet<u64>>,
    smp: Mutex<BTreeMap<u64, String>>,
    starts: Mutex<Vec<Option<(Instant, u64)>>>,
}
/// leaves word of the case a worker is at, for `supervise`
fn note(sh: &Shared, w: usize, family: u64, i: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = &sh.status {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&family.to_le_bytes());
        b[8..].copy_from_slice(&i.to_le_bytes());
        let _ = f.write_at(&b, w as u64 * 16);
    }
}
fn spawn_worker(sh: &'static Shared) {
    let w = {
        let mut g = sh.starts.lock().unwrap();
        g.push(None);
        g.len() - 1
    };
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        loop {
            let i = sh.next.fetch_add(1, SeqCst);
            if i >= sh.n || i > sh.minfail.load(SeqCst) {
                break;
            }
            if sh.skip.contains(&i) {
                continue;
            }
            sh.starts.lock().unwrap()[w] = Some((Instant::now(), i));
            note(sh, w, sh.index as u64 + 1, i);
            let mut s = Src::random(case_seed(sh.seed, sh.id, sh.name, i));
            let mut rec = Rec::default();
            let r = run_case(sh.f, &mut s, &mut rec);
            sh.starts.lock().unwrap()[w] = None;
            note(sh, w, 0, 0);
            sh.done.fetch_add(1, SeqCst);
            if !rec.labels.is_empty() {
                let mut l = sh.labels.lock().unwrap();
                for k in &rec.labels {
                    *l.entry(k).or_default() += 1;
                }
            }
            if rec.nontrivial {
                sh.ntcount.fetch_add(1, SeqCst);
                let mut bytes: Vec<u8> = sh.name.as_bytes().to_vec();
                if rec.desc.is_empty() {
                    for v in &s.tape {
                        bytes.extend(v.to_le_bytes());
                    }
                } else {
                    bytes.extend(rec.desc.as_bytes());
                }
                sh.nts.lock().unwrap().insert(hash64(&bytes));
                let mut sm = sh.smp.lock().unwrap();
                if sm.len() < 3 || sm.keys().next_back().map_or(false, |k| i < *k) {
                    let d = if rec.desc.is_empty() { format!("tape {:?}", s.tape) } else { rec.desc.clone() };
                    sm.insert(i, trunc(&d, 400));
                    while sm.len() > 3 {
                        let k = *sm.keys().next_back().unwrap();
                        sm.remove(&k);
                    }
                }
            }
            if let Err(msg) = r {
                sh.minfail.fetch_min(i, SeqCst);
                let mut g = sh.fail.lock().unwrap();
                if g.as_ref().map_or(true, |x| i < x.index) {
                    *g = Some(Failure { index: i, tape: s.tape, msg });
                }
            }
        }
        sh.exited.fetch_add(1, SeqCst);
    });
    r.expect("spawn");
}

fn check(p: &Prop, root: &str) -> i32 {
    let start = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|v| v.parse::<f64>().ok()).unwrap_or(1.0);
    let threads = env_u64("VERIF_THREADS", 8).max(1) as usize;
    let case_limit = Duration::from_secs(env_u64("VERIF_CASE_LIMIT_S", if thorough { 600 } else { 120 }));
    let total_limit = Duration::from_secs(env_u64("VERIF_TOTAL_LIMIT_S", if thorough { 6 * 3600 } else { 700 }));
    let mut evals_total = 0u64;
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut fam_json = vec![];
    let mut samples: Vec<String> = vec![];
    let mut violations: Vec<(String, String)> = vec![];
    let mut stuck_total = 0usize;
    let mut unfinished = false;

    let status = std::env::var("VERIF_STATUS").expect("status file");
    let skip: Vec<(usize, u64)> = std::env::var("VERIF_SKIP")
        .unwrap_or_default()
        .split(',')
        .filter_map(|s| s.split_once(':'))
        .map(|(f, i)| (f.parse().unwrap(), i.parse().unwrap()))
        .collect();

    for (index, f) in p.families.iter().enumerate() {
        let n = (((if thorough { f.thorough } else { f.quick }) as f64) * scale).ceil() as u64;
        let sh: &'static Shared = Box::leak(Box::new(Shared {
            f: f.f,
            id: p.id,
            name: f.name,
            index,
            skip: skip.iter().filter(|s| s.0 == index).map(|s| s.1).collect(),
            status: std::fs::File::create(&status).ok(),
            seed,
            n,
            next: AtomicU64::new(0),
            minfail: AtomicU64::new(u64::MAX),
            done: AtomicUsize::new(0),
            exited: AtomicUsize::new(0),
            ntcount: AtomicU64::new(0),
            fail: Mutex::new(None),
            labels: Default::default(),
            nts: Default::default(),
            smp: Default::default(),
            starts: Default::default(),
        }));
        let t0 = Instant::now();
        for _ in 0..threads {
            spawn_worker(sh);
        }
        let mut spawned = threads;
        let mut stuck = 0usize;
        let mut relieved: HashSet<u64> = HashSet::new();
        // a slow case gets another worker beside it, so that the others go on; over the limit it
        // is left behind and decides nothing
        let case_limit = if stuck_total > 0 { case_limit.min(Duration::from_secs(40)) } else { case_limit };
        let mut failed_at: Option<Instant> = None;
        loop {
            std::thread::sleep(Duration::from_millis(5));
            if sh.exited.load(SeqCst) + stuck >= spawned {
                break;
            }
            let failed = sh.minfail.load(SeqCst) != u64::MAX;
            if failed && failed_at.get_or_insert_with(Instant::now).elapsed() > Duration::from_secs(30) {
                break;
            }
            let mut late = vec![];
            for st in sh.starts.lock().unwrap().iter_mut() {
                if let Some((t, i)) = *st {
                    if t.elapsed() > Duration::from_secs(15) && !failed && spawned < threads + 40 && relieved.insert(i) {
                        late.push((i, false));
                    }
                    if t.elapsed() > case_limit {
                        late.push((i, true));
                        *st = None;
                    }
                }
            }
            for (i, over) in late {
                if over {
                    eprintln!("ERROR: {} family {} case {} exceeded {:?}: not decided", p.id, f.name, i, case_limit);
                    stuck += 1;
                } else {
                    spawn_worker(sh);
                    spawned += 1;
                }
            }
            if start.elapsed() > total_limit {
                eprintln!("ERROR: {} family {} stopped after {:?}", p.id, f.name, total_limit);
                sh.minfail.fetch_min(0, SeqCst);
                unfinished = true;
                break;
            }
        }
        stuck_total += stuck;
        let evals = sh.done.load(SeqCst) as u64;
        evals_total += evals;
        let labels = sh.labels.lock().unwrap().clone();
        let nts = sh.nts.lock().unwrap().clone();
        let distinct = nts.len();
        nontrivial.extend(nts);
        for (_, d) in sh.smp.lock().unwrap().iter() {
            samples.push(format!("{}: {}", f.name, d));
        }
        let lj: Vec<String> = labels.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
        fam_json.push(format!(
            "{{\"family\":{},\"cases\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"classes\":{{{}}},\"wall_s\":{:.2}}}",
            json_str(f.name), evals, sh.ntcount.load(SeqCst), distinct, lj.join(","), t0.elapsed().as_secs_f64()
        ));
        eprintln!("{} {}: {} cases, {} nontrivial, {:.1}s {:?}", p.id, f.name, evals, sh.ntcount.load(SeqCst), t0.elapsed().as_secs_f64(), labels);
        let failure = sh.fail.lock().unwrap().take();
        if let Some(x) = failure {
            note(sh, 0, index as u64 + 1, x.index);
            let (tape, msg, desc, shr) = shrink_guarded(f.f, x.tape, x.msg);
            let dir = format!("{root}/replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{}-{}-seed{}-case{}.json", p.id, f.name, seed, x.index);
            let tj: Vec<String> = tape.iter().map(|v| v.to_string()).collect();
            let body = format!(
                "{{\"property\":{},\"family\":{},\"seed\":{},\"case\":{},\"shrink_evals\":{},\n\"message\":{},\n\"input\":{},\n\"tape\":[{}]}}\n",
                json_str(p.id), json_str(f.name), seed, x.index, shr, json_str(&msg), json_str(&desc), tj.join(",")
            );
            std::fs::write(&path, body).expect("write replay");
            eprintln!("counterexample ({} / {}): {}\n  input: {}", p.id, f.name, trunc(&msg, 1500), trunc(&desc, 1500));
            println!("VIOLATION property={} replay={}", p.id, path);
            violations.push((path, msg));
            break;
        }
        if unfinished || stuck_total > 40 {
            break;
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let sj: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
    let vj: Vec<String> = violations.iter().map(|(r, m)| format!("{{\"replay\":{},\"message\":{}}}", json_str(r), json_str(&trunc(m, 500)))).collect();
    let aj: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\n\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\n\"families\":[{}],\n\"samples\":[{}]}},\n\"violations\":{},\n\"violation_details\":[{}],\n\"assumptions\":[{}],\n\"wall_s\":{:.2}}}\n",
        json_str(p.id), json_str(if thorough { "thorough" } else { "quick" }), seed, evals_total, nontrivial.len(), json_str(p.rule),
        fam_json.join(",\n"), sj.join(",\n"), violations.len(), vj.join(","), aj.join(","), wall
    );
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", p.id), ev).expect("write evidence");
    if !violations.is_empty() {
        1
    } else if stuck_total > 0 || unfinished {
        eprintln!("ERROR: {} inconclusive: {} case(s) exceeded the limits", p.id, stuck_total);
        3
    } else {
        0
    }
}

fn replay(props: &[Prop], path: &str) -> i32 {
    let txt = std::fs::read_to_string(path).expect("read replay");
    let get = |k: &str| -> String {
        let i = txt.find(&format!("\"{k}\":\"")).expect(k) + k.len() + 4;
        txt[i..].split('"').next().unwrap().to_string()
    };
    let (id, famname) = (get("property"), get("family"));
    if txt.contains("\"generated\":true") {
        // a case that ends its process: generated again from its number
        let num = |k: &str| -> u64 {
            let i = txt.find(&format!("\"{k}\":")).expect(k) + k.len() + 3;
            txt[i..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap()
        };
        let r = case_apart(&id, &famname, num("seed"), num("case")).map(|(st, e)| (st.code(), e));
        println!("ends with {r:?}");
        if matches!(r, Some((Some(0), _))) {
            return 0;
        }
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    let i = txt.rfind("\"tape\":[").expect("tape") + 8;
    let tape: Vec<u64> = txt[i..].split(']').next().unwrap().split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
    let p = props.iter().find(|p| p.id == id).expect("property in this binary");
    let f = p.families.iter().find(|f| f.name == famname).expect("family");
    let mut s = Src::replay(tape);
    let mut rec = Rec::default();
    match run_case(f.f, &mut s, &mut rec) {
        Ok(()) => {
            println!("replay passes; input: {}", rec.desc);
            0
        }
        Err(m) => {
            println!("input: {}\nfails: {}", rec.desc, m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}
