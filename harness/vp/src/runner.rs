use crate::{alloc, detrand, fnv, mix, shrink::shrink, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Self { sig: sig.into(), msg: msg.into() }
    }
}

pub type Res = Result<(), Fail>;

#[derive(Clone, Copy)]
pub enum Kind {
    /// Number of random cases: (quick, thorough).
    Random(u64, u64),
    /// A finite space; the case's index is its first draw.
    Enumerate(fn(thorough: bool) -> u64),
}

#[derive(Clone)]
pub struct Part {
    pub name: &'static str,
    pub kind: Kind,
    /// Wall-clock caps in seconds: (quick, thorough).
    pub secs: (u64, u64),
    pub run: fn(&mut Src, &mut Ctx) -> Res,
    /// Run each case on its own thread with `getrandom` seeded from the case.
    pub fresh_thread: bool,
    pub stack: usize,
    /// Maximum number of worker threads.
    pub threads: usize,
    /// A case running longer than this is a hang.
    pub hang_s: u64,
    /// Time for shrinking a failure.
    pub shrink_s: u64,
}

impl Part {
    pub fn new(name: &'static str, kind: Kind, run: fn(&mut Src, &mut Ctx) -> Res) -> Self {
        Self {
            name,
            kind,
            secs: (60, 1800),
            run,
            fresh_thread: false,
            stack: 8 << 20,
            threads: 8,
            hang_s: 90,
            shrink_s: 25,
        }
    }

    pub fn fresh(mut self) -> Self {
        self.fresh_thread = true;
        self.stack = 2 << 20;
        self
    }

    pub fn secs(mut self, quick: u64, thorough: u64) -> Self {
        self.secs = (quick, thorough);
        self
    }

    pub fn stack(mut self, bytes: usize) -> Self {
        self.stack = bytes;
        self
    }

    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }

    pub fn shrink(mut self, s: u64) -> Self {
        self.shrink_s = s;
        self
    }

    pub fn hang(mut self, s: u64) -> Self {
        self.hang_s = s;
        self
    }
}

#[derive(Clone)]
pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

/// What a case reports about itself.
pub struct Ctx {
    pub thorough: bool,
    pub nontrivial: bool,
    /// Fingerprint for counting distinct cases; by default the hash of all draws.
    pub fp: Option<u64>,
    /// Set when a written-out form of the case is wanted.
    pub want_desc: bool,
    pub desc: String,
    pub work: PathBuf,
    counts: BTreeMap<&'static str, u64>,
}

impl Ctx {
    pub fn new(thorough: bool, want_desc: bool, work: PathBuf) -> Self {
        Self {
            thorough,
            nontrivial: false,
            fp: None,
            want_desc,
            desc: String::new(),
            work,
            counts: BTreeMap::new(),
        }
    }

    pub fn count(&mut self, label: &'static str) {
        *self.counts.entry(label).or_default() += 1;
    }

    pub fn count_n(&mut self, label: &'static str, n: u64) {
        *self.counts.entry(label).or_default() += n;
    }

    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc.push_str(&f());
            self.desc.push('\n');
        }
    }
}

thread_local! {
    static TRACE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let file = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        let file = file.rsplit_once("/repo/").map(|x| x.1.to_string()).unwrap_or(file);
        let short: String =
            msg.lines().next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(80).collect();
        let bt = if std::env::var("VP_BT").is_ok() {
            format!("\n{}", std::backtrace::Backtrace::force_capture())
        } else {
            String::new()
        };
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if p.is_none() {
                    *p = Some((format!("panic:{file}:{short}"), format!("panicked at {loc}: {msg}{bt}")));
                }
            }
        });
    }));
}

/// The machinery itself cannot work: an error, and no verdict.
pub fn give_up(msg: &str) -> ! {
    eprintln!("giving up: {msg}");
    std::process::exit(77)
}

/// A line of the description that is used if the case panics.
pub fn trace_clear() {
    TRACE.with(|t| t.borrow_mut().clear());
}

pub fn trace(s: &str) {
    TRACE.with(|t| t.borrow_mut().push(s.to_string()));
}

fn guarded(part: &Part, src: &mut Src, ctx: &mut Ctx) -> Res {
    let f = part.run;
    PANIC.with(|p| *p.borrow_mut() = None);
    TRACE.with(|t| t.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(r) => r,
        Err(_) => {
            for l in TRACE.with(|t| std::mem::take(&mut *t.borrow_mut())) {
                ctx.describe(|| l);
            }
            let (sig, msg) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("panic:?".into(), "panic".into()));
            Err(Fail { sig, msg })
        }
    }
}

fn run_case(part: &Part, src: &mut Src, ctx: &mut Ctx) -> Res {
    if part.fresh_thread {
        let seed = src.below(1 << 32);
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(part.stack)
                .spawn_scoped(s, || {
                    detrand::seed(seed);
                    guarded(part, src, ctx)
                })
                .expect("spawn")
                .join()
                .unwrap_or_else(|_| Err(Fail::new("panic:tls", "panic outside the case")))
        })
    } else {
        guarded(part, src, ctx)
    }
}

fn case_seed(seed: u64, prop: &str, part: &str, idx: u64) -> u64 {
    mix(mix(seed ^ fnv(prop.bytes().chain(*b"/").chain(part.bytes()))) ^ idx)
}

fn case_src(part: &Part, prop: &str, seed: u64, idx: u64) -> Src {
    match part.kind {
        Kind::Random(..) => Src::random(case_seed(seed, prop, part.name, idx)),
        Kind::Enumerate(_) => {
            let first = if part.fresh_thread { vec![mix(idx) & 0xffff_ffff, idx] } else { vec![idx] };
            Src::seeded(first, case_seed(seed, prop, part.name, idx))
        }
    }
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

struct Known {
    prop: String,
    sig: String,
    text: String,
}

/// Lines `finding: property=<id> sig=<sig, spaces as _> <text>`; `fixed:` lines suppress nothing.
fn known(prop: &str) -> Vec<Known> {
    let text = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("finding: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().and_then(|x| x.strip_prefix("property=")).unwrap_or("").to_string();
            let s = it.next().and_then(|x| x.strip_prefix("sig=")).unwrap_or("").to_string();
            let t = it.next().unwrap_or("").to_string();
            if p == prop && !s.is_empty() {
                out.push(Known { prop: p, sig: s, text: t });
            }
        }
    }
    out
}

fn sig_key(sig: &str) -> String {
    sig.replace(' ', "_")
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    known_hits: BTreeMap<String, u64>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        for (k, v) in o.known_hits {
            *self.known_hits.entry(k).or_default() += v;
        }
    }
}

struct Failure {
    part: &'static str,
    choices: Vec<u64>,
    fail: Fail,
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...[{} bytes]", &s[..e], s.len())
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(path: &Path, prop: &str, f: &Failure, desc: &str) {
    let mut s = String::new();
    let _ = writeln!(s, "property={prop}");
    let _ = writeln!(s, "part={}", f.part);
    let _ = writeln!(s, "sig={}", f.fail.sig);
    let c: Vec<String> = f.choices.iter().map(|x| x.to_string()).collect();
    let _ = writeln!(s, "choices={}", c.join(" "));
    let _ = writeln!(s, "---\n{}\n---\n{}", f.fail.msg, desc);
    if let Some(d) = path.parent() {
        let _ = fs::create_dir_all(d);
    }
    let _ = fs::write(path, s);
}

fn read_replay(path: &Path) -> Option<(String, String, Vec<u64>)> {
    let s = fs::read_to_string(path).ok()?;
    let (mut prop, mut part, mut ch) = (None, None, None);
    for l in s.lines() {
        if l == "---" {
            break;
        }
        if let Some(v) = l.strip_prefix("property=") {
            prop = Some(v.to_string());
        } else if let Some(v) = l.strip_prefix("part=") {
            part = Some(v.to_string());
        } else if let Some(v) = l.strip_prefix("choices=") {
            ch = Some(v.split_whitespace().filter_map(|x| x.parse().ok()).collect());
        }
    }
    Some((prop?, part?, ch.unwrap_or_default()))
}

const CRASH_SLOTS: usize = 64;

/// The search itself (child process).
fn worker(prop: &Property, thorough: bool, seed: u64, out: &Path) -> i32 {
    install_hook();
    unsafe {
        // ~20 GiB of address space: runaway allocation aborts instead of taking the machine down
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }

    let start = Instant::now();
    let known = known(prop.id);
    let is_known = |f: &Fail| known.iter().any(|k| k.sig == sig_key(&f.sig));
    let mut total = Stats::default();
    let mut failure: Option<Failure> = None;
    let mut part_lines: Vec<String> = Vec::new();

    // committed regressions first
    let mut regressions: Vec<PathBuf> = fs::read_dir(verif_dir().join("regress").join(prop.id))
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    regressions.sort();
    for r in &regressions {
        let Some((p, part, choices)) = read_replay(r) else { continue };
        let Some(part) = prop.parts.iter().find(|x| x.name == part) else { continue };
        if p != prop.id {
            continue;
        }
        let mut src = Src::replay(choices.clone());
        let mut ctx = Ctx::new(thorough, false, out.to_path_buf());
        let _ = fs::write(out.join("regress"), r.to_string_lossy().as_bytes());
        let res = run_case(part, &mut src, &mut ctx);
        let _ = fs::remove_file(out.join("regress"));
        total.evals += 1;
        *total.counts.entry("regressions replayed".into()).or_default() += 1;
        if let Err(f) = res {
            if is_known(&f) {
                *total.known_hits.entry(sig_key(&f.sig)).or_default() += 1;
            } else if failure.is_none() {
                failure = Some(Failure { part: part.name, choices, fail: f });
            }
        }
    }

    for part in &prop.parts {
        if failure.is_some() {
            break;
        }
        if let Ok(only) = std::env::var("VP_PART") {
            if only != part.name {
                continue;
            }
        }
        let scale = std::env::var("VP_SCALE").ok().and_then(|x| x.parse::<f64>().ok()).unwrap_or(1.0);
        let n = match part.kind {
            Kind::Random(q, t) => ((if thorough { t } else { q }) as f64 * scale) as u64,
            Kind::Enumerate(f) => f(thorough),
        };
        // A quick run does its whole work even on a machine that is a few times slower.
        let slow = if thorough || part.secs.0 >= 60 { 1.0 } else { 3.0 };
        let cap = Duration::from_secs(((if thorough { part.secs.1 } else { part.secs.0 }) as f64 * slow * scale.max(1.0)) as u64);
        let pstart = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Vec<(u64, Fail, Vec<u64>)>> = Mutex::new(Vec::new());
        let stats: Mutex<Stats> = Mutex::new(Stats::default());
        let slots = fs::OpenOptions::new()
            .create(true)
            .truncate(true)
            .write(true)
            .read(true)
            .open(out.join("slots"))
            .expect("slots");
        fs::write(out.join("part"), part.name).expect("part");
        let begun: Vec<AtomicU64> = (0..CRASH_SLOTS).map(|_| AtomicU64::new(0)).collect();
        let threads = part.threads.min(8).max(1);
        let done = AtomicBool::new(false);

        std::thread::scope(|s| {
            // watchdog
            s.spawn(|| {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = pstart.elapsed().as_millis() as u64 + 1;
                    for (t, b) in begun.iter().enumerate() {
                        let b = b.load(Ordering::SeqCst);
                        if b != 0 && now.saturating_sub(b) > part.hang_s * 1000 {
                            let _ = fs::write(out.join("hang"), t.to_string());
                            std::process::exit(43);
                        }
                    }
                }
            });
            let mut hs = Vec::new();
            for t in 0..threads {
                let (next, stop, found, stats, slots, begun, is_known) =
                    (&next, &stop, &found, &stats, &slots, &begun, &is_known);
                let h = std::thread::Builder::new()
                    .stack_size(part.stack)
                    .spawn_scoped(s, move || {
                        let mut st = Stats::default();
                        loop {
                            if stop.load(Ordering::SeqCst) || pstart.elapsed() > cap {
                                break;
                            }
                            let idx = next.fetch_add(1, Ordering::SeqCst);
                            if idx >= n {
                                break;
                            }
                            let _ = slots.write_at(&(idx + 1).to_le_bytes(), 8 * t as u64);
                            begun[t].store(pstart.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                            let mut src = case_src(part, prop.id, seed, idx);
                            let mut ctx = Ctx::new(thorough, idx < 40, out.to_path_buf());
                            let res = run_case(part, &mut src, &mut ctx);
                            begun[t].store(0, Ordering::SeqCst);
                            st.evals += 1;
                            for (k, v) in &ctx.counts {
                                *st.counts.entry((*k).to_string()).or_default() += v;
                            }
                            if ctx.nontrivial {
                                let fp = ctx.fp.unwrap_or_else(|| {
                                    fnv(src.recorded().iter().flat_map(|x| x.to_le_bytes()))
                                });
                                st.nontrivial.insert(mix(fp ^ fnv(part.name.bytes())));
                                if ctx.want_desc && !ctx.desc.is_empty() {
                                    st.samples.push((idx, clip(&ctx.desc, 1500)));
                                }
                            }
                            if let Err(f) = res {
                                if is_known(&f) {
                                    *st.known_hits.entry(sig_key(&f.sig)).or_default() += 1;
                                } else {
                                    found.lock().unwrap().push((idx, f, src.recorded().to_vec()));
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                        let _ = slots.write_at(&0u64.to_le_bytes(), 8 * t as u64);
                        stats.lock().unwrap().merge(st);
                    })
                    .expect("spawn");
                hs.push(h);
            }
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Ordering::SeqCst);
        });

        let mut st = stats.into_inner().unwrap();
        st.samples.sort();
        st.samples.truncate(3);
        part_lines.push(format!(
            "{{\"name\":{},\"evaluations\":{},\"planned\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.1}}}",
            json(part.name),
            st.evals,
            n,
            st.nontrivial.len(),
            pstart.elapsed().as_secs_f64()
        ));
        eprintln!(
            "[{}] part {}: {} cases of {} ({} distinct non-trivial) in {:.1}s {:?}",
            prop.id,
            part.name,
            st.evals,
            n,
            st.nontrivial.len(),
            pstart.elapsed().as_secs_f64(),
            st.counts
        );
        total.merge(st);

        let mut found = found.into_inner().unwrap();
        found.sort_by_key(|x| x.0);
        if let Some((_, fail, choices)) = found.into_iter().next() {
            failure = Some(Failure { part: part.name, choices, fail });
        }
    }

    let mut violations = 0;
    if let Some(mut f) = failure {
        violations = 1;
        let part = prop.parts.iter().find(|x| x.name == f.part).unwrap();
        eprintln!("[{}] failing case in part {}: {}\n{}", prop.id, f.part, f.fail.sig, clip(&f.fail.msg, 4000));
        eprintln!("[{}] shrinking {} choices", prop.id, f.choices.len());
        let replay = out.join("replay");
        write_replay(&replay, prop.id, &f, ""); // in case shrinking itself crashes
        let sig = f.fail.sig.clone();
        f.choices = shrink(f.choices.clone(), Duration::from_secs(part.shrink_s), |c| {
            let mut src = Src::replay(c.to_vec());
            let mut ctx = Ctx::new(thorough, false, out.to_path_buf());
            match run_case(part, &mut src, &mut ctx) {
                Err(e) if e.sig == sig => {
                    let used = src.recorded();
                    Some(used.to_vec())
                }
                _ => None,
            }
        });
        let mut src = Src::replay(f.choices.clone());
        let mut ctx = Ctx::new(thorough, true, out.to_path_buf());
        if let Err(e) = run_case(part, &mut src, &mut ctx) {
            f.fail = e;
        }
        write_replay(&replay, prop.id, &f, &ctx.desc);
        eprintln!("[{}] minimal: {}\n{}\n{}", prop.id, f.fail.sig, clip(&f.fail.msg, 6000), clip(&ctx.desc, 6000));
    }

    write_evidence(prop, thorough, seed, &total, &part_lines, start.elapsed(), violations);
    let mut kh = String::new();
    for k in &known {
        if total.known_hits.contains_key(&k.sig) {
            let _ = writeln!(kh, "KNOWN-FINDING: property={} {}", k.prop, k.text);
        }
    }
    fs::write(out.join("known"), kh).ok();
    if violations > 0 {
        1
    } else {
        0
    }
}

fn write_evidence(
    prop: &Property,
    thorough: bool,
    seed: u64,
    st: &Stats,
    parts: &[String],
    wall: Duration,
    violations: u64,
) {
    let mut s = String::new();
    let counts: Vec<String> = st.counts.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect();
    let samples: Vec<String> = st.samples.iter().take(12).map(|(_, d)| json(d.trim_end())).collect();
    let assumptions: Vec<String> = prop.assumptions.iter().map(|a| json(a)).collect();
    let _ = write!(
        s,
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"parts\":[{}],\"classes\":{{{}}}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        json(prop.id),
        json(if thorough { "thorough" } else { "quick" }),
        seed,
        json(prop.level),
        st.evals,
        st.nontrivial.len(),
        json(prop.rule),
        samples.join(","),
        parts.join(","),
        counts.join(","),
        assumptions.join(","),
        wall.as_secs_f64(),
        violations
    );
    let dir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let _ = fs::write(dir.join(format!("{}.json", prop.id)), s);
}

/// Runs one case in a child and reports how it ended. `Some(sig)` if it fails.
fn single(prop: &Property, part: &str, arg: &str, out: &Path, thorough: bool, secs: u64) -> (Option<String>, Vec<u64>) {
    let spill = out.join("spill");
    let _ = fs::remove_file(&spill);
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe)
        .args(["single", prop.id, part, arg])
        .arg(out)
        .env("VERIF_TIER", if thorough { "thorough" } else { "quick" })
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let start = Instant::now();
    let status = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break Some(s);
        }
        if start.elapsed() > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let used: Vec<u64> = fs::read(&spill)
        .map(|b| b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
        .unwrap_or_default();
    let sig = match status {
        None => Some("hang".to_string()),
        Some(s) if s.code() == Some(0) => None,
        Some(s) => match s.code() {
            Some(c) => Some(format!("exit {c}")),
            None => Some(format!("killed: {s}")),
        },
    };
    (sig, used)
}

fn run_single(props: &[Property], args: &[String]) -> i32 {
    install_hook();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    let prop = props.iter().find(|p| p.id == args[0]).expect("property");
    let part = prop.parts.iter().find(|p| p.name == args[1]).expect("part");
    let out = PathBuf::from(&args[3]);
    let mut src = if let Some(idx) = args[2].strip_prefix("idx:") {
        let (seed, idx) = idx.split_once(':').unwrap();
        case_src(part, prop.id, seed.parse().unwrap(), idx.parse().unwrap())
    } else {
        let (_, _, c) = read_replay(Path::new(&args[2])).expect("replay");
        Src::replay(c)
    };
    src.spill(out.join("spill"));
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let mut ctx = Ctx::new(thorough, false, out);
    let part = part.clone();
    // same stack size as in the worker
    let r = std::thread::Builder::new()
        .stack_size(part.stack)
        .spawn(move || run_case(&part, &mut src, &mut ctx))
        .unwrap()
        .join();
    match r {
        Ok(Ok(())) => 0,
        _ => 1,
    }
}

fn check(prop: &Property) -> i32 {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let start = Instant::now();
    let out = verif_dir().join("target").join("run").join(prop.id);
    let _ = fs::remove_dir_all(&out);
    fs::create_dir_all(&out).expect("out dir");
    let exe = std::env::current_exe().unwrap();
    let status = Command::new(exe)
        .args(["worker", prop.id, &tier, &seed.to_string()])
        .arg(&out)
        .status()
        .expect("worker");
    let replays = verif_dir().join("replays");
    let _ = fs::create_dir_all(&replays);
    let dest = replays.join(format!("{}-{}.txt", prop.id, seed));
    print!("{}", fs::read_to_string(out.join("known")).unwrap_or_default());

    let crash = match status.code() {
        Some(0) => {
            println!("OK property={} tier={} seed={} wall={:.1}s", prop.id, tier, seed, start.elapsed().as_secs_f64());
            return 0;
        }
        Some(1) => {
            let _ = fs::copy(out.join("replay"), &dest);
            println!("VIOLATION property={} replay={}", prop.id, dest.display());
            return 1;
        }
        Some(77) => return 3,
        Some(43) => "hang".to_string(),
        Some(c) => format!("worker exited with {c}"),
        None => format!("worker was killed: {status}"),
    };

    eprintln!("[{}] {crash}; looking for the case", prop.id);
    // a regression input crashed
    if let Ok(r) = fs::read_to_string(out.join("regress")) {
        if let Some((_, part, choices)) = read_replay(Path::new(&r)) {
            let part = prop.parts.iter().find(|p| p.name == part).unwrap();
            let f = Failure { part: part.name, choices, fail: Fail::new("crash", crash.clone()) };
            write_replay(&dest, prop.id, &f, "");
            return crash_violation(prop, thorough, seed, start, &dest);
        }
    }
    let part_name = fs::read_to_string(out.join("part")).unwrap_or_default();
    let part = prop.parts.iter().find(|p| p.name == part_name);
    let Some(part) = part else {
        eprintln!("[{}] the harness failed before running a case", prop.id);
        return 3;
    };
    if out.join("replay").exists() {
        // crashed while shrinking an ordinary failure: that one is a violation already
        let _ = fs::copy(out.join("replay"), &dest);
        return crash_violation(prop, thorough, seed, start, &dest);
    }
    let slots = fs::read(out.join("slots")).unwrap_or_default();
    for c in slots.chunks_exact(8) {
        let v = u64::from_le_bytes(c.try_into().unwrap());
        if v == 0 {
            continue;
        }
        let idx = v - 1;
        let (sig, used) = single(prop, part.name, &format!("idx:{seed}:{idx}"), &out, thorough, part.hang_s);
        let Some(sig) = sig else { continue };
        eprintln!("[{}] case {idx} of part {}: {sig}", prop.id, part.name);
        let tmp = out.join("cand");
        let secs = if sig == "hang" { 10 } else { part.hang_s };
        let best = shrink(used, Duration::from_secs(if sig == "hang" { 90 } else { 60 }), |c| {
            let f = Failure { part: part.name, choices: c.to_vec(), fail: Fail::new("crash", "") };
            write_replay(&tmp, prop.id, &f, "");
            let (s, used) = single(prop, part.name, tmp.to_str().unwrap(), &out, thorough, secs);
            (s.as_deref() == Some(sig.as_str())).then_some(used)
        });
        let f = Failure {
            part: part.name,
            choices: best,
            fail: Fail::new(format!("crash:{sig}"), format!("the process running this case ended abnormally: {sig}")),
        };
        write_replay(&dest, prop.id, &f, "");
        return crash_violation(prop, thorough, seed, start, &dest);
    }
    eprintln!("[{}] {crash}, but no single case reproduces it", prop.id);
    3
}

fn crash_violation(prop: &Property, thorough: bool, seed: u64, start: Instant, dest: &Path) -> i32 {
    let mut st = Stats::default();
    st.evals = 1;
    st.samples.push((0, fs::read_to_string(dest).unwrap_or_default()));
    write_evidence(prop, thorough, seed, &st, &[], start.elapsed(), 1);
    println!("VIOLATION property={} replay={}", prop.id, dest.display());
    1
}

fn replay(props: &[Property], file: &str) -> i32 {
    install_hook();
    let (p, part, choices) = read_replay(Path::new(file)).expect("replay file");
    let prop = props.iter().find(|x| x.id == p).expect("property of another harness");
    let part = prop.parts.iter().find(|x| x.name == part).expect("part").clone();
    let out = std::env::temp_dir();
    let h = std::thread::Builder::new().stack_size(part.stack).spawn(move || {
        let mut src = Src::replay(choices);
        let mut ctx = Ctx::new(false, true, out);
        let r = run_case(&part, &mut src, &mut ctx);
        (r, ctx.desc)
    });
    let (r, desc) = h.unwrap().join().unwrap();
    println!("{desc}");
    match r {
        Ok(()) => {
            println!("PASS");
            0
        }
        Err(f) => {
            println!("FAIL {}\n{}", f.sig, f.msg);
            println!("VIOLATION property={p} replay={file}");
            1
        }
    }
}

/// Entry point of every check binary.
pub fn main(props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(String::as_str) {
        Some("check") => check(props.iter().find(|p| p.id == args[1]).expect("unknown property")),
        Some("worker") => worker(
            props.iter().find(|p| p.id == args[1]).expect("unknown property"),
            args[2] == "thorough",
            args[3].parse().unwrap(),
            Path::new(&args[4]),
        ),
        Some("single") => run_single(&props, &args[1..]),
        Some("replay") => replay(&props, &args[1]),
        _ => {
            eprintln!("usage: check ID | replay FILE");
            2
        }
    };
    let _ = alloc::peak();
    std::process::exit(code)
}
