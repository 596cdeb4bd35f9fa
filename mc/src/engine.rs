//! Exhaustive explorer of choice trees ("stateless model checking").
//!
//! A harness is a function that drives the implementation and takes every decision of the
//! environment (which operation, which operands, which history ...) through `Ex::choose`. The
//! explorer runs the harness once for every leaf of the resulting choice tree, in depth first
//! order. The tree is partitioned by its first choice ("unit") over worker processes.
//!
//! Worker processes are forked, so that a crash, a hang or an exhausted memory of the code under
//! test is an observation (attributed to the choices being executed) and not the end of the check.

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

mod sys {
    use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
    #[repr(C)]
    pub struct RLimit {
        pub cur: u64,
        pub max: u64,
    }
    extern "C" {
        pub fn fork() -> c_int;
        pub fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: c_long) -> *mut c_void;
        pub fn waitpid(pid: c_int, status: *mut c_int, opt: c_int) -> c_int;
        pub fn kill(pid: c_int, sig: c_int) -> c_int;
        pub fn _exit(code: c_int) -> !;
        pub fn setrlimit(r: c_int, l: *const RLimit) -> c_int;
        pub fn memfd_create(name: *const c_char, flags: c_uint) -> c_int;
        pub fn prctl(op: c_int, a: usize, b: usize, c: usize, d: usize) -> c_int;
    }
}

pub type Res = Result<(), String>;

/// One execution of a harness
pub struct Ex {
    prefix: Vec<u32>,
    trace: Vec<(u32, u32)>,
    describing: bool,
    notes: Vec<String>,
    pub transitions: u64,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    shared: Option<*const Slot>,
    pub thorough: bool,
    skipped: u64,
    pub counters: BTreeMap<&'static str, u64>,
}

impl Ex {
    /// Decide between `n` alternatives
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "engine: empty choice");
        let pos = self.trace.len();
        let c = if pos < self.prefix.len() { self.prefix[pos] as usize } else { 0 };
        assert!(c < n, "engine: replay diverged (choice {} of {} at {})", c, n, pos);
        self.trace.push((c as u32, n as u32));
        if let Some(s) = self.shared {
            let s = unsafe { &*s };
            if pos < MAXCH {
                s.choices[pos].store(c as u32, SeqCst);
                s.len.store(pos + 1, SeqCst);
            }
        }
        c
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.choose(xs.len());
        xs[i].clone()
    }
    /// A transition of the reference model mirrored by the implementation
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    /// A state reached in the reference model
    pub fn state<H: Hash>(&mut self, h: &H) {
        if self.states.len() < MAXSTATES {
            let mut d = DefaultHasher::new();
            h.hash(&mut d);
            self.states.insert(d.finish());
        }
    }
    /// What the implementation produced (to see that executions are not all alike)
    pub fn outcome<H: Hash>(&mut self, h: &H) {
        if self.outcomes.len() < MAXSTATES {
            let mut d = DefaultHasher::new();
            h.hash(&mut d);
            self.outcomes.insert(d.finish());
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    /// This execution is outside of the domain of the property
    pub fn skip(&mut self) {
        self.skipped += 1;
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.describing {
            let s = f();
            self.notes.push(s);
        }
    }
    pub fn describing(&self) -> bool {
        self.describing
    }
}

pub struct Harness {
    pub name: &'static str,
    pub bound: String,
    pub units: usize,
    pub run: Box<dyn Fn(&mut Ex, usize) -> Res>,
}

const MAXCH: usize = 4096;
const MAXSTATES: usize = 1_500_000;

#[repr(C)]
struct Slot {
    execs: AtomicU64,
    harness: AtomicUsize,
    len: AtomicUsize,
    choices: [AtomicU32; MAXCH],
}

#[repr(C)]
struct Shared {
    next: AtomicUsize,
    stop: AtomicUsize,
    slots: [Slot; 64],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static QUIET: AtomicUsize = AtomicUsize::new(1);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("{} [{}]", msg.replace('\n', " "), loc);
        if QUIET.load(SeqCst) == 0 {
            eprintln!("panic: {}", s);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

/// Run code that is expected to panic or not; gives the panic message
pub fn panics<R, F: FnOnce() -> R>(f: F) -> Result<R, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic on another thread".into())),
    }
}

struct Outcome {
    result: Res,
    trace: Vec<(u32, u32)>,
}

fn execute(h: &Harness, ex: &mut Ex, prefix: Vec<u32>) -> Outcome {
    ex.prefix = prefix;
    ex.trace.clear();
    ex.notes.clear();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let unit = ex.choose(h.units);
        (h.run)(ex, unit)
    }));
    let result = match r {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic on another thread".into());
            Err(format!("unexpected panic: {}", m))
        }
    };
    Outcome { result, trace: ex.trace.clone() }
}

fn new_ex(shared: Option<*const Slot>, thorough: bool) -> Ex {
    Ex {
        prefix: vec![],
        trace: vec![],
        describing: false,
        notes: vec![],
        transitions: 0,
        states: HashSet::new(),
        outcomes: HashSet::new(),
        shared,
        thorough,
        skipped: 0,
        counters: BTreeMap::new(),
    }
}

#[derive(Default, Clone)]
struct HStat {
    execs: u64,
    skipped: u64,
    transitions: u64,
    maxdepth: u64,
    sample: String,
}

struct Violation {
    harness: usize,
    choices: Vec<u32>,
    msg: String,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn worker(hs: &[Harness], sh: &Shared, id: usize, fd: i32, thorough: bool, known: &[String]) {
    let slot = &sh.slots[id];
    let mut ex = new_ex(Some(slot), thorough);
    let mut stats = vec![HStat::default(); hs.len()];
    let total: usize = hs.iter().map(|h| h.units).sum();
    let mut out = String::new();
    let mut findings: HashSet<String> = HashSet::new();
    'units: loop {
        if sh.stop.load(SeqCst) != 0 {
            break;
        }
        let g = sh.next.fetch_add(1, SeqCst);
        if g >= total {
            break;
        }
        let mut hi = 0;
        let mut u = g;
        while u >= hs[hi].units {
            u -= hs[hi].units;
            hi += 1;
        }
        let h = &hs[hi];
        slot.harness.store(hi, SeqCst);
        let mut prefix = vec![u as u32];
        loop {
            if sh.stop.load(SeqCst) != 0 {
                break 'units;
            }
            let t0 = ex.transitions;
            let s0 = ex.skipped;
            slot.len.store(0, SeqCst);
            let o = execute(h, &mut ex, prefix);
            slot.execs.fetch_add(1, SeqCst);
            let st = &mut stats[hi];
            st.execs += 1;
            st.transitions += ex.transitions - t0;
            st.skipped += ex.skipped - s0;
            st.maxdepth = st.maxdepth.max(o.trace.len() as u64);
            if let Err(msg) = o.result {
                let choices: Vec<u32> = o.trace.iter().map(|c| c.0).collect();
                let sig = format!("{}: {}", h.name, msg);
                if let Some(k) = known.iter().find(|k| sig.contains(k.as_str())) {
                    findings.insert(k.clone());
                } else {
                    out.push_str(&format!("V\t{}\t{}\t{}\n", hi, choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), esc(&msg)));
                    sh.stop.store(1, SeqCst);
                    break 'units;
                }
            } else if st.sample.is_empty() && ex.skipped == s0 {
                // describe the first execution of this worker on this harness
                let choices: Vec<u32> = o.trace.iter().map(|c| c.0).collect();
                let mut e2 = new_ex(None, thorough);
                e2.describing = true;
                let o2 = execute(h, &mut e2, choices.clone());
                let t2: Vec<u32> = o2.trace.iter().map(|c| c.0).collect();
                if o2.result.is_err() || t2 != choices {
                    // nondeterminism that the harness does not own
                    out.push_str(&format!("N\t{}\t{}\t{}\n", hi, choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), esc(&format!("{:?}", o2.result))));
                }
                st.sample = format!("{} {:?}: {}", h.name, choices, e2.notes.join("; "));
            }
            // next leaf
            let mut t = o.trace;
            while t.len() > 1 && t[t.len() - 1].0 + 1 >= t[t.len() - 1].1 {
                t.pop();
            }
            if t.len() <= 1 {
                break;
            }
            let l = t.len() - 1;
            t[l].0 += 1;
            prefix = t.iter().map(|c| c.0).collect();
        }
    }
    for f in findings {
        out.push_str(&format!("K\t{}\n", f));
    }
    for (i, s) in stats.iter().enumerate() {
        out.push_str(&format!("H\t{}\t{}\t{}\t{}\t{}\t{}\n", i, s.execs, s.skipped, s.transitions, s.maxdepth, esc(&s.sample)));
    }
    for (k, v) in &ex.counters {
        out.push_str(&format!("C\t{}\t{}\n", k, v));
    }
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    f.write_all(out.as_bytes()).unwrap();
    for (tag, set) in [(b's', &ex.states), (b'o', &ex.outcomes)] {
        let mut b = Vec::with_capacity(set.len() * 8 + 16);
        b.push(b'B');
        b.push(tag);
        b.extend_from_slice(&(set.len() as u64).to_le_bytes());
        for x in set {
            b.extend_from_slice(&x.to_le_bytes());
        }
        f.write_all(&b).unwrap();
    }
    f.write_all(b"E\n").unwrap();
    std::mem::forget(f);
}

pub struct Check {
    pub property: &'static str,
    pub harnesses: Vec<Harness>,
    pub assumptions: Vec<String>,
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn load_known(property: &str) -> Vec<String> {
    let f = verif_dir().join("KNOWN_FINDINGS.txt");
    let Ok(s) = std::fs::read_to_string(f) else { return vec![] };
    let tag = format!("known: property={} sig=", property);
    s.lines().filter_map(|l| l.strip_prefix(&tag)).map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect()
}

struct RawOutput {
    viol: Vec<Violation>,
    nondet: Vec<Violation>,
    known: HashSet<String>,
    stats: Vec<HStat>,
    counters: BTreeMap<String, u64>,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
}

fn parse(buf: &[u8], r: &mut RawOutput) -> Result<(), String> {
    let mut p = 0;
    let mut ended = false;
    while p < buf.len() {
        if buf[p] == b'B' {
            let tag = buf[p + 1];
            let n = u64::from_le_bytes(buf[p + 2..p + 10].try_into().unwrap()) as usize;
            p += 10;
            for i in 0..n {
                let x = u64::from_le_bytes(buf[p + 8 * i..p + 8 * i + 8].try_into().unwrap());
                if tag == b's' {
                    r.states.insert(x);
                } else {
                    r.outcomes.insert(x);
                }
            }
            p += 8 * n;
            continue;
        }
        let e = buf[p..].iter().position(|c| *c == b'\n').ok_or("truncated")? + p;
        let line = std::str::from_utf8(&buf[p..e]).map_err(|_| "utf8")?;
        p = e + 1;
        let mut it = line.split('\t');
        match it.next() {
            Some(k @ ("V" | "N")) => {
                let h = it.next().unwrap().parse().unwrap();
                let ch = it.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                let v = Violation { harness: h, choices: ch, msg: it.next().unwrap_or("").to_string() };
                if k == "V" {
                    r.viol.push(v)
                } else {
                    r.nondet.push(v)
                }
            }
            Some("K") => {
                r.known.insert(it.next().unwrap().to_string());
            }
            Some("C") => {
                let k = it.next().unwrap().to_string();
                let v: u64 = it.next().unwrap().parse().unwrap();
                *r.counters.entry(k).or_insert(0) += v;
            }
            Some("H") => {
                let i: usize = it.next().unwrap().parse().unwrap();
                let s = &mut r.stats[i];
                s.execs += it.next().unwrap().parse::<u64>().unwrap();
                s.skipped += it.next().unwrap().parse::<u64>().unwrap();
                s.transitions += it.next().unwrap().parse::<u64>().unwrap();
                s.maxdepth = s.maxdepth.max(it.next().unwrap().parse().unwrap());
                let smp = it.next().unwrap_or("");
                if s.sample.is_empty() {
                    s.sample = smp.to_string();
                }
            }
            Some("E") => ended = true,
            _ => return Err(format!("bad line {:?}", line)),
        }
    }
    if ended {
        Ok(())
    } else {
        Err("incomplete".into())
    }
}

fn read_fd(fd: i32) -> Vec<u8> {
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut v = vec![];
    f.seek(SeekFrom::Start(0)).unwrap();
    f.read_to_end(&mut v).unwrap();
    v
}

fn prep_child() {
    unsafe {
        sys::prctl(1, 9, 0, 0, 0); // die with the parent
        let l = sys::RLimit { cur: 12 << 30, max: 12 << 30 };
        if !cfg!(feature = "cxx") {
            sys::setrlimit(9, &l); // address space
        }
        let c = sys::RLimit { cur: 0, max: 0 };
        sys::setrlimit(4, &c); // no core files
    }
}

/// Run one choice sequence in a process of its own
fn isolated(h: &Harness, choices: &[u32], thorough: bool, limit: Duration) -> (String, String) {
    let fd = unsafe { sys::memfd_create(c"one".as_ptr(), 0) };
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        prep_child();
        let mut ex = new_ex(None, thorough);
        ex.describing = true;
        let o = execute(h, &mut ex, choices.to_vec());
        let s = match &o.result {
            Ok(()) => "ok\n".to_string(),
            Err(m) => format!("fail {}\n", esc(m)),
        };
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        f.write_all(s.as_bytes()).unwrap();
        f.write_all(ex.notes.join("\n").as_bytes()).unwrap();
        unsafe { sys::_exit(0) }
    }
    let t = Instant::now();
    let mut status = 0;
    loop {
        let r = unsafe { sys::waitpid(pid, &mut status, 1) };
        if r == pid {
            break;
        }
        if t.elapsed() > limit {
            unsafe {
                sys::kill(pid, 9);
                sys::waitpid(pid, &mut status, 0);
            }
            return ("hang".into(), String::new());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    if status != 0 {
        return (format!("crash status={:#x}", status), String::new());
    }
    let b = read_fd(fd);
    let s = String::from_utf8_lossy(&b).to_string();
    let (a, b) = s.split_once('\n').unwrap_or((&s, ""));
    (a.to_string(), b.to_string())
}

fn write_replay(property: &str, h: &Harness, choices: &[u32], msg: &str, descr: &str, thorough: bool) -> String {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let p = dir.join(format!("{}-{}.txt", property, h.name.replace(' ', "-")));
    let s = format!(
        "property={}\nharness={}\ntier={}\nbuild={}\nchoices={}\nmessage={}\n--- the failing execution\n{}\n--- replay with: bash /verif/bin/{}.sh replay {}\n",
        property,
        h.name,
        if thorough { "thorough" } else { "quick" },
        if cfg!(debug_assertions) { "release" } else { "plain" },
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
        msg,
        descr,
        if cfg!(feature = "cxx") { "cxx" } else { "mc" },
        p.display()
    );
    std::fs::write(&p, s).ok();
    p.display().to_string()
}

pub fn replay(check: Check, file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let name = get("harness=");
    let thorough = get("tier=") == "thorough";
    let choices: Vec<u32> = get("choices=").split(',').filter(|c| !c.is_empty()).map(|c| c.parse().unwrap()).collect();
    let Some(h) = check.harnesses.iter().find(|h| h.name == name) else {
        eprintln!("no harness {}", name);
        return 2;
    };
    install_hook();
    let (r, d) = isolated(h, &choices, thorough, Duration::from_secs(120));
    println!("{}\n{}", r, d);
    if r == "ok" {
        0
    } else {
        println!("VIOLATION property={} replay={}", check.property, file);
        1
    }
}

pub fn run(check: Check, tier: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let hs = &check.harnesses;
    let known = load_known(check.property);
    let nproc: usize = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8).clamp(1, 32);
    let cap = Duration::from_secs(
        std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 400 }),
    );
    let exec_limit = Duration::from_secs(if thorough { 240 } else { 100 });
    install_hook();
    let shared = unsafe {
        let p = sys::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const Shared)
    };
    let mut kids: Vec<(i32, i32, bool)> = vec![];
    for id in 0..nproc {
        let fd = unsafe { sys::memfd_create(c"mc".as_ptr(), 0) };
        assert!(fd >= 0);
        let pid = unsafe { sys::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            prep_child();
            worker(hs, shared, id, fd, thorough, &known);
            unsafe { sys::_exit(0) }
        }
        kids.push((pid, fd, false));
    }
    let mut last = vec![(0u64, usize::MAX, Instant::now()); nproc];
    let mut crashes: Vec<(usize, Vec<u32>, String)> = vec![];
    let mut capped = false;
    let slot_choices = |i: usize| -> (usize, Vec<u32>) {
        let s = &shared.slots[i];
        let n = s.len.load(SeqCst).min(MAXCH);
        (s.harness.load(SeqCst), s.choices[..n].iter().map(|c| c.load(SeqCst)).collect())
    };
    loop {
        let mut live = 0;
        for i in 0..nproc {
            if kids[i].2 {
                continue;
            }
            let mut status = 0;
            let r = unsafe { sys::waitpid(kids[i].0, &mut status, 1) };
            if r == kids[i].0 {
                kids[i].2 = true;
                if status != 0 {
                    let (h, c) = slot_choices(i);
                    crashes.push((h, c, format!("the process ended with status {:#x}", status)));
                    shared.stop.store(1, SeqCst);
                }
                continue;
            }
            live += 1;
            let e = shared.slots[i].execs.load(SeqCst);
            let n = shared.slots[i].len.load(SeqCst);
            // An execution may sit between two choices for long; completed executions and new
            // choices both count as progress
            if (e, n) != (last[i].0, last[i].1) {
                last[i] = (e, n, Instant::now());
            } else if last[i].2.elapsed() > exec_limit {
                let (h, c) = slot_choices(i);
                unsafe {
                    sys::kill(kids[i].0, 9);
                    sys::waitpid(kids[i].0, &mut status, 0);
                }
                kids[i].2 = true;
                crashes.push((h, c, format!("does not terminate within {} s", exec_limit.as_secs())));
                shared.stop.store(1, SeqCst);
            }
        }
        if live == 0 {
            break;
        }
        if t0.elapsed() > cap && !capped {
            capped = true;
            shared.stop.store(1, SeqCst);
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut raw = RawOutput {
        viol: vec![],
        nondet: vec![],
        known: HashSet::new(),
        stats: vec![HStat::default(); hs.len()],
        counters: BTreeMap::new(),
        states: HashSet::new(),
        outcomes: HashSet::new(),
    };
    let mut engine_error = None;
    for (i, k) in kids.iter().enumerate() {
        let b = read_fd(k.1);
        if let Err(e) = parse(&b, &mut raw) {
            if crashes.is_empty() {
                engine_error = Some(format!("worker {}: {}", i, e));
            }
        }
    }
    let mut code = 0;
    let mut nviol = 0;
    raw.viol.sort_by_key(|v| (v.harness, v.choices.len()));
    if let Some(v) = raw.viol.first() {
        let h = &hs[v.harness];
        let (r, d) = isolated(h, &v.choices, thorough, Duration::from_secs(100));
        let rep = if r.starts_with("fail") || r.starts_with("crash") || r == "hang" { "" } else { " (not on every run)" };
        let p = write_replay(check.property, h, &v.choices, &format!("{}{}", v.msg, rep), &d, thorough);
        println!("{}: {}{}", h.name, v.msg, rep);
        println!("{}", d);
        println!("VIOLATION property={} replay={}", check.property, p);
        nviol += 1;
        code = 1;
    } else if let Some((hi, c, why)) = crashes.first() {
        let h = &hs[*hi];
        let (r, d) = isolated(h, c, thorough, exec_limit);
        if r == "ok" {
            eprintln!("engine: a worker failed ({}) in {} at {:?}, which does not fail alone", why, h.name, c);
            code = 2;
        } else {
            let p = write_replay(check.property, h, c, &format!("{}; alone: {}", why, r), &d, thorough);
            println!("{}: {}; alone: {}", h.name, why, r);
            println!("VIOLATION property={} replay={}", check.property, p);
            nviol += 1;
            code = 1;
        }
    } else if let Some(v) = raw.nondet.first() {
        let h = &hs[v.harness];
        // The same choices once passed and once did not: the code under test depends on something
        // that is not its input
        let p = write_replay(check.property, h, &v.choices, &format!("differs between two executions: {}", v.msg), "", thorough);
        println!("{}: differs between two executions of the same choices: {}", h.name, v.msg);
        println!("VIOLATION property={} replay={}", check.property, p);
        nviol += 1;
        code = 1;
    } else if let Some(e) = engine_error {
        eprintln!("engine: {}", e);
        code = 2;
    }
    let execs: u64 = raw.stats.iter().map(|s| s.execs).sum();
    let skipped: u64 = raw.stats.iter().map(|s| s.skipped).sum();
    let trans: u64 = raw.stats.iter().map(|s| s.transitions).sum();
    if let Ok(f) = std::env::var("MC_STATS") {
        // This is the second build: the first one writes the evidence
        let s = format!(
            "{{\"executions\": {}, \"executions_outside_domain\": {}, \"states\": {}, \"transitions\": {}, \"distinct_outcomes\": {}, \"exhaustive\": {}}}",
            execs, skipped, raw.states.len(), trans, raw.outcomes.len(), code == 0 && !capped
        );
        return if std::fs::write(f, s).is_ok() { code } else { 2 };
    }
    let mut second = String::new();
    if let (0, Ok(alt)) = (code, std::env::var("MC_ALT")) {
        let f = std::env::temp_dir().join(format!("mc-{}-{}", check.property, std::process::id()));
        let st = std::process::Command::new(&alt).args(["check", check.property, tier]).env("MC_STATS", &f).env_remove("MC_ALT").status();
        second = std::fs::read_to_string(&f).unwrap_or_default();
        std::fs::remove_file(&f).ok();
        code = st.ok().and_then(|s| s.code()).unwrap_or(2);
        if code == 1 {
            nviol += 1;
        } else if second.is_empty() {
            eprintln!("engine: the second build gave no answer");
            code = 2;
        }
    }
    for k in &raw.known {
        println!("KNOWN-FINDING: property={} {}", check.property, k);
    }
    let exhaustive = code == 0 && !capped;
    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!(" \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n", check.property, if thorough { "thorough" } else { "quick" }, seed));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", raw.states.len(), trans, execs - skipped));
    j.push_str(&format!("  \"executions\": {},\n  \"executions_outside_domain\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n", execs, skipped, raw.outcomes.len(), exhaustive));
    if capped {
        j.push_str(&format!("  \"capped_after_s\": {},\n", cap.as_secs()));
    }
    j.push_str("  \"state_meaning\": \"distinct states of the reference model reached (program prefix, operand values and history), each compared with the implementation; the choice tree is enumerated completely\",\n");
    j.push_str("  \"harnesses\": [\n");
    for (i, (h, s)) in hs.iter().zip(&raw.stats).enumerate() {
        j.push_str(&format!(
            "   {{\"name\": \"{}\", \"bound\": \"{}\", \"units\": {}, \"executions\": {}, \"outside_domain\": {}, \"transitions\": {}, \"max_choices\": {}}}{}\n",
            h.name, esc(&h.bound), h.units, s.execs, s.skipped, s.transitions, s.maxdepth, if i + 1 < hs.len() { "," } else { "" }
        ));
    }
    j.push_str("  ],\n");
    if !second.is_empty() {
        j.push_str(&format!("  \"build_without_debug_assertions\": {},\n", second));
    }
    j.push_str("  \"counters\": {");
    j.push_str(&raw.counters.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    j.push_str("},\n");
    j.push_str("  \"samples\": [");
    j.push_str(&raw.stats.iter().filter(|s| !s.sample.is_empty()).map(|s| format!("\"{}\"", s.sample)).collect::<Vec<_>>().join(",\n   "));
    j.push_str("]\n },\n");
    j.push_str(" \"assumptions\": [");
    j.push_str(&check.assumptions.iter().map(|a| format!("\"{}\"", esc(a))).collect::<Vec<_>>().join(", "));
    j.push_str("],\n");
    j.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), nviol));
    let ed = verif_dir().join("evidence");
    std::fs::create_dir_all(&ed).ok();
    if std::fs::write(ed.join(format!("{}.json", check.property)), j).is_err() {
        eprintln!("engine: cannot write evidence");
        code = if code == 1 { 1 } else { 2 };
    }
    println!(
        "{} {}: {} executions ({} outside the domain), {} states, {} transitions, {} outcomes, {:.1} s{}",
        check.property, tier, execs, skipped, raw.states.len(), trans, raw.outcomes.len(), t0.elapsed().as_secs_f64(), if capped { " CAPPED" } else { "" }
    );
    code
}
