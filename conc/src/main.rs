//! Exhaustive exploration of thread schedules, on the real code
mod c14;
mod c15;
mod c17;
mod rt;
mod selftest;
mod wf;
use rt::*;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

pub struct Group {
    pub name: &'static str,
    pub bound: String,
}

pub struct Check {
    pub groups: Vec<Group>,
    pub scenarios: Vec<Scenario>,
}

fn check(id: &str, thorough: bool) -> Check {
    match id {
        "C14" => c14::check(thorough),
        "C15" => c15::check(thorough),
        "C17" => c17::check(thorough),
        _ => {
            eprintln!("no such check");
            exit(3)
        }
    }
}

/// Also runs the sequential executions the expected results are taken from. These can fail as well.
fn try_check(id: &str, thorough: bool) -> Result<Check, String> {
    let (tx, rx) = mpsc::channel();
    let id = id.to_string();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(|| {
            if id == "C14" {
                c14::sequential(if thorough { 1 << 20 } else { 150_000 })?;
            }
            Ok(check(&id, thorough))
        })
        .unwrap_or_else(|e| Err(format!("a single thread panicked: {}", message(e))));
        let _ = tx.send(r);
    });
    rx.recv_timeout(Duration::from_secs(100)).unwrap_or_else(|_| Err("a single thread does not end".into()))
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn esc(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '"' => "\\\"".to_string(),
            '\\' => "\\\\".to_string(),
            c if (c as u32) < 32 => " ".to_string(),
            c => c.to_string(),
        })
        .collect()
}

fn known(property: &str) -> Vec<String> {
    let Ok(s) = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")) else { return vec![] };
    let tag = format!("known: property={} sig=", property);
    s.lines().filter_map(|l| l.strip_prefix(&tag)).map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect()
}

fn worker(c: Check) {
    let beat: &'static mut i64 = Box::leak(Box::new(0));
    let p = beat as *mut i64 as usize;
    set_heartbeat(p as *mut i64);
    std::thread::spawn(move || {
        let mut last = -1;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let v = unsafe { std::ptr::read_volatile(p as *const i64) };
            if v != last {
                last = v;
                println!("B");
            }
        }
    });
    for l in std::io::stdin().lock().lines() {
        let Ok(i) = l.unwrap_or_default().trim().parse::<usize>() else { break };
        match explore(&c.scenarios[i]) {
            Ok(s) => println!(
                "DONE {} {} {} {} {} {} {} {} {} {} {}",
                s.exhausted as u8, s.execs, s.points, s.choices, s.threads, s.preemptions, s.diverged, s.max_choices, s.states, s.outcomes, s.pruned
            ),
            Err(_) => exit(10),
        }
    }
}

#[derive(Default, Clone)]
struct Sum {
    scenarios: u64,
    execs: u64,
    points: u64,
    preempt: u64,
    threads: u64,
    maxc: u64,
    states: u64,
    outcomes: u64,
    capped: u64,
    pruned: u64,
    diverged: u64,
    sample: String,
    cut: Vec<String>,
}

fn main() {
    std::panic::set_hook(Box::new(|i| { if std::env::var_os("MC_PANIC").is_some() { eprintln!("{}", i) } }));
    let a: Vec<String> = std::env::args().collect();
    let g = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match g(1) {
        "worker" => {
            pin(g(4).parse().unwrap_or(0));
            worker(check(g(2), g(3) == "thorough"))
        }
        "check" => exit(run(g(2), g(3))),
        "list" => {
            for s in &check(g(2), g(3) == "thorough").scenarios {
                println!("{} {}", s.group, s.name);
            }
        }
        "one" => {
            // a single scenario, by index
            let c = check(g(2), g(3) == "thorough");
            let mut s = c.scenarios;
            let mut s = s.remove(g(4).parse().unwrap());
            pin(g(5).parse().unwrap_or(0));
            s.limit = g(6).parse().unwrap_or(s.limit);
            let t = Instant::now();
            match explore(&s) {
                Ok(r) => println!("{} {}: {} executions, {} points, {} states, {} outcomes, exhausted {}, {:?}", s.group, s.name, r.execs, r.points, r.states, r.outcomes, r.exhausted, t.elapsed()),
                Err(e) => println!("{} {}: {}", s.group, s.name, e),
            }
        }
        "selftest" => {
            let mut v = selftest::all();
            let (_, s) = v.remove(g(2).parse().unwrap());
            pin(g(3).parse().unwrap_or(0));
            exit(match explore(&s) {
                Ok(r) if r.exhausted => {
                    println!("{}: {} executions, {} points, {} threads", s.name, r.execs, r.points, r.threads);
                    0
                }
                Ok(_) => 12,
                Err(_) => 10,
            })
        }
        "replay" => exit(replay_file(g(2))),
        _ => exit(3),
    }
}

fn replay_file(f: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(f) else {
        eprintln!("cannot read {}", f);
        return 3;
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
    let c = match try_check(&get("property"), get("tier") == "thorough") {
        Ok(c) => c,
        Err(e) => {
            println!("{}", e);
            println!("VIOLATION property={} replay={}", get("property"), f);
            return 1;
        }
    };
    let name = get("scenario");
    let Some(sc) = c.scenarios.iter().find(|s| format!("{} {}", s.group, s.name) == name) else {
        eprintln!("no scenario {}", name);
        return 3;
    };
    let ch: Vec<i32> = get("choices").split(',').filter_map(|x| x.trim().parse().ok()).collect();
    // a deadlock ends the process with code 10
    match replay(sc, &ch) {
        Ok(()) => {
            println!("{}: the property held in this schedule", name);
            0
        }
        Err(e) => {
            println!("{}: {}", name, e);
            println!("VIOLATION property={} replay={}", get("property"), f);
            1
        }
    }
}

/// The names of what the explorer gets wrong
fn self_test() -> Vec<String> {
    let exe = std::env::current_exe().unwrap();
    let v: Vec<(bool, String)> = selftest::all().into_iter().map(|(b, s)| (b, s.name)).collect();
    let cs: Vec<_> = (0..v.len())
        .map(|i| Command::new(&exe).args(["selftest", &i.to_string(), &(i % 8).to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn())
        .collect();
    let mut bad = vec![];
    for (c, (find, name)) in cs.into_iter().zip(v) {
        let code = c.and_then(|mut c| c.wait()).ok().and_then(|s| s.code());
        if code != Some(if find { 10 } else { 0 }) {
            bad.push(format!("{} ended with {:?}", name, code));
        }
    }
    bad
}

fn run(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let bad = self_test();
    if !bad.is_empty() {
        println!("conc: the explorer fails its own tests: {}", bad.join("; "));
        return 2;
    }
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let c = match try_check(id, thorough) {
        Ok(c) => c,
        Err(e) => {
            let d = verif_dir().join("replays");
            std::fs::create_dir_all(&d).ok();
            let f = d.join(format!("{}-sequential.txt", id));
            std::fs::write(&f, format!("property={}\nscenario=sequential\ntier={}\nchoices=\nmessage={}\n", id, tier, e)).ok();
            println!("sequential: {}", e);
            println!("VIOLATION property={} replay={}", id, f.display());
            return 1;
        }
    };
    let known = known(id);
    let cap = Duration::from_secs(std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 300 }));
    let stuck = Duration::from_secs(if thorough { 240 } else { 120 });
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let sums: Mutex<BTreeMap<&'static str, Sum>> = Mutex::new(BTreeMap::new());
    let viol: Mutex<Vec<(usize, String, String)>> = Mutex::new(vec![]);
    let internal: Mutex<Vec<String>> = Mutex::new(vec![]);
    let exe = std::env::current_exe().unwrap();
    let n = c.scenarios.len();
    let known_hit: Mutex<Vec<String>> = Mutex::new(vec![]);
    let nproc: usize = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8).clamp(1, 32);
    std::thread::scope(|sc| {
        for w in 0..nproc {
            let w = w.to_string();
            let (next, stop, sums, viol, internal, exe, known_hit, c, known) = (&next, &stop, &sums, &viol, &internal, &exe, &known_hit, &c, &known);
            sc.spawn(move || {
                'proc: loop {
                    if stop.load(Ordering::SeqCst) || next.load(Ordering::SeqCst) >= n {
                        return;
                    }
                    let Ok(mut ch) = Command::new(exe).args(["worker", id, tier, &w]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else {
                        internal.lock().unwrap().push("cannot start a worker".into());
                        return;
                    };
                    let mut inp = ch.stdin.take().unwrap();
                    let out = BufReader::new(ch.stdout.take().unwrap());
                    let (tx, rx) = mpsc::channel();
                    std::thread::spawn(move || {
                        for l in out.lines() {
                            match l {
                                Ok(l) => {
                                    if tx.send(l).is_err() {
                                        break;
                                    }
                                }
                                Err(_) => break,
                            }
                        }
                    });
                    loop {
                        if stop.load(Ordering::SeqCst) || t0.elapsed() > cap {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        let s = &c.scenarios[i];
                        if writeln!(inp, "{}", i).and_then(|_| inp.flush()).is_err() {
                            internal.lock().unwrap().push("a worker is gone".into());
                            return;
                        }
                        let mut msg: Option<String> = None;
                        let mut choices = String::new();
                        loop {
                            match rx.recv_timeout(stuck) {
                                Ok(l) if l == "B" => {
                                    if t0.elapsed() > cap + Duration::from_secs(60) {
                                        // unfinished scenario, counted as capped
                                        let mut m = sums.lock().unwrap();
                                        let e = m.entry(s.group).or_default();
                                        e.scenarios += 1;
                                        e.capped += 1;
                                        drop(m);
                                        let _ = ch.kill();
                                        let _ = ch.wait();
                                        return;
                                    }
                                }
                                Ok(l) => {
                                    if let Some(d) = l.strip_prefix("DONE ") {
                                        let v: Vec<u64> = d.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                                        let mut m = sums.lock().unwrap();
                                        let e = m.entry(s.group).or_default();
                                        e.scenarios += 1;
                                        e.capped += 1 - v[0];
                                        e.execs += v[1];
                                        e.points += v[2];
                                        e.threads = e.threads.max(v[4]);
                                        e.preempt += v[5];
                                        e.diverged += v[6];
                                        e.maxc = e.maxc.max(v[7]);
                                        e.states += v[8];
                                        e.outcomes += v[9];
                                        e.pruned += v[10];
                                        if v[0] == 0 {
                                            e.cut.push(s.name.clone());
                                        }
                                        if e.sample.is_empty() || v[1] % 7 == 3 {
                                            e.sample = format!("{} {}: {} schedules, {} steps, {} outcomes", s.group, s.name, v[1], v[2], v[9]);
                                        }
                                        break;
                                    }
                                    if let Some(d) = l.strip_prefix("FAIL ") {
                                        msg = Some(d.to_string());
                                    } else if let Some(d) = l.strip_prefix("CHOICES") {
                                        choices = d.trim().replace(' ', ",");
                                    } else if let Some(d) = l.strip_prefix("ERROR ") {
                                        internal.lock().unwrap().push(d.to_string());
                                    }
                                }
                                Err(e) => {
                                    if e == mpsc::RecvTimeoutError::Timeout {
                                        let _ = ch.kill();
                                        msg = Some("an execution does not end".into());
                                    }
                                    let st = ch.wait();
                                    if msg.is_none() {
                                        use std::os::unix::process::ExitStatusExt;
                                        match st {
                                            Ok(s) if s.signal() == Some(9) => internal.lock().unwrap().push("a worker was killed".into()),
                                            Ok(s) if s.code() == Some(12) => internal.lock().unwrap().push("a worker failed".into()),
                                            Ok(s) => msg = Some(format!("the process ended with {}", s)),
                                            Err(_) => internal.lock().unwrap().push("cannot wait".into()),
                                        }
                                    }
                                    if let Some(m) = msg {
                                        let full = format!("{} {}: {}", s.group, s.name, m);
                                        if let Some(k) = known.iter().find(|k| full.contains(*k)) {
                                            known_hit.lock().unwrap().push(k.clone());
                                        } else {
                                            viol.lock().unwrap().push((i, m, choices));
                                            stop.store(true, Ordering::SeqCst);
                                        }
                                        continue 'proc;
                                    }
                                    stop.store(true, Ordering::SeqCst);
                                    return;
                                }
                            }
                        }
                    }
                    drop(inp);
                    let _ = ch.wait();
                    return;
                }
            });
        }
    });
    let sums = sums.into_inner().unwrap();
    let mut viol = viol.into_inner().unwrap();
    viol.sort();
    viol.truncate(1);
    let internal = internal.into_inner().unwrap();
    let mut kh = known_hit.into_inner().unwrap();
    kh.sort();
    kh.dedup();
    for k in &kh {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    let mut code = 0;
    for (i, m, ch) in &viol {
        let s = &c.scenarios[*i];
        let d = verif_dir().join("replays");
        std::fs::create_dir_all(&d).ok();
        let f = d.join(format!("{}-{}.txt", id, s.group.replace(' ', "-")));
        let text = format!(
            "property={}\nscenario={} {}\ntier={}\nchoices={}\nmessage={}\n--- replay with: bash {}/bin/conc.sh replay {}\n",
            id, s.group, s.name, tier, ch, m, verif_dir().display(), f.display()
        );
        std::fs::write(&f, text).ok();
        println!("{} {}: {}", s.group, s.name, m);
        println!("VIOLATION property={} replay={}", id, f.display());
        code = 1;
    }
    if code == 0 && !internal.is_empty() {
        println!("conc: {}", internal.join("; "));
        code = 2;
    }
    let tot = |f: &dyn Fn(&Sum) -> u64| sums.values().map(f).sum::<u64>();
    let (execs, points, states, outcomes, done, capped) = (tot(&|s| s.execs), tot(&|s| s.points), tot(&|s| s.states), tot(&|s| s.outcomes), tot(&|s| s.scenarios), tot(&|s| s.capped));
    let exhaustive = code == 0 && done == n as u64 && capped == 0;
    let mut j = String::new();
    j.push_str(&format!("{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n", id, tier, seed));
    j.push_str(&format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", states, points, execs));
    j.push_str(&format!("  \"schedules\": {},\n  \"schedules_joining_an_explored_state\": {},\n  \"preemptions\": {},\n  \"distinct_outcomes\": {},\n  \"scenarios\": {},\n  \"scenarios_cut_short\": {},\n  \"explorer_self_tests\": {},\n  \"diverged\": {},\n  \"exhaustive\": {},\n", execs, tot(&|s| s.pruned), tot(&|s| s.preempt), outcomes, done, capped, selftest::all().len(), tot(&|s| s.diverged), exhaustive));
    j.push_str("  \"state_meaning\": \"distinct combinations of what every thread has done and seen at a step; each schedule is an execution of the compiled code, all schedules within the preemption bound are run\",\n");
    j.push_str("  \"groups\": [\n");
    let gs: Vec<String> = c
        .groups
        .iter()
        .map(|g| {
            let s = sums.get(g.name).cloned().unwrap_or_default();
            format!(
                "   {{\"name\": \"{}\", \"bound\": \"{}\", \"scenarios\": {}, \"schedules\": {}, \"steps\": {}, \"states\": {}, \"outcomes\": {}, \"max_threads\": {}, \"max_decisions\": {}, \"cut_short\": {}, \"cut_short_names\": [{}]}}",
                g.name, esc(&g.bound), s.scenarios, s.execs, s.points, s.states, s.outcomes, s.threads, s.maxc, s.capped, s.cut.iter().map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(", ")
            )
        })
        .collect();
    j.push_str(&gs.join(",\n"));
    j.push_str("\n  ],\n  \"samples\": [");
    j.push_str(&sums.values().filter(|s| !s.sample.is_empty()).map(|s| format!("\"{}\"", esc(&s.sample))).collect::<Vec<_>>().join(",\n   "));
    j.push_str("]\n },\n \"assumptions\": [\"sequentially consistent memory\", \"threads are switched only at atomic operations, system calls, pool operations and accesses to static variables outside of locks; plain accesses to shared heap memory are assumed to be ordered by those\"],\n");
    j.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), viol.len()));
    let ed = verif_dir().join("evidence");
    std::fs::create_dir_all(&ed).ok();
    if std::fs::write(ed.join(format!("{}.json", id)), j).is_err() && code == 0 {
        eprintln!("cannot write evidence");
        code = 2;
    }
    println!("{} {}: {} scenarios, {} schedules, {} states, {} steps, {} outcomes, {} cut short, {:.1} s", id, tier, done, execs, states, points, outcomes, capped, t0.elapsed().as_secs_f64());
    code
}
