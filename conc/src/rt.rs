//! The explorer's interface (rt/rt.c)
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn mc_spawn(f: unsafe extern "C" fn(*mut u8), arg: *mut u8) -> i32;
    fn mc_join(t: i32);
    fn mc_choose(n: i32) -> i32;
    fn mc_self() -> i32;
    fn mc_explore(body: unsafe extern "C" fn(*mut u8), arg: *mut u8, after: unsafe extern "C" fn(*mut u8) -> i32, bound: i32, limit: i64, st: *mut u64) -> i32;
    fn mc_replay(body: unsafe extern "C" fn(*mut u8), arg: *mut u8, after: unsafe extern "C" fn(*mut u8) -> i32, bound: i32, c: *const i32, n: i32) -> i32;
    fn mc_print_choices();
    fn mc_pin(k: i32);
    static mut mc_pool_size: i32;
    static mut mc_delay_bound: i32;
    static mut mc_heartbeat: *mut i64;
}

pub fn managed() -> bool {
    unsafe { mc_self() >= 0 }
}

/// A decision that is enumerated
pub fn choose(n: usize) -> usize {
    unsafe { mc_choose(n as i32) as usize }
}

pub fn message(e: Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

struct Task<'a, R> {
    f: Option<Box<dyn FnOnce() -> R + 'a>>,
    r: Option<Result<R, String>>,
}

unsafe extern "C" fn task<R>(p: *mut u8) {
    let t = &mut *(p as *mut Task<R>);
    let f = t.f.take().unwrap();
    t.r = Some(catch_unwind(AssertUnwindSafe(f)).map_err(message));
}

/// Run threads side by side; outside of an exploration one after the other
pub fn par<'a, R: 'a>(fs: Vec<Box<dyn FnOnce() -> R + 'a>>) -> Result<Vec<R>, String> {
    let mut ts: Vec<Box<Task<R>>> = fs.into_iter().map(|f| Box::new(Task { f: Some(f), r: None })).collect();
    if managed() {
        let ids: Vec<i32> = ts.iter_mut().map(|t| unsafe { mc_spawn(task::<R>, &mut **t as *mut Task<R> as *mut u8) }).collect();
        for i in ids {
            unsafe { mc_join(i) };
        }
    } else {
        for t in ts.iter_mut() {
            unsafe { task::<R>(&mut **t as *mut Task<R> as *mut u8) };
        }
    }
    let mut out = vec![];
    for (i, t) in ts.into_iter().enumerate() {
        out.push(t.r.unwrap().map_err(|e| format!("thread {} panicked: {}", i, e))?);
    }
    Ok(out)
}

/// One closed program to explore
pub struct Scenario {
    pub group: &'static str,
    pub name: String,
    /// worker threads of the pool
    pub pool: usize,
    /// preemption bound
    pub bound: i32,
    /// how often a schedule may deviate from the one that always takes the first choice; < 0: unlimited
    pub delays: i32,
    pub limit: i64,
    /// the hash of what was observed, or what is wrong
    pub body: Box<dyn Fn() -> Result<u64, String> + Send + Sync>,
}

struct Run<'a> {
    body: &'a dyn Fn() -> Result<u64, String>,
    r: Option<Result<u64, String>>,
    outcomes: std::collections::HashSet<u64>,
    error: Option<String>,
}

unsafe extern "C" fn body(p: *mut u8) {
    let r = &mut *(p as *mut Run);
    let f = r.body;
    r.r = Some(match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(e) => Err(format!("panicked: {}", message(e))),
    });
}

unsafe extern "C" fn after(p: *mut u8) -> i32 {
    let r = &mut *(p as *mut Run);
    match r.r.take() {
        Some(Ok(h)) => {
            r.outcomes.insert(h);
            0
        }
        Some(Err(e)) => {
            r.error = Some(e);
            1
        }
        None => {
            r.error = Some("the execution did not finish".into());
            1
        }
    }
}

pub struct Stats {
    pub exhausted: bool,
    pub execs: u64,
    pub points: u64,
    pub choices: u64,
    pub threads: u64,
    pub preemptions: u64,
    pub diverged: u64,
    pub max_choices: u64,
    pub states: u64,
    pub pruned: u64,
    pub outcomes: u64,
}

/// Keep this process on one processor
pub fn pin(k: usize) {
    unsafe { mc_pin(k as i32) }
}

pub fn set_heartbeat(p: *mut i64) {
    unsafe { mc_heartbeat = p }
}

pub fn explore(s: &Scenario) -> Result<Stats, String> {
    let mut run = Run { body: &*s.body, r: None, outcomes: Default::default(), error: None };
    let mut st = [0u64; 9];
    let r = unsafe {
        mc_pool_size = s.pool as i32;
        mc_delay_bound = s.delays;
        mc_explore(body, &mut run as *mut Run as *mut u8, after, s.bound, s.limit, st.as_mut_ptr())
    };
    if let Some(e) = run.error {
        println!("FAIL {}", e.replace('\n', " "));
        unsafe { mc_print_choices() };
        return Err(e);
    }
    Ok(Stats {
        exhausted: r == 0,
        execs: st[0],
        points: st[1],
        choices: st[2],
        threads: st[3],
        preemptions: st[4],
        diverged: st[5],
        max_choices: st[6],
        states: st[7],
        pruned: st[8],
        outcomes: run.outcomes.len() as u64,
    })
}

/// Run one schedule
pub fn replay(s: &Scenario, choices: &[i32]) -> Result<(), String> {
    let mut run = Run { body: &*s.body, r: None, outcomes: Default::default(), error: None };
    unsafe {
        mc_pool_size = s.pool as i32;
        mc_delay_bound = s.delays;
        mc_replay(body, &mut run as *mut Run as *mut u8, after, s.bound, choices.as_ptr(), choices.len() as i32);
    }
    match run.error {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
