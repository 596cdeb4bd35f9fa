//! The explorer has to find these, and to accept their repaired forms
use crate::rt::*;
use rayon::prelude::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};

static SCRATCH: AtomicUsize = AtomicUsize::new(0);
static mut PLAIN: usize = 0;

fn two(bad: &'static str, pool: usize, body: impl Fn() -> Result<u64, String> + Send + Sync + 'static) -> Scenario {
    Scenario {
        group: "selftest",
        name: bad.into(),
        pool,
        bound: 2,
        delays: -1,
        limit: 200_000,
        body: Box::new(body),
    }
}

fn both(f: impl Fn(usize) -> usize) -> Result<Vec<usize>, String> {
    let f = &f;
    par(vec![Box::new(move || f(0)) as Box<dyn FnOnce() -> usize>, Box::new(move || f(1))])
}

fn expect(ok: bool) -> Result<u64, String> {
    if ok {
        Ok(0)
    } else {
        Err("wrong".into())
    }
}

/// name, whether something has to be found, scenario
pub fn all() -> Vec<(bool, Scenario)> {
    vec![
        (
            true,
            two("lost update", 1, || {
                let c = AtomicUsize::new(0);
                both(|_| {
                    let v = c.load(Ordering::SeqCst);
                    c.store(v + 1, Ordering::SeqCst);
                    0
                })?;
                expect(c.load(Ordering::SeqCst) == 2)
            }),
        ),
        (
            false,
            two("no lost update", 1, || {
                let c = AtomicUsize::new(0);
                both(|_| c.fetch_add(1, Ordering::SeqCst))?;
                expect(c.load(Ordering::SeqCst) == 2)
            }),
        ),
        (
            true,
            two("lock order", 1, || {
                let m = [Mutex::new(0), Mutex::new(0)];
                both(|i| {
                    let mut a = m[i].lock().unwrap();
                    let mut b = m[1 - i].lock().unwrap();
                    *a += 1;
                    *b += 1;
                    0
                })?;
                Ok(0)
            }),
        ),
        (
            false,
            two("one lock order", 1, || {
                let m = [Mutex::new(0), Mutex::new(0)];
                both(|_| {
                    let mut a = m[0].lock().unwrap();
                    let mut b = m[1].lock().unwrap();
                    *a += 1;
                    *b += 1;
                    0
                })?;
                let n = *m[0].lock().unwrap();
                expect(n == 2)
            }),
        ),
        (
            true,
            two("check and act", 1, || {
                let m = Mutex::new(0);
                both(|_| {
                    let v = *m.lock().unwrap();
                    *m.lock().unwrap() = v + 1;
                    0
                })?;
                let n = *m.lock().unwrap();
                expect(n == 2)
            }),
        ),
        (
            true,
            two("unlocked static", 1, || {
                unsafe { std::ptr::write_volatile(&raw mut PLAIN, 0) };
                both(|_| unsafe {
                    let v = std::ptr::read_volatile(&raw const PLAIN);
                    std::ptr::write_volatile(&raw mut PLAIN, v + 1);
                    0
                })?;
                expect(unsafe { std::ptr::read_volatile(&raw const PLAIN) } == 2)
            }),
        ),
        (
            true,
            two("shared scratch in a pool", 2, || {
                let v: Vec<usize> = (0..3usize)
                    .into_par_iter()
                    .map(|i| {
                        let s = &SCRATCH;
                    s.store(i, Ordering::SeqCst);
                        s.load(Ordering::SeqCst)
                    })
                    .collect();
                expect(v == [0, 1, 2])
            }),
        ),
        (
            false,
            two("pool", 2, || {
                let v: Vec<usize> = (0..3usize).into_par_iter().map(|i| i * i).collect();
                expect(v == [0, 1, 4])
            }),
        ),
        (
            true,
            two("order of a sum in a pool", 2, || {
                let m = Mutex::new(vec![]);
                (0..2usize).into_par_iter().for_each(|i| m.lock().unwrap().push(i));
                let v = m.into_inner().unwrap();
                expect(v == [0, 1])
            }),
        ),
        (
            true,
            two("lock held over a parallel loop", 2, || {
                let m = Mutex::new(0);
                let g = m.lock().unwrap();
                (0..2usize).into_par_iter().for_each(|_| *m.lock().unwrap() += 1);
                drop(g);
                Ok(0)
            }),
        ),
        (
            true,
            two("lost wakeup", 1, || {
                let (m, c) = (Mutex::new(false), Condvar::new());
                both(|i| {
                    if i == 0 {
                        *m.lock().unwrap() = true;
                        c.notify_one();
                    } else {
                        let ready = *m.lock().unwrap();
                        if !ready {
                            drop(c.wait(m.lock().unwrap()));
                        }
                    }
                    0
                })?;
                Ok(0)
            }),
        ),
        (
            false,
            two("wakeup", 1, || {
                let (m, c) = (Mutex::new(false), Condvar::new());
                both(|i| {
                    if i == 0 {
                        *m.lock().unwrap() = true;
                        c.notify_one();
                    } else {
                        let mut g = m.lock().unwrap();
                        while !*g {
                            g = c.wait(g).unwrap();
                        }
                    }
                    0
                })?;
                Ok(0)
            }),
        ),
    ]
}
