//! Checkpointed reversal: result (C12), memory and work (C13)
use crate::engine::*;
use advantage::drivers::reverse_sequence;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// A state of the sequence that knows its position and counts how many of its kind exist
#[derive(Debug)]
struct St {
    pos: usize,
    h: u64,
}
fn born() {
    LIVE.with(|l| {
        l.set(l.get() + 1);
        PEAK.with(|p| p.set(p.get().max(l.get())));
    });
}
impl Clone for St {
    fn clone(&self) -> Self {
        born();
        St { pos: self.pos, h: self.h }
    }
}
impl Drop for St {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) ^ (v << 7)
}

struct Run {
    result: u64,
    forwards: usize,
    log: Vec<(bool, usize)>,
    peak: isize,
}

/// states_at[i]: hash of the state after i forward steps
fn states(n: usize) -> Vec<u64> {
    let mut v = vec![12345u64];
    for i in 0..n {
        let h = mix(v[i], i as u64 + 1);
        v.push(h);
    }
    v
}

fn run(n: usize, c: usize) -> Result<Run, String> {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    let forwards = Rc::new(Cell::new(0usize));
    let log = Rc::new(RefCell::new(vec![]));
    let (f2, l2, l3) = (forwards.clone(), log.clone(), log.clone());
    born();
    let start = St { pos: 0, h: 12345 };
    let result = panics(|| {
        reverse_sequence(
            start,
            n,
            c,
            move |mut s: St| {
                f2.set(f2.get() + 1);
                s.h = mix(s.h, s.pos as u64 + 1);
                s.pos += 1;
                s
            },
            move |s: St, r: u64| {
                l2.borrow_mut().push((false, s.pos));
                // not commutative: order matters
                mix(mix(r, s.h), 2 * s.pos as u64 + 1)
            },
            move |s: St| {
                l3.borrow_mut().push((true, s.pos));
                mix(s.h, 77)
            },
        )
    })?;
    let log = log.borrow().clone();
    let leaked = LIVE.with(|l| l.get());
    if leaked != 0 {
        return Err(format!("{} states were not dropped", leaked));
    }
    Ok(Run { result, forwards: forwards.get(), log, peak: PEAK.with(|p| p.get()) })
}

/// Least number of forward steps: binomial checkpointing with s = c - 1 stored states besides the
/// one about to be reversed, l = n + 1 states: r*l - C(s+r, s+1) with C(s+r-1, s) < l <= C(s+r, s)
fn binom(n: u128, k: u128) -> u128 {
    let k = k.min(n - k);
    let mut r = 1u128;
    for i in 0..k {
        r = match r.checked_mul(n - i) {
            Some(x) => x / (i + 1),
            None => return u128::MAX,
        };
    }
    r
}
fn optimum(n: usize, c: usize) -> u128 {
    let l = n as u128 + 1;
    if l == 1 {
        return 0;
    }
    let s = (c - 1).min(n) as u128; // more than n stored states are of no use
    let mut r = 0;
    while binom(s + r, s) < l {
        r += 1;
    }
    r * l - binom(s + r, s + 1)
}

/// the same by dynamic programming over all split points
fn optimum_dp(nmax: usize, cmax: usize) -> Vec<Vec<u64>> {
    let inf = u64::MAX / 4;
    let mut f = vec![vec![inf; cmax + 1]; nmax + 1];
    for c in 0..=cmax {
        f[0][c] = 0;
    }
    for n in 1..=nmax {
        for c in 2..=cmax {
            f[n][c] = (1..=n).map(|k| k as u64 + f[n - k][c - 1] + f[k - 1][c]).min().unwrap();
        }
    }
    f
}

fn pairs(thorough: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let (nm, cm) = if thorough { (600, 90) } else { (300, 48) };
    for c in 2..=cm {
        for n in 0..=nm {
            v.push((n, c));
        }
    }
    // every small sequence with every budget around and beyond its length
    for n in 0..=130 {
        for c in cm + 1..=n + 6 {
            v.push((n, c));
        }
        for c in [200, 255, 256, 257, 1000, 65536, 1 << 32, usize::MAX / 2, isize::MAX as usize, usize::MAX - 1, usize::MAX] {
            v.push((n, c));
        }
    }
    let big: &[usize] = if thorough { &[1000, 1023, 1024, 1025, 2000, 4096, 5000, 10_000, 32_768, 65_535, 65_536, 65_537, 100_000, 1_000_000] } else { &[1000, 1024, 1025, 2000, 4096, 10_000, 65_536, 65_537, 100_000] };
    for &n in big {
        for c in [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 64, 65, 100, 128, 200, 300, n - 1, n, n + 1, n + 2, 2 * n, usize::MAX] {
            if optimum(n, c) < if thorough { 400_000_000 } else { 8_000_000 } {
                v.push((n, c));
            }
        }
    }
    v
}

fn all(name: &'static str, property: u8, thorough: bool) -> Harness {
    let ps = pairs(thorough);
    let chunk = 64;
    Harness {
        name,
        bound: format!("{} pairs (steps, budget): all steps <= 300 x budgets 2..48 (thorough 600 x 90), short sequences with every larger budget up to usize::MAX, sequences up to 100000 (1000000) steps", ps.len()),
        units: ps.len().div_ceil(chunk),
        run: Box::new(move |ex, u| {
            // the long ones first
            let nu = ps.len().div_ceil(chunk);
            let lo = (nu - 1 - u) * chunk;
            let (n, c) = ps[lo + ex.choose((ps.len() - lo).min(chunk))];
            ex.note(|| format!("{} steps with a budget of {}", n, c));
            ex.state(&(n, c));
            let r = run(n, c).map_err(|e| format!("reversing {} steps with budget {}: {}", n, c, e))?;
            ex.transitions += (r.forwards + r.log.len()) as u64;
            ex.outcome(&(r.forwards, r.peak));
            if property == 12 {
                let st = states(n);
                let mut want = mix(st[n], 77);
                for i in (0..n).rev() {
                    want = mix(mix(want, st[i]), 2 * i as u64 + 1);
                }
                let order_ok = r.log.len() == n + 1 && r.log[0] == (true, n) && r.log[1..].iter().enumerate().all(|(k, e)| *e == (false, n - 1 - k));
                if !order_ok {
                    let k = (0..=n).find(|k| r.log.get(*k) != Some(&(*k == 0, n - k))).unwrap_or(n + 1);
                    return Err(format!("{} steps, budget {}: call number {} of terminal/reverse is {:?} (terminal, position)", n, c, k, r.log.get(k)));
                }
                if r.result != want {
                    return Err(format!("{} steps, budget {}: result {:#x} instead of {:#x}", n, c, r.result, want));
                }
            } else {
                let limit = c.saturating_add(1);
                if r.peak as usize > limit {
                    return Err(format!("{} steps, budget {}: {} states exist at a time", n, c, r.peak));
                }
                let best = optimum(n, c);
                if r.forwards as u128 != best {
                    return Err(format!("{} steps, budget {}: {} forward steps, {} suffice", n, c, r.forwards, best));
                }
            }
            Ok(())
        }),
    }
}

fn rejected() -> Harness {
    Harness {
        name: "budget_below_two",
        bound: "budgets 0 and 1, sequences of 0..40 steps".into(),
        units: 2,
        run: Box::new(|ex, c| {
            let n = ex.choose(41);
            ex.note(|| format!("{} steps with a budget of {}", n, c));
            ex.state(&(n, c, "low"));
            ex.step();
            match run(n, c) {
                Ok(_) => Err(format!("a budget of {} was accepted for {} steps", c, n)),
                Err(m) if m.contains("not dropped") => Err(m),
                Err(_) => Ok(()),
            }
        }),
    }
}

/// Other types of state and result than the instrumented one
fn types() -> Harness {
    Harness {
        name: "state_types",
        bound: "strings and vectors as states and results, 0..12 steps, budgets 2..8".into(),
        units: 13,
        run: Box::new(|ex, n| {
            let c = 2 + ex.choose(7);
            ex.note(|| format!("{} steps with a budget of {}", n, c));
            ex.state(&(n, c, "types"));
            ex.step();
            let r = reverse_sequence(
                String::from("s"),
                n,
                c,
                |s| format!("{}{}", s, s.len() % 10),
                |s, r: Vec<String>| {
                    let mut r = r;
                    r.push(s);
                    r
                },
                |s| vec![format!("end {}", s)],
            );
            let mut st = vec![String::from("s")];
            for i in 0..n {
                let s = format!("{}{}", st[i], st[i].len() % 10);
                st.push(s);
            }
            let mut want = vec![format!("end {}", st[n])];
            want.extend(st[..n].iter().rev().cloned());
            if r != want {
                return Err(format!("{} steps, budget {}: {:?} instead of {:?}", n, c, r, want));
            }
            Ok(())
        }),
    }
}

fn self_check() -> Harness {
    Harness {
        name: "optimum_formula",
        bound: "closed form against dynamic programming for steps <= 150, budgets <= 40".into(),
        units: 1,
        run: Box::new(|ex, _| {
            let dp = optimum_dp(150, 40);
            for n in 0..=150 {
                for c in 2..=40 {
                    ex.count("optimum_formula_vs_dp");
                    assert_eq!(optimum(n, c), dp[n][c] as u128, "reference optimum at {} {}", n, c);
                }
            }
            ex.note(|| "the two references for the optimum agree".into());
            Ok(())
        }),
    }
}

pub fn c12(thorough: bool) -> Check {
    Check {
        property: "C12",
        harnesses: vec![all("reversal", 12, thorough), rejected(), types()],
        assumptions: vec!["forward and reverse functions are deterministic and do not panic".into()],
    }
}
pub fn c13(thorough: bool) -> Check {
    Check {
        property: "C13",
        harnesses: vec![all("memory_and_work", 13, thorough), self_check()],
        assumptions: vec!["forward transforms its state in place, so that states are counted by clone and drop alone".into()],
    }
}
