//! C25 a failure in the middle of a call leaves nothing behind
use crate::engine::*;
use crate::props::wf::well_formed;
use advantage::drivers::*;
use advantage::{AContext, ADouble, DMatrix, DVector, Float, Function, FunctionChain, Tape};
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};

/// steps of user code so far, and the one that fails
static STEPS: AtomicUsize = AtomicUsize::new(0);
static FAIL: AtomicUsize = AtomicUsize::new(usize::MAX);
/// elements of sequences that are alive
static LIVE: AtomicIsize = AtomicIsize::new(0);

const MESSAGE: &str = "the planned failure";

fn tick() {
    if STEPS.fetch_add(1, SeqCst) == FAIL.load(SeqCst) {
        panic!("{}", MESSAGE);
    }
}

/// two inputs, two outputs, with or without kinks
#[derive(Clone)]
struct F(u8);
impl Function for F {
    fn n(&self) -> usize {
        2
    }
    fn m(&self) -> usize {
        2
    }
    fn eval(&self, v: DVector<ADouble>) -> DVector<ADouble> {
        tick();
        let (x, y) = (v[0], v[1]);
        let a = x * y;
        tick();
        let b = match self.0 {
            0 => a.sin() - y * 2.0,
            1 => (a - y * 2.0).abs(),
            _ => (a - 1.0).max(y),
        };
        tick();
        let c = b * x + 0.5;
        tick();
        let r = DVector::from_vec(vec![b - x, if self.0 == 1 { (c - b).abs() } else { c }]);
        tick();
        r
    }
}

/// many columns and rows: every worker takes part
struct Many(usize);
impl Function for Many {
    fn n(&self) -> usize {
        self.0
    }
    fn m(&self) -> usize {
        self.0
    }
    fn eval(&self, v: DVector<ADouble>) -> DVector<ADouble> {
        tick();
        DVector::from_fn(self.0, |i, _| v[i] * v[(i + 1) % self.0] - v[i] * 0.5)
    }
}

struct Elem(f64);
impl Elem {
    fn new(v: f64) -> Elem {
        LIVE.fetch_add(1, SeqCst);
        Elem(v)
    }
}
impl std::fmt::Debug for Elem {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl Clone for Elem {
    fn clone(&self) -> Elem {
        tick();
        Elem::new(self.0)
    }
}
impl Drop for Elem {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
    }
}

fn vecs(v: &[&[f64]]) -> Vec<u64> {
    v.iter().flat_map(|v| std::iter::once(v.len() as u64).chain(v.iter().map(|x| x.to_bits()))).collect()
}
fn mats(v: &[&DMatrix<f64>]) -> Vec<u64> {
    v.iter().flat_map(|m| [m.nrows() as u64, m.ncols() as u64].into_iter().chain(m.iter().map(|x| x.to_bits()))).collect()
}
fn gj(g: &GeneralizedJacobian) -> Vec<u64> {
    let mut r = mats(&[&g.homogenous]);
    r.extend(vecs(&[g.inhomogenous.as_slice()]));
    r.push(g.multiplicity as u64);
    r
}
fn dv(v: &[f64]) -> DVector<f64> {
    DVector::from_vec(v.to_vec())
}
fn chain() -> FunctionChain {
    let mut c = FunctionChain::new(F(1));
    c.append(F(2));
    let mut d = FunctionChain::new(F(0));
    d.append(F(1));
    c.append(d);
    c
}

const SCENARIOS: [&str; 16] = [
    "tape",
    "jacobian_forward",
    "jacobian_forward of many",
    "jacobian_reverse of a recording of many",
    "abs_normal",
    "generalized_jacobian",
    "generalized_jacobian_chain",
    "chain evaluation",
    "chain recording",
    "reverse_sequence",
    "recording on a context",
    "replay at a wrong number of inputs",
    "reverse sweep over an absolute value",
    "sweep along a direction that is too short",
    "operators with operands that do not match",
    "combining variables of two contexts",
];
/// the library refuses them
const REFUSED: std::ops::Range<usize> = 11..16;

/// What is there before, during and after the calls
struct Fixture {
    tape: Box<dyn Tape>,
    kinky: Box<dyn Tape>,
    anf: AbsNormalTape,
    ctx: AContext,
    a: ADouble,
    b: ADouble,
}

impl Fixture {
    fn new() -> Fixture {
        let x = dv(&[0.75, -1.5]);
        let mut ctx = AContext::new();
        let (a, b) = (ctx.new_indep(0.5), ctx.new_indep(-3.0));
        Fixture { tape: F(0).tape(&x), kinky: F(1).tape(&x), anf: AbsNormalTape::new(F(1).tape(&x)), ctx, a, b }
    }

    fn run(&mut self, s: usize) -> Vec<u64> {
        let x = dv(&[0.75, -1.5]);
        let dx = dv(&[-0.25, 2.0]);
        match s {
            0 => {
                let t = F(0).tape(&x);
                vecs(&[t.y().as_slice(), t.values(), t.first_order_reverse(&dx).as_slice()])
            }
            1 => mats(&[&jacobian_forward(&F(0), &x)]),
            2 => mats(&[&jacobian_forward(&Many(24), &DVector::from_fn(24, |i, _| i as f64 - 3.0))]),
            3 => mats(&[&jacobian_reverse(&*Many(24).tape(&DVector::from_fn(24, |i, _| i as f64 - 3.0)))]),
            4 => {
                let a = abs_normal(&F(1), &x);
                let mut r = mats(&[&a.zmat, &a.lmat, &a.jmat, &a.ymat]);
                r.extend(vecs(&[a.a.as_slice(), a.b.as_slice()]));
                r
            }
            5 => gj(&generalized_jacobian(&F(2), &x, &dx, &[1], None)),
            6 => gj(&generalized_jacobian_chain(&chain(), x, dx, Some(2))),
            7 => vecs(&[chain().eval_float(x).as_slice()]),
            8 => {
                let t = chain().tape(&x);
                vecs(&[t.values(), t.first_order_forward(&dx).as_slice()])
            }
            9 => {
                let r = reverse_sequence(
                    Elem::new(1.5),
                    9,
                    3,
                    |e: Elem| {
                        tick();
                        Elem::new(0.5 * e.0 + 1.0)
                    },
                    |e: Elem, r: Elem| {
                        tick();
                        Elem::new(r.0 * 0.75 + e.0)
                    },
                    |e: Elem| {
                        tick();
                        Elem::new(e.0)
                    },
                );
                vecs(&[&[r.0]])
            }
            10 => {
                // on the context that is kept
                tick();
                let c = self.a * self.b;
                tick();
                let d = c.max(self.a) - 1.5;
                tick();
                self.ctx.set_dep(&d);
                tick();
                vecs(&[&[c.value(), d.value()]])
            }
            11 => {
                self.tape.zero_order(&dv(&[1.0, 2.0, 3.0]));
                vec![]
            }
            12 => vecs(&[self.kinky.first_order_reverse(&dv(&[1.0, 1.0])).as_slice()]),
            13 => vecs(&[self.tape.first_order_forward(&dv(&[1.0])).as_slice()]),
            14 => mats(&[&AbsNormalL::new(&self.anf).mul_left(&DMatrix::zeros(2, 5))]),
            _ => {
                let mut other = AContext::new();
                let v = self.a * other.new_indep(1.0);
                vecs(&[&[v.value()]])
            }
        }
    }

    /// everything that can be seen; the same whenever it is asked
    fn look(&self) -> Vec<u64> {
        let d = dv(&[0.5, -1.0]);
        let mut r = vecs(&[
            self.tape.values(),
            self.kinky.values(),
            self.tape.first_order_forward(&d).as_slice(),
            self.tape.first_order_reverse(&d).as_slice(),
            self.kinky.first_order_forward(&d).as_slice(),
            self.anf.z().as_slice(),
            &[self.a.value(), self.b.value()],
        ]);
        r.extend(mats(&[
            &AbsNormalZ::new(&self.anf).mul_right(&DMatrix::identity(2, 2)),
            &AbsNormalL::new(&self.anf).mul_left(&DMatrix::identity(2, 2)),
            &AbsNormalJ::new(&self.anf).row(1),
            &AbsNormalY::new(&self.anf).column(1),
        ]));
        r
    }
}

/// Contexts that are alive of those made since `from` was
fn alive(from: usize, ours: usize) -> Vec<usize> {
    let to = AContext::new().cid();
    (from..to).take(5000).filter(|c| *c != ours && AContext::from_cid(*c).is_some()).collect()
}

fn go(fx: &mut Fixture, s: usize, fail: usize) -> (Result<Vec<u64>, String>, usize) {
    STEPS.store(0, SeqCst);
    FAIL.store(fail, SeqCst);
    let r = panics(|| fx.run(s));
    FAIL.store(usize::MAX, SeqCst);
    (r, STEPS.load(SeqCst))
}

/// one thread takes all the work, so that it meets what the failed call left there
fn single<R: Send>(on: bool, f: impl FnOnce() -> R + Send) -> R {
    if on {
        rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap().install(f)
    } else {
        f()
    }
}

fn faults(name: &'static str, depth: usize) -> Harness {
    let reference: std::cell::RefCell<Option<std::rc::Rc<Vec<(Vec<u64>, usize)>>>> = Default::default();
    let ns = SCENARIOS.len();
    Harness {
        name,
        bound: format!("{} calls of {:?}, the user's code failing at every step of every one, or at none; all of them again afterwards; on one worker thread and on the pool", depth, SCENARIOS),
        units: 2 * ns,
        run: Box::new(move |ex, u| {
            let pool = u % 2 == 0;
            // what the calls give when nothing fails, and their numbers of steps
            let rf = reference
                .borrow_mut()
                .get_or_insert_with(|| {
                    let mut fx = Fixture::new();
                    std::rc::Rc::new(
                        (0..ns)
                            .map(|s| {
                                let (r, steps) = go(&mut fx, s, usize::MAX);
                                assert_eq!(r.is_err(), REFUSED.contains(&s), "{}: {:?}", SCENARIOS[s], r);
                                (r.unwrap_or_default(), steps)
                            })
                            .collect(),
                    )
                })
                .clone();
            let mut plan = vec![];
            for d in 0..depth {
                let s = if d == 0 { u / 2 } else { ex.choose(ns) };
                let steps = rf[s].1;
                // long calls on the pool: the step that fails is one of many alike
                let k = if s == 2 && pool { ex.choose(3) * (steps / 2) } else { ex.choose(steps + 1) };
                plan.push((s, k));
            }
            ex.note(|| plan.iter().map(|(s, k)| format!("{} failing at step {}", SCENARIOS[*s], k)).collect::<Vec<_>>().join(", ") + if pool { "; on the pool" } else { "; on one worker" });
            ex.state(&(&plan, pool));
            let told = format!("{:?} on {}", plan.iter().map(|(s, k)| (SCENARIOS[*s], *k)).collect::<Vec<_>>(), if pool { "the pool" } else { "one worker" });
            let rf = rf.to_vec();
            let mut transitions = 0;
            let result = single(!pool, || -> Res {
                let mut fx = Fixture::new();
                let (from, ours) = (AContext::new().cid(), fx.ctx.cid());
                let before = fx.look();
                let settle = |fx: &mut Fixture, what: &str| -> Res {
                    if fx.look() != before {
                        return Err(format!("{}: tapes or variables are not what they were", what));
                    }
                    well_formed(&fx.ctx.tape()).map_err(|e| format!("{}: the context that is kept records {}", what, e))?;
                    let l = LIVE.load(SeqCst);
                    if l != 0 {
                        return Err(format!("{}: {} elements of the sequence are still alive", what, l));
                    }
                    let a = alive(from, ours);
                    if !a.is_empty() {
                        return Err(format!("{}: {} contexts are still alive", what, a.len()));
                    }
                    Ok(())
                };
                for (s, k) in &plan {
                    transitions += 1;
                    let (r, _) = go(&mut fx, *s, *k);
                    let what = format!("after {} failing at step {}", SCENARIOS[*s], k);
                    match r {
                        Ok(r) => {
                            if *k < rf[*s].1 || REFUSED.contains(s) {
                                return Err(format!("{}: the failure is not passed on, the result is {:?}", what, r));
                            }
                            if r != rf[*s].0 {
                                return Err(format!("{} instead gives {:?}", SCENARIOS[*s], r));
                            }
                        }
                        Err(e) => {
                            if !REFUSED.contains(s) && (*k >= rf[*s].1 || !(e.contains(MESSAGE) || e.contains("another thread"))) {
                                return Err(format!("{}: {}", what, e));
                            }
                        }
                    }
                    settle(&mut fx, &what)?;
                }
                for s in 0..ns {
                    transitions += 1;
                    let (r, _) = go(&mut fx, s, usize::MAX);
                    match r {
                        Ok(r) if !REFUSED.contains(&s) && r == rf[s].0 => {}
                        Err(_) if REFUSED.contains(&s) => {}
                        r => return Err(format!("afterwards {} gives {:?} instead of {:?}", SCENARIOS[s], r, rf[s].0)),
                    }
                }
                settle(&mut fx, "in the end")
            });
            ex.transitions += transitions;
            ex.outcome(&(u, result.is_ok()));
            result.map_err(|e| format!("{}: {}", told, e))
        }),
    }
}

pub fn check(thorough: bool) -> Check {
    let mut hs = vec![faults("one_failure", 1), faults("two_failures", 2)];
    if thorough {
        hs.push(faults("three_failures", 3));
    }
    Check { property: "C25", harnesses: hs, assumptions: vec!["failures are panics of user code that unwind".into()] }
}
