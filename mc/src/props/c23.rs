//! C23 tapes are independent snapshots and sweeps leave no trace
use crate::engine::*;
use crate::props::c16::{eval, has_abs, Expr, E};
use advantage::drivers::{abs_normal, generalized_jacobian, generalized_jacobian_tape, jacobian_forward, jacobian_reverse, AbsNormalJ, AbsNormalL, AbsNormalTape, AbsNormalY, AbsNormalZ};
use advantage::{AContext, ADouble, DMatrix, DVector, Function, Tape};
use std::rc::Rc;

trait Dup: Tape {
    fn dup(&self) -> Box<dyn Dup>;
    fn plain(&self) -> Box<dyn Tape>;
}
impl<T: Tape + Clone + 'static> Dup for T {
    fn dup(&self) -> Box<dyn Dup> {
        Box::new(self.clone())
    }
    fn plain(&self) -> Box<dyn Tape> {
        Box::new(self.clone())
    }
}

/// a tape and what it has to be
struct MTape {
    t: Box<dyn Dup>,
    x: Vec<f64>,
    deps: Vec<E>,
    values: Vec<u64>,
}

struct World {
    ctx: Option<AContext>,
    vars: Vec<(ADouble, E, f64)>,
    xs: Vec<f64>,
    deps: Vec<E>,
    tapes: Vec<MTape>,
    log: Vec<String>,
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|v| v.to_bits()).collect()
}

fn direction(n: usize, k: usize) -> Vec<f64> {
    (0..n).map(|i| [1.0, -0.5, 2.0, 0.25][(i + k) % 4]).collect()
}

fn point(n: usize, k: usize) -> Vec<f64> {
    (0..n).map(|i| [[1.5, -2.0, 3.0, 0.5], [-1.0, 0.5, 0.0, 2.0], [4.0, 4.0, -1.5, 1.0]][k][i % 4]).collect()
}

impl World {
    fn start() -> World {
        let mut c = AContext::new();
        let xs = vec![1.5, -2.0];
        let mut vars = vec![];
        for (i, v) in xs.iter().enumerate() {
            vars.push((c.new_indep(*v), Rc::new(Expr::Indep(i)), *v));
        }
        let z: ADouble = vars[0].0 * vars[1].0;
        let e = Rc::new(Expr::Mul(vars[0].1.clone(), vars[1].1.clone()));
        c.set_dep(&z);
        vars.push((z, e.clone(), -3.0));
        let mut w = World { ctx: Some(c), vars, xs, deps: vec![e], tapes: vec![], log: vec![] };
        w.take();
        w
    }
    fn take(&mut self) {
        let t: Box<dyn Dup> = Box::new(self.ctx.as_ref().unwrap().tape());
        let values = bits(t.values());
        self.tapes.push(MTape { t, x: self.xs.clone(), deps: self.deps.clone(), values });
    }
    fn record(&mut self, v: ADouble, e: Expr) {
        let val = v.value();
        let e = if self.ctx.is_some() { Rc::new(e) } else { Rc::new(Expr::Konst(val)) };
        self.vars.push((v, e, val));
    }
    fn acts(&self) -> Vec<Act> {
        let mut r = vec![];
        let nv = self.vars.len();
        if self.ctx.is_some() {
            r.push(Act::Indep);
            r.push(Act::Mul(nv - 1, 0));
            r.push(Act::Abs(nv - 1));
            r.push(Act::Dep(nv - 1));
            r.push(Act::Dep(0));
            if self.tapes.len() < 3 {
                r.push(Act::Take);
            }
            r.push(Act::DropCtx);
        }
        for t in 0..self.tapes.len() {
            r.extend([Act::Replay(t, 1), Act::Replay(t, 2), Act::Bad(t, true), Act::Bad(t, false), Act::Forward(t), Act::Reverse(t), Act::Jacobian(t), Act::Decompose(t)]);
            if self.tapes.len() < 3 {
                r.push(Act::Clone(t));
            }
            if self.tapes.len() > 1 {
                r.push(Act::DropTape(t));
            }
        }
        r
    }
    /// reference derivatives: columns of the Jacobian where there is no abs
    fn grad(m: &MTape, k: usize) -> Vec<f64> {
        (0..m.x.len())
            .map(|j| {
                let mut d = vec![0.0; m.x.len()];
                d[j] = 1.0;
                eval(&m.deps[k], &m.x, &d).1
            })
            .collect()
    }
    fn smooth(m: &MTape) -> bool {
        m.t.num_abs() == 0
    }
    fn sweep(m: &MTape, k: usize) -> Res {
        let d = direction(m.x.len(), k);
        let dy = m.t.first_order_forward(&DVector::from_vec(d.clone()));
        let want: Vec<f64> = m.deps.iter().map(|e| eval(e, &m.x, &d).1).collect();
        if dy.as_slice() != want {
            return Err(format!("forward sweep along {:?} gives {:?} instead of {:?}", d, dy.as_slice(), want));
        }
        Ok(())
    }
    fn back(m: &MTape, k: usize) -> Res {
        let w = direction(m.deps.len(), k + 1);
        let r = panics(|| m.t.first_order_reverse(&DVector::from_vec(w.clone())));
        if !Self::smooth(m) {
            return if r.is_ok() { Err("reverse sweep of a tape with abs is not refused".into()) } else { Ok(()) };
        }
        let xb = match r {
            Ok(x) => x,
            Err(e) => return Err(format!("reverse sweep panics: {}", e)),
        };
        let mut want = vec![0.0; m.x.len()];
        for (i, wi) in w.iter().enumerate() {
            for (j, g) in Self::grad(m, i).into_iter().enumerate() {
                want[j] += wi * g;
            }
        }
        if xb.as_slice() != want {
            return Err(format!("reverse sweep with {:?} gives {:?} instead of {:?}", w, xb.as_slice(), want));
        }
        Ok(())
    }
    fn step(&mut self, a: Act) -> Res {
        self.log.push(format!("{:?}", a));
        match a {
            Act::Indep => {
                let v = 3.0;
                let x = self.ctx.as_mut().unwrap().new_indep(v);
                let e = Expr::Indep(self.xs.len());
                self.xs.push(v);
                self.record(x, e);
            }
            Act::Mul(a, b) => {
                let v = self.vars[a].0 * self.vars[b].0;
                let e = Expr::Mul(self.vars[a].1.clone(), self.vars[b].1.clone());
                self.record(v, e);
            }
            Act::Abs(a) => {
                let v = num::Float::abs(self.vars[a].0);
                let e = Expr::Abs(self.vars[a].1.clone());
                self.record(v, e);
            }
            Act::Dep(a) => {
                self.ctx.as_mut().unwrap().set_dep(&self.vars[a].0);
                self.deps.push(self.vars[a].1.clone());
            }
            Act::Take => self.take(),
            Act::DropCtx => self.ctx = None,
            Act::Clone(i) => {
                let m = &self.tapes[i];
                let c = MTape { t: m.t.dup(), x: m.x.clone(), deps: m.deps.clone(), values: m.values.clone() };
                self.tapes.push(c);
            }
            Act::DropTape(i) => {
                self.tapes.remove(i);
            }
            Act::Replay(i, p) => {
                let m = &mut self.tapes[i];
                let x = point(m.x.len(), p);
                m.t.zero_order(&DVector::from_vec(x.clone()));
                m.x = x;
                m.values = bits(m.t.values());
            }
            Act::Bad(i, more) => {
                let m = &mut self.tapes[i];
                let n = if more { m.x.len() + 1 } else { m.x.len() - 1 };
                let x = DVector::from_element(n, 9.0);
                let t = &mut m.t;
                if panics(|| t.zero_order(&x)).is_ok() {
                    return Err(format!("replay of a tape of {} inputs with {} is not refused", m.x.len(), n));
                }
            }
            Act::Forward(i) => {
                Self::sweep(&self.tapes[i], 1)?;
                Self::sweep(&self.tapes[i], 2)?;
            }
            Act::Reverse(i) => Self::back(&self.tapes[i], 1)?,
            Act::Jacobian(i) => {
                let m = &self.tapes[i];
                let mut t = m.t.plain();
                if Self::smooth(m) {
                    let j = jacobian_reverse(&*t);
                    for k in 0..m.deps.len() {
                        let g = Self::grad(m, k);
                        if (0..m.x.len()).any(|c| j[(k, c)] != g[c]) {
                            return Err(format!("row {} of the Jacobian is {:?} instead of {:?}", k, j.row(k), g));
                        }
                    }
                }
                // a boxed clone can be replayed on its own
                t.zero_order(&DVector::from_vec(point(m.x.len(), 2)));
                let d = direction(m.x.len(), 0);
                let g = generalized_jacobian_tape(t, &DVector::from_vec(d.clone()), &[0], None);
                let inc = &g.homogenous * DVector::from_vec(d.clone()) + &g.inhomogenous;
                for (k, e) in m.deps.iter().enumerate() {
                    let w = eval(e, &point(m.x.len(), 2), &d).1;
                    if inc[k] != w {
                        return Err(format!("generalized Jacobian of a replayed clone: increment {} of output {} instead of {}", inc[k], k, w));
                    }
                }
            }
            Act::Decompose(i) => {
                let m = &self.tapes[i];
                let a = AbsNormalTape::new(m.t.plain());
                let (n, s, mm) = (a.n(), a.s(), a.m());
                let (z, l, j, y) = (AbsNormalZ::new(&a), AbsNormalL::new(&a), AbsNormalJ::new(&a), AbsNormalY::new(&a));
                let before = bits(a.values());
                let r1 = (z.mul_right(&DMatrix::identity(n, n)), l.mul_left(&DMatrix::identity(s, s)), j.mul_left(&DMatrix::identity(mm, mm)), y.mul_right(&DMatrix::identity(s, s)));
                let r2 = (z.mul_left(&DMatrix::identity(s, s)), l.mul_right(&DMatrix::identity(s, s)), j.mul_right(&DMatrix::identity(n, n)), y.mul_left(&DMatrix::identity(mm, mm)));
                if r1 != r2 || bits(a.values()) != before || a.x().len() != n {
                    return Err("operators of a decomposed tape disagree or change it".into());
                }
            }
        }
        Ok(())
    }
    fn verify(&self, deep: bool) -> Res {
        for (i, m) in self.tapes.iter().enumerate() {
            let e = |s: String| Err(format!("tape {}: {}", i, s));
            if m.t.num_indeps() != m.x.len() || m.t.num_deps() != m.deps.len() {
                return e(format!("{} inputs and {} outputs instead of {} and {}", m.t.num_indeps(), m.t.num_deps(), m.x.len(), m.deps.len()));
            }
            if bits(m.t.values()) != m.values {
                return e("values changed".into());
            }
            if Tape::x(&*m.t).as_slice() != m.x {
                return e(format!("inputs {:?} instead of {:?}", m.t.x().as_slice(), m.x));
            }
            let d = direction(m.x.len(), 0);
            let want: Vec<f64> = m.deps.iter().map(|x| eval(x, &m.x, &d).0).collect();
            if m.t.y().as_slice() != want {
                return e(format!("outputs {:?} instead of {:?} at {:?}", m.t.y().as_slice(), want, m.x));
            }
            if deep {
                Self::sweep(m, 0).or_else(|x| e(x))?;
                if Self::smooth(m) && m.deps.iter().all(|x| !has_abs(x)) {
                    Self::back(m, 0).or_else(|x| e(x))?;
                }
                if bits(m.t.values()) != m.values {
                    return e("values changed by a sweep".into());
                }
            }
        }
        if let Some(c) = &self.ctx {
            let v = c.values();
            for (k, i) in c.indeps().iter().enumerate() {
                if v[*i] != self.xs[k] {
                    return Err(format!("input {} of the context changed to {}", k, v[*i]));
                }
            }
            for (k, i) in c.deps().iter().enumerate() {
                let w = eval(&self.deps[k], &self.xs, &vec![0.0; self.xs.len()]).0;
                if v[*i] != w {
                    return Err(format!("output {} of the context changed to {}", k, v[*i]));
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone, Copy, Debug)]
enum Act {
    Indep,
    Mul(usize, usize),
    Abs(usize),
    Dep(usize),
    Take,
    DropCtx,
    Clone(usize),
    DropTape(usize),
    Replay(usize, usize),
    Bad(usize, bool),
    Forward(usize),
    Reverse(usize),
    Jacobian(usize),
    Decompose(usize),
}

fn histories(depth: usize) -> Harness {
    Harness {
        name: "histories",
        bound: format!("from a recorded product and a tape of it: all histories of {} steps (record, mark outputs, take, clone, drop and replay tapes at two points or with wrong dimension, sweep both ways, Jacobian, generalized Jacobian, decompose, drop the context), up to 3 tapes", depth),
        units: World::start().acts().len(),
        run: Box::new(move |ex, u| {
            let mut w = World::start();
            for k in 0..depth {
                let acts = w.acts();
                let c = if k == 0 { u } else { ex.choose(acts.len()) };
                ex.step();
                w.step(acts[c]).and_then(|_| w.verify(k + 1 == depth)).map_err(|e| format!("{} after {:?}", e, w.log))?;
            }
            ex.note(|| format!("{:?}", w.log));
            ex.state(&(w.ctx.is_some(), w.vars.len(), w.tapes.iter().map(|m| (bits(&m.x), format!("{:?}", m.deps))).collect::<Vec<_>>()));
            ex.outcome(&w.tapes.iter().map(|m| m.values.clone()).collect::<Vec<_>>());
            Ok(())
        }),
    }
}

/// Tapes of very different size used in turns
fn mixed(thorough: bool) -> Harness {
    let sizes: Vec<usize> = vec![1, 2, 5, 33, 64, 65, 130];
    let depth = if thorough { 4 } else { 3 };
    struct Sum(usize);
    impl Function for Sum {
        fn n(&self) -> usize {
            self.0
        }
        fn m(&self) -> usize {
            2
        }
        fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
            let mut s = x[0];
            let mut p = x[0] * 2.0;
            for i in 1..self.0 {
                s = s * 0.5 + x[i];
                p = p - x[i] * (i % 3) as f64;
            }
            DVector::from_vec(vec![s * x[0], p])
        }
    }
    fn want(n: usize, x: &[f64], d: &[f64]) -> [(f64, f64); 2] {
        let (mut s, mut ds, mut p, mut dp) = (x[0], d[0], x[0] * 2.0, d[0] * 2.0);
        for i in 1..n {
            s = s * 0.5 + x[i];
            ds = ds * 0.5 + d[i];
            p -= x[i] * (i % 3) as f64;
            dp -= d[i] * (i % 3) as f64;
        }
        [(s * x[0], ds * x[0] + s * d[0]), (p, dp)]
    }
    let pairs: Vec<(usize, usize)> = (0..sizes.len()).flat_map(|a| (0..sizes.len()).map(move |b| (a, b))).filter(|(a, b)| a != b).collect();
    Harness {
        name: "mixed_sizes",
        bound: format!("two tapes with sizes from {:?} inputs: all sequences of {} replays, sweeps and drivers alternating between them in any way", sizes, depth),
        units: pairs.len(),
        run: Box::new(move |ex, u| {
            let (a, b) = pairs[u];
            let ns = [sizes[a], sizes[b]];
            let fs = [Sum(ns[0]), Sum(ns[1])];
            let mut at = [0usize, 1];
            // values are small multiples of 2^-k and not exact for many inputs
            let pt = |n: usize, k: usize| -> Vec<f64> { (0..n).map(|i| ((i * 7 + k * 3) % 5) as f64 - 2.0).collect() };
            let mut ts: Vec<Box<dyn Tape>> = (0..2).map(|i| fs[i].tape(&DVector::from_vec(pt(ns[i], at[i])))).collect();
            let near = |g: f64, w: f64| w.is_finite() && (g - w).abs() <= 1e-9 * (1.0 + w.abs());
            let mut log = vec![];
            for _ in 0..depth {
                let i = ex.choose(2);
                let op = ex.choose(5);
                log.push((i, op));
                ex.step();
                let n = ns[i];
                let x = pt(n, at[i]);
                let fail = |s: String| Err(format!("{} inputs: {} after {:?} on tapes of {:?} inputs", n, s, log, ns));
                match op {
                    0 => {
                        at[i] = (at[i] + 2) % 7;
                        let x = pt(n, at[i]);
                        ts[i].zero_order(&DVector::from_vec(x.clone()));
                        let w = want(n, &x, &x);
                        if !near(ts[i].y()[0], w[0].0) || !near(ts[i].y()[1], w[1].0) {
                            return fail(format!("replay gives {:?} instead of {:?}", ts[i].y().as_slice(), w));
                        }
                    }
                    1 => {
                        let d = pt(n, 4);
                        let w = want(n, &x, &d);
                        let dy = ts[i].first_order_forward(&DVector::from_vec(d));
                        if !near(dy[0], w[0].1) || !near(dy[1], w[1].1) {
                            return fail(format!("forward sweep gives {:?} instead of {:?}", dy.as_slice(), w));
                        }
                    }
                    2 => {
                        let xb = ts[i].first_order_reverse(&DVector::from_vec(vec![1.0, -2.0]));
                        let d = pt(n, 5);
                        let w = want(n, &x, &d);
                        let g: f64 = xb.iter().zip(&d).map(|(a, b)| a * b).sum();
                        if !near(g, w[0].1 - 2.0 * w[1].1) {
                            return fail(format!("reverse sweep gives {} along {:?} instead of {}", g, d, w[0].1 - 2.0 * w[1].1));
                        }
                    }
                    3 => {
                        let j = jacobian_reverse(&*ts[i]);
                        let d = pt(n, 6);
                        let w = want(n, &x, &d);
                        let g = &j * DVector::from_vec(d);
                        if !near(g[0], w[0].1) || !near(g[1], w[1].1) {
                            return fail(format!("reverse Jacobian gives {:?} instead of {:?}", g.as_slice(), w));
                        }
                    }
                    _ => {
                        let xv = DVector::from_vec(x.clone());
                        let j = jacobian_forward(&fs[i], &xv);
                        let an = abs_normal(&fs[i], &xv);
                        let d = pt(n, 3);
                        let g = generalized_jacobian(&fs[i], &xv, &DVector::from_vec(d.clone()), &[], None);
                        let w = want(n, &x, &d);
                        for m in [&j, &an.jmat, &g.homogenous] {
                            let g = m * DVector::from_vec(d.clone());
                            if !near(g[0], w[0].1) || !near(g[1], w[1].1) {
                                return fail(format!("a driver gives {:?} instead of {:?}", g.as_slice(), w));
                            }
                        }
                    }
                }
            }
            ex.note(|| format!("{:?} on {:?} inputs", log, ns));
            ex.state(&(ns, at));
            ex.outcome(&bits(ts[0].values()));
            Ok(())
        }),
    }
}

/// A step of a program with absolute values
#[derive(Clone, Copy, Debug)]
enum N {
    K(f64),
    Add(usize, usize),
    Mul(usize, usize),
    Abs(usize),
}

/// n inputs, steps, outputs
type Prog = (usize, &'static [N], &'static [usize]);

const PROGS: &[Prog] = &[
    // |x| + x
    (1, &[N::Abs(0), N::Add(1, 0)], &[2]),
    // the absolute value itself, its argument, and a constant
    (2, &[N::Mul(0, 1), N::Abs(2), N::K(3.0)], &[3, 2, 4]),
    // nested, two of the same argument
    (2, &[N::Abs(0), N::Add(2, 1), N::Abs(3), N::Abs(0), N::Mul(4, 5)], &[6, 3]),
    // of a constant; not used by any output
    (1, &[N::K(-2.0), N::Abs(1), N::Mul(0, 2), N::Abs(3)], &[3]),
    // none
    (2, &[N::Mul(0, 1), N::Add(2, 0)], &[3, 1]),
];

/// values and derivatives of all steps when the absolute values are inputs of their own: (z, y) each with its derivative
fn dec_eval(p: Prog, x: &[f64], w: &[f64], dx: &[f64], dw: &[f64]) -> (Vec<(f64, f64)>, Vec<(f64, f64)>) {
    let mut v: Vec<(f64, f64)> = x.iter().cloned().zip(dx.iter().cloned()).collect();
    let mut z = vec![];
    for s in p.1 {
        let r = match *s {
            N::K(k) => (k, 0.0),
            N::Add(a, b) => (v[a].0 + v[b].0, v[a].1 + v[b].1),
            N::Mul(a, b) => (v[a].0 * v[b].0, v[a].1 * v[b].0 + v[a].0 * v[b].1),
            N::Abs(a) => {
                z.push(v[a]);
                (w[z.len() - 1], dw[z.len() - 1])
            }
        };
        v.push(r);
    }
    (z, p.2.iter().map(|o| v[*o]).collect())
}

fn dec_tape(p: Prog, x: &[f64]) -> Box<dyn Tape> {
    let mut c = AContext::new();
    let mut v: Vec<ADouble> = x.iter().map(|x| c.new_indep(*x)).collect();
    // constants belong to the recording where an operation needs them
    for s in p.1 {
        let r = match *s {
            N::K(k) => v[0] * 0.0 + k,
            N::Add(a, b) => v[a] + v[b],
            N::Mul(a, b) => v[a] * v[b],
            N::Abs(a) => num::Float::abs(v[a]),
        };
        v.push(r);
    }
    for o in p.2 {
        c.set_dep(&v[*o]);
    }
    Box::new(c.tape())
}

/// One decomposed tape used in turns
fn decomposed(depth: usize) -> Harness {
    Harness {
        name: "decomposed",
        bound: format!("{} programs with up to three absolute values: all histories of {} steps on one decomposed tape (replay at three points, replay with a wrong number of inputs, replay of an operator, both sweeps, products with all operators, reverse Jacobian), all of its queries after every step", PROGS.len(), depth),
        units: PROGS.len() * 9,
        run: Box::new(move |ex, u| {
            let p = PROGS[u / 9];
            let n = p.0;
            let s = p.1.iter().filter(|s| matches!(s, N::Abs(_))).count();
            let m = p.2.len();
            let vec_of = |l: usize, k: usize, o: usize| -> Vec<f64> { (0..l).map(|i| ((i * 3 + k * 5 + o) % 7) as f64 - 3.0).collect() };
            let mut x = vec_of(n, 0, 1);
            // at the recorded point the absolute values are those of their arguments
            let mut w: Vec<f64> = vec![];
            for k in 0..s {
                let mut w2 = w.clone();
                w2.resize(s, 0.0);
                let z = dec_eval(p, &x, &w2, &vec![0.0; n], &vec![0.0; s]).0;
                w.push(z[k].0.abs());
            }
            let mut a = AbsNormalTape::new(dec_tape(p, &x));
            let mut log = vec![];
            for k in 0..depth {
                let op = if k == 0 { u % 9 } else { ex.choose(9) };
                log.push(op);
                ex.step();
                let fail = |s: String| Err(format!("{:?}: {} after {:?}", p, s, log));
                let before = bits(a.values());
                match op {
                    0..=2 => {
                        x = vec_of(n, op, 2);
                        w = vec_of(s, op + 1, 4);
                        let xw: Vec<f64> = x.iter().chain(&w).cloned().collect();
                        a.zero_order(&DVector::from_vec(xw));
                    }
                    3 | 4 => {
                        let l = if op == 3 { n + s + 1 } else { n + s - 1 };
                        if panics(|| a.zero_order(&DVector::from_element(l, 9.0))).is_ok() {
                            return fail(format!("a replay with {} inputs is not refused", l));
                        }
                    }
                    5 => {
                        let _ = panics(|| AbsNormalZ::new(&a).zero_order(&DVector::from_element(n, 9.0)));
                    }
                    6 => {
                        for d in 0..2 {
                            let (dx, dw) = (vec_of(n, d, 3), vec_of(s, d, 5));
                            let (z, y) = dec_eval(p, &x, &w, &dx, &dw);
                            let want: Vec<f64> = z.iter().chain(&y).map(|e| e.1).collect();
                            let dxw: Vec<f64> = dx.iter().chain(&dw).cloned().collect();
                            let got = a.first_order_forward(&DVector::from_vec(dxw));
                            if got.as_slice() != want {
                                return fail(format!("the forward sweep gives {:?} instead of {:?}", got.as_slice(), want));
                            }
                        }
                    }
                    _ => {}
                }
                if op >= 7 {
                    // columns of the Jacobian
                    let cols: Vec<Vec<f64>> = (0..n + s)
                        .map(|j| {
                            let mut d = vec![0.0; n + s];
                            d[j] = 1.0;
                            let (z, y) = dec_eval(p, &x, &w, &d[..n], &d[n..]);
                            z.iter().chain(&y).map(|e| e.1).collect()
                        })
                        .collect();
                    let whole = DMatrix::from_fn(s + m, n + s, |i, j| cols[j][i]);
                    if op == 7 {
                        let wt = vec_of(s + m, 2, 3);
                        let got = a.first_order_reverse(&DVector::from_vec(wt.clone()));
                        let want = whole.transpose() * DVector::from_vec(wt);
                        if got != want {
                            return fail(format!("the reverse sweep gives {:?} instead of {:?}", got.as_slice(), want.as_slice()));
                        }
                        if jacobian_reverse(&a) != whole {
                            return fail("the reverse Jacobian is another".into());
                        }
                    } else {
                        let (z, l, j, y) = (AbsNormalZ::new(&a), AbsNormalL::new(&a), AbsNormalJ::new(&a), AbsNormalY::new(&a));
                        let id = |k: usize| DMatrix::<f64>::identity(k, k);
                        let got = [z.mul_right(&id(n)), l.mul_right(&id(s)), j.mul_right(&id(n)), y.mul_right(&id(s)), z.mul_left(&id(s)), l.mul_left(&id(s)), j.mul_left(&id(m)), y.mul_left(&id(m))];
                        for (k, g) in got.iter().enumerate() {
                            let (r, c) = ([0, 0, s, s][k % 4], [0, n, 0, n][k % 4]);
                            let want = whole.slice((r, c), ([s, s, m, m][k % 4], [n, s, n, s][k % 4]));
                            if *g != want {
                                return fail(format!("operator {} is {} instead of {}", ["Z", "L", "J", "Y"][k % 4], g, want));
                            }
                        }
                    }
                }
                if op > 2 && bits(a.values()) != before {
                    return fail("the values changed".into());
                }
                let (z, y) = dec_eval(p, &x, &w, &vec![0.0; n], &vec![0.0; s]);
                let (z, y): (Vec<f64>, Vec<f64>) = (z.iter().map(|e| e.0).collect(), y.iter().map(|e| e.0).collect());
                let xw: Vec<f64> = x.iter().chain(&w).cloned().collect();
                let zy: Vec<f64> = z.iter().chain(&y).cloned().collect();
                if (a.n(), a.s(), a.m()) != (n, s, m) {
                    return fail("the dimensions changed".into());
                }
                for (what, got, want) in [("x", a.x(), &x), ("z", a.z(), &z), ("y", a.y(), &y), ("all inputs", Tape::x(&a), &xw), ("all outputs", Tape::y(&a), &zy)] {
                    if got.as_slice() != want.as_slice() {
                        return fail(format!("{} is {:?} instead of {:?}", what, got.as_slice(), want));
                    }
                }
            }
            ex.note(|| format!("{:?} steps {:?}", p, log));
            ex.state(&(u / 9, bits(&x), bits(&w)));
            ex.outcome(&bits(a.values()));
            Ok(())
        }),
    }
}

pub fn check(t: bool) -> Check {
    Check { property: "C23", harnesses: vec![mixed(t), decomposed(if t { 6 } else { 4 }), histories(if t { 6 } else { 5 })], assumptions: vec![] }
}
