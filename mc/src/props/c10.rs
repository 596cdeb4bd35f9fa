//! Function chains are compositions
use crate::engine::*;
use advantage::{ADouble, DVector, Function, FunctionChain};
use std::sync::Arc;

/// An elementary function with an identity: R^n -> R^m, exact in floating point
#[derive(Clone)]
struct El {
    id: usize,
    n: usize,
    m: usize,
}
impl El {
    fn go<T: Copy + std::ops::Add<Output = T> + std::ops::Mul<Output = T>>(&self, x: &[T], k: impl Fn(f64) -> T) -> Vec<T> {
        (0..self.m)
            .map(|i| {
                let mut s = k((self.id * 10 + i) as f64);
                for (j, v) in x.iter().enumerate() {
                    let c = ((self.id + 2 * i + 3 * j) % 5) as f64 - 2.0;
                    s = s + *v * k(c);
                }
                if !x.is_empty() && self.id % 2 == 0 {
                    s = s + x[i % x.len()] * x[(i + 1) % x.len()] * k(0.5);
                }
                s
            })
            .collect()
    }
    /// value and derivative along d
    fn dual(&self, x: &[f64], d: &[f64]) -> (Vec<f64>, Vec<f64>) {
        let v = self.go(x, |k| k);
        let dv = (0..self.m)
            .map(|i| {
                let mut s = 0.0;
                for (j, dj) in d.iter().enumerate() {
                    s += (((self.id + 2 * i + 3 * j) % 5) as f64 - 2.0) * dj;
                }
                if !x.is_empty() && self.id % 2 == 0 {
                    let (a, b) = (i % x.len(), (i + 1) % x.len());
                    s += 0.5 * (x[a] * d[b] + d[a] * x[b]);
                }
                s
            })
            .collect();
        (v, dv)
    }
}
impl Function for El {
    fn n(&self) -> usize {
        self.n
    }
    fn m(&self) -> usize {
        self.m
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        assert_eq!(x.nrows(), self.n, "a function of the chain got a vector of the wrong dimension");
        DVector::from_vec(self.go(x.as_slice(), |k| ADouble::new(k, 0.0)))
    }
}

/// A shared function object; forwards everything
struct Shared(Arc<dyn Function>);
impl Function for Shared {
    fn n(&self) -> usize {
        self.0.n()
    }
    fn m(&self) -> usize {
        self.0.m()
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        self.0.eval(x)
    }
    fn chain(&self) -> Option<&FunctionChain> {
        self.0.chain()
    }
}

struct Build {
    dims: Vec<usize>,
    next: usize,
    els: Vec<El>,
    descr: String,
}

impl Build {
    fn el(&mut self) -> El {
        let id = self.next;
        self.next += 1;
        let e = El { id, n: self.dims[id % self.dims.len()], m: self.dims[(id + 1) % self.dims.len()] };
        self.els.push(e.clone());
        self.descr.push_str(&format!("f{}:{}->{} ", id, e.n, e.m));
        e
    }
    /// a member: elementary, shared elementary, or a nested chain
    fn member(&mut self, ex: &mut Ex, depth: usize, budget: &mut usize) -> Box<dyn Function> {
        let opts = if depth == 0 || *budget == 0 { 1 } else { 3 };
        match ex.choose(opts) {
            0 => Box::new(self.el()),
            1 => Box::new(self.chain(ex, depth - 1, budget)),
            _ => Box::new(Shared(Arc::new(self.chain(ex, depth - 1, budget)))),
        }
    }
    fn chain(&mut self, ex: &mut Ex, depth: usize, budget: &mut usize) -> FunctionChain {
        self.descr.push_str("( ");
        let len = 1 + ex.choose((*budget).min(3) + 1);
        *budget -= (len - 1).min(*budget);
        let boxed = ex.choose(2) == 1;
        let first = self.member(ex, depth, budget);
        let mut c = if boxed { FunctionChain::from_boxed(first) } else { FunctionChain::new(Shared(Arc::from(first))) };
        for _ in 1..len {
            let f = self.member(ex, depth, budget);
            if boxed {
                c.append_boxed(f);
            } else {
                c.append(Shared(Arc::from(f)));
            }
        }
        self.descr.push_str(") ");
        c
    }
}

fn verify(c: &FunctionChain, els: &[El], descr: &str) -> Res {
    let (n, m) = (els[0].n, els[els.len() - 1].m);
    let w = |s: String| Err(format!("chain {}: {}", descr, s));
    if c.n() != n || c.m() != m {
        return w(format!("dimensions {} -> {} instead of {} -> {}", c.n(), c.m(), n, m));
    }
    if c.len() != els.len() {
        return w(format!("length {} instead of {}", c.len(), els.len()));
    }
    if c.iter().count() != els.len() {
        return w(format!("iterates over {} functions instead of {}", c.iter().count(), els.len()));
    }
    if c.chain().is_none() {
        return w("does not report to be a chain".into());
    }
    let probe = |e: &El| -> Vec<f64> { (0..e.n).map(|i| i as f64 + 1.0).collect() };
    let same = |f: &dyn Function, e: &El| -> bool {
        f.n() == e.n && f.m() == e.m && f.chain().is_none() && f.eval_float(DVector::from_vec(probe(e))).as_slice() == e.go(&probe(e), |k| k).as_slice()
    };
    for (i, (f, e)) in c.iter().zip(els).enumerate() {
        if !same(f, e) {
            return w(format!("iteration: element {} is not function {}", i, e.id));
        }
    }
    for (i, e) in els.iter().enumerate() {
        if !same(c.nth(i), e) {
            return w(format!("element {} is not function {}", i, e.id));
        }
    }
    if panics(|| c.nth(els.len()).n()).is_ok() {
        return w("has an element beyond its end".into());
    }
    // composition
    let xs: Vec<f64> = (0..n).map(|i| 1.0 - i as f64).collect();
    let x2: Vec<f64> = (0..n).map(|i| 0.5 * i as f64 - 2.0).collect();
    let ds: Vec<f64> = (0..n).map(|i| 2.0 * i as f64 - 1.0).collect();
    let comp = |x: &[f64]| {
        let (mut v, mut d) = (x.to_vec(), ds.clone());
        for e in els {
            let (a, b) = e.dual(&v, &d);
            v = a;
            d = b;
        }
        (v, d)
    };
    let (v, d) = comp(&xs);
    if !v.iter().chain(&d).all(|x| x.abs() < 1e13) {
        return Ok(()); // beyond exact arithmetic
    }
    if c.eval_float(DVector::from_vec(xs.clone())).as_slice() != v {
        return w(format!("plain evaluation gives {:?} instead of {:?}", c.eval_float(DVector::from_vec(xs)).as_slice(), v));
    }
    let a = c.eval(DVector::from_iterator(n, xs.iter().zip(&ds).map(|(x, d)| ADouble::new(*x, *d))));
    if a.iter().map(|a| a.value()).collect::<Vec<_>>() != v || a.iter().map(|a| a.dvalue()).collect::<Vec<_>>() != d {
        return w(format!("active evaluation gives {:?} instead of {:?} with derivative {:?}", a.as_slice(), v, d));
    }
    let mut t = c.tape(&DVector::from_vec(x2.clone()));
    let (v2, _) = comp(&x2);
    if t.y().as_slice() != v2 || t.num_indeps() != n || t.num_deps() != m {
        return w(format!("the recording gives {:?} instead of {:?}", t.y().as_slice(), v2));
    }
    t.zero_order(&DVector::from_vec(xs));
    if t.y().as_slice() != v || t.first_order_forward(&DVector::from_vec(ds.clone())).as_slice() != d {
        return w(format!("the recording replays to {:?} instead of {:?}", t.y().as_slice(), v));
    }
    Ok(())
}

fn nested(name: &'static str, dims: Vec<usize>, depth: usize, budget: usize) -> Harness {
    Harness {
        name,
        bound: format!("all nestings of depth {} with up to {} additional members, each built by new/append or from_boxed/append_boxed; dimensions cycle through {:?}", depth, budget, dims),
        units: dims.len(),
        run: Box::new(move |ex, u| {
            let mut d = dims.clone();
            d.rotate_left(u);
            let mut b = Build { dims: d, next: 0, els: vec![], descr: String::new() };
            let mut bud = budget;
            let c = b.chain(ex, depth, &mut bud);
            ex.note(|| b.descr.clone());
            ex.state(&b.descr);
            ex.outcome(&b.els.len());
            ex.transitions += b.els.len() as u64;
            verify(&c, &b.els, &b.descr)
        }),
    }
}

fn mismatch() -> Harness {
    Harness {
        name: "mismatch",
        bound: "chains of 1..3 functions (or a nested chain), appended function of every dimension 0..6 with 2 or no outputs, plain or boxed, elementary or chain, members without inputs or outputs among them".into(),
        units: 9,
        run: Box::new(|ex, u| {
            let dims = [vec![2, 3, 1, 4], vec![2, 0, 0, 0], vec![0, 1, 3, 0]][u / 3].clone();
            let len = u % 3 + 1;
            let nest = ex.flag();
            let want = dims[len];
            let k = ex.choose(7);
            let boxed = ex.flag();
            let as_chain = ex.flag();
            let mut els: Vec<El> = (0..len).map(|i| El { id: i, n: dims[i], m: dims[i + 1] }).collect();
            let mut c = FunctionChain::new(els[0].clone());
            for e in &els[1..] {
                c.append(e.clone());
            }
            if nest {
                c = FunctionChain::new(c);
            }
            let add = El { id: 20, n: k, m: ex.pick(&[2, 0]) };
            ex.note(|| format!("appending a function of {} inputs to a chain with {} outputs", k, want));
            ex.state(&(u, nest, k, boxed, as_chain, add.m));
            ex.step();
            let f: Box<dyn Function> = if as_chain { Box::new(FunctionChain::new(add.clone())) } else { Box::new(add.clone()) };
            let r = panics(|| if boxed { c.append_boxed(f) } else { c.append(Shared(Arc::from(f))) });
            if r.is_ok() != (k == want) {
                return Err(format!("appending a function of {} inputs to a chain with {} outputs: {:?}", k, want, r));
            }
            if r.is_ok() {
                els.push(add);
            }
            verify(&c, &els, "after append")
        }),
    }
}

/// long and deeply nested chains
fn long(thorough: bool) -> Harness {
    let lens: Vec<usize> = if thorough { vec![10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025] } else { vec![10, 33, 64, 65, 100, 129, 257] };
    Harness {
        name: "long",
        bound: format!("{:?} members: flat, nested from the left, nested from the right, groups of ten", lens),
        units: lens.len() * 4,
        run: Box::new(move |ex, u| {
            let len = lens[u / 4];
            // dimension one, contractive: values stay small and exact
            #[derive(Clone)]
            struct One(usize);
            impl Function for One {
                fn n(&self) -> usize {
                    1
                }
                fn m(&self) -> usize {
                    1
                }
                fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
                    x.map(|v| if self.0 % 3 == 0 { ADouble::new(self.0 as f64, 0.0) - v } else { v + self.0 as f64 })
                }
            }
            let shape = u % 4;
            ex.note(|| format!("{} members, shape {}", len, shape));
            ex.state(&(len, shape));
            ex.transitions += len as u64;
            let len = if shape == 2 || shape == 1 { len.min(40) } else { len };
            let mut c;
            match shape {
                0 => {
                    c = FunctionChain::new(One(0));
                    for i in 1..len {
                        c.append(One(i));
                    }
                }
                1 => {
                    c = FunctionChain::new(One(0));
                    for i in 1..len {
                        c = FunctionChain::new(c);
                        c.append(One(i));
                    }
                }
                2 => {
                    c = FunctionChain::new(One(len - 1));
                    for i in (0..len - 1).rev() {
                        let mut d = FunctionChain::new(One(i));
                        d.append(c);
                        c = d;
                    }
                }
                _ => {
                    let group = |g: usize| {
                        let mut d = FunctionChain::new(One(g * 10));
                        for i in g * 10 + 1..(g * 10 + 10).min(len) {
                            d.append(One(i));
                        }
                        d
                    };
                    c = FunctionChain::new(group(0));
                    for g in 1..len.div_ceil(10) {
                        c.append(group(g));
                    }
                }
            }
            let go = |x: f64, s: f64| (0..len).fold((x, s), |(x, s), i| if i % 3 == 0 { (i as f64 - x, -s) } else { (x + i as f64, s) });
            if c.len() != len {
                return Err(format!("{} members: length {}", len, c.len()));
            }
            let (v, d) = go(0.25, 1.0);
            let a = c.eval(DVector::from_element(1, ADouble::new(0.25, 1.0)));
            if a[0].value() != v || a[0].dvalue() != d {
                return Err(format!("{} members, shape {}: {:?} instead of {} / {}", len, shape, a[0], v, d));
            }
            for i in 0..len {
                let y = c.nth(i).eval_float(DVector::from_element(1, 0.0))[0];
                if y != i as f64 {
                    return Err(format!("{} members, shape {}: element {} is function {}", len, shape, i, y));
                }
            }
            ex.outcome(&v.to_bits());
            Ok(())
        }),
    }
}

pub fn check(thorough: bool) -> Check {
    let b = if thorough { 4 } else { 3 };
    let mut hs = vec![nested("nested", vec![2, 3, 1, 2, 1], 2, b), nested("scalar", vec![1], 2, b), nested("with_zero", vec![1, 0, 2], 2, 3), mismatch(), long(thorough)];
    if thorough {
        hs.push(nested("nested_deep", vec![2, 3, 1], 3, 5));
        hs.push(nested("nested_wide", vec![4, 1, 2], 2, 6));
    }
    Check { property: "C10", harnesses: hs, assumptions: vec!["member functions are exact in floating point, so that composition is compared for equality".into()] }
}
