//! C16 recordings are isolated and end with their context
use crate::engine::*;
use advantage::{AContext, ADouble, DVector, Tape};
use std::rc::Rc;

/// Values of small dyadic programs, exact
#[derive(Debug)]
pub enum Expr {
    Indep(usize),
    Konst(f64),
    Add(Rc<Expr>, Rc<Expr>),
    Mul(Rc<Expr>, Rc<Expr>),
    /// 2 - x
    Two(Rc<Expr>),
    Abs(Rc<Expr>),
}
pub type E = Rc<Expr>;

/// value and increment
pub fn eval(e: &E, x: &[f64], d: &[f64]) -> (f64, f64) {
    match &**e {
        Expr::Indep(i) => (x[*i], d[*i]),
        Expr::Konst(k) => (*k, 0.0),
        Expr::Add(a, b) => {
            let (a, b) = (eval(a, x, d), eval(b, x, d));
            (a.0 + b.0, a.1 + b.1)
        }
        Expr::Mul(a, b) => {
            let (a, b) = (eval(a, x, d), eval(b, x, d));
            (a.0 * b.0, a.0 * b.1 + a.1 * b.0)
        }
        Expr::Two(a) => {
            let a = eval(a, x, d);
            (2.0 - a.0, -a.1)
        }
        Expr::Abs(a) => {
            let a = eval(a, x, d);
            (a.0.abs(), (a.0 + a.1).abs() - a.0.abs())
        }
    }
}
pub fn has_abs(e: &E) -> bool {
    match &**e {
        Expr::Abs(_) => true,
        Expr::Add(a, b) | Expr::Mul(a, b) => has_abs(a) || has_abs(b),
        Expr::Two(a) => has_abs(a),
        _ => false,
    }
}

struct MCtx {
    cid: usize,
    alive: bool,
    handles: Vec<AContext>,
    indeps: Vec<f64>,
    deps: Vec<E>,
    nops: usize,
}

struct MVar {
    x: ADouble,
    v: f64,
    dv: f64,
    home: Option<usize>,
    e: E,
}

struct World {
    ctxs: Vec<MCtx>,
    vars: Vec<MVar>,
    log: Vec<String>,
}

type Snap = (Vec<usize>, Vec<usize>, Vec<(String, usize, Option<usize>, Option<usize>)>, Vec<u64>);

fn snap(c: &AContext) -> Snap {
    (
        c.indeps(),
        c.deps(),
        c.operations().iter().map(|o| (format!("{:?}", o.opcode), o.vid, o.arg1, o.arg2)).collect(),
        c.values().iter().map(|v| v.to_bits()).collect(),
    )
}

impl World {
    fn new_ctx(&mut self) -> Result<(), String> {
        let c = AContext::new();
        let cid = c.cid();
        if self.ctxs.iter().any(|o| o.cid == cid) {
            return Err(format!("identity {} is used again", cid));
        }
        self.ctxs.push(MCtx { cid, alive: true, handles: vec![c], indeps: vec![], deps: vec![], nops: 0 });
        Ok(())
    }
    fn snaps(&self) -> Vec<Option<Snap>> {
        self.ctxs.iter().map(|c| if c.alive { Some(snap(&c.handles[0])) } else { None }).collect()
    }
    /// where a result of these operands belongs; Err: must be refused
    fn home(&self, a: usize, b: usize) -> Result<Option<usize>, ()> {
        match (self.vars[a].home, self.vars[b].home) {
            (Some(x), Some(y)) if x != y => Err(()),
            (Some(x), _) | (_, Some(x)) => Ok(if self.ctxs[x].alive { Some(x) } else { None }),
            _ => Ok(None),
        }
    }
    fn push(&mut self, x: ADouble, v: f64, dv: f64, home: Option<usize>, e: E) {
        let e = if home.is_none() { Rc::new(Expr::Konst(v)) } else { e };
        self.vars.push(MVar { x, v, dv, home, e });
    }
    /// only context `may` may have changed
    fn unchanged(&self, before: &[Option<Snap>], may: Option<usize>, what: &str) -> Res {
        for (i, b) in before.iter().enumerate() {
            if Some(i) != may && self.ctxs[i].alive && b.is_some() && Some(snap(&self.ctxs[i].handles[0])) != *b {
                return Err(format!("{} changed the recording of context {}", what, i));
            }
        }
        Ok(())
    }

    fn operate(&mut self, what: String, a: usize, b: usize, f: impl FnOnce(ADouble, ADouble) -> ADouble, v: f64, dv: f64, e: Expr) -> Res {
        self.log.push(what.clone());
        let before = self.snaps();
        let (xa, xb) = (self.vars[a].x, self.vars[b].x);
        let r = panics(|| f(xa, xb));
        match (self.home(a, b), r) {
            (Err(()), Ok(_)) => Err(format!("{} combines variables of two contexts", what)),
            (Err(()), Err(_)) => self.unchanged(&before, None, &what),
            (Ok(_), Err(m)) => Err(format!("{} panics: {}", what, m)),
            (Ok(h), Ok(x)) => {
                if x.value() != v || x.dvalue() != dv {
                    return Err(format!("{} gives {}/{} instead of {}/{}", what, x.value(), x.dvalue(), v, dv));
                }
                self.unchanged(&before, h, &what)?;
                if let Some(h) = h {
                    let n = self.ctxs[h].handles[0].operations().len();
                    if n <= self.ctxs[h].nops {
                        return Err(format!("{} is not recorded", what));
                    }
                    self.ctxs[h].nops = n;
                }
                self.push(x, v, dv, h, Rc::new(e));
                Ok(())
            }
        }
    }

    fn verify(&self) -> Res {
        for (i, c) in self.ctxs.iter().enumerate() {
            let found = AContext::from_cid(c.cid);
            if found.is_some() != c.alive {
                return Err(format!("lookup of context {} gives {} while it is {}", i, found.is_some(), if c.alive { "alive" } else { "gone" }));
            }
            if !c.alive {
                continue;
            }
            if found.as_ref().unwrap().cid() != c.cid || snap(found.as_ref().unwrap()) != snap(&c.handles[0]) {
                return Err(format!("lookup of context {} finds another context", i));
            }
            drop(found);
            let mut t = c.handles[0].tape();
            if t.num_indeps() != c.indeps.len() || t.num_deps() != c.deps.len() {
                return Err(format!("context {} has {} inputs and {} outputs instead of {} and {}", i, t.num_indeps(), t.num_deps(), c.indeps.len(), c.deps.len()));
            }
            if t.x().as_slice() != c.indeps {
                return Err(format!("context {} has inputs {:?} instead of {:?}", i, t.x().as_slice(), c.indeps));
            }
            let d: Vec<f64> = (0..c.indeps.len()).map(|i| [1.0, -0.5, 2.0][i % 3]).collect();
            for p in 0..2 {
                let x: Vec<f64> = if p == 0 { c.indeps.clone() } else { (0..c.indeps.len()).map(|i| 1.5 - 2.0 * i as f64).collect() };
                if p == 1 {
                    t.zero_order(&DVector::from_vec(x.clone()));
                }
                let want: Vec<(f64, f64)> = c.deps.iter().map(|e| eval(e, &x, &d)).collect();
                let dy = t.first_order_forward(&DVector::from_vec(d.clone()));
                for (k, w) in want.iter().enumerate() {
                    if t.y()[k] != w.0 || dy[k] != w.1 {
                        return Err(format!("output {} of context {} at {:?} is {}/{} instead of {}/{}", k, i, x, t.y()[k], dy[k], w.0, w.1));
                    }
                }
            }
        }
        Ok(())
    }

    fn step(&mut self, ex: &mut Ex, choice: Act) -> Res {
        ex.step();
        match choice {
            Act::New => {
                self.log.push("new context".into());
                let before = self.snaps();
                self.new_ctx()?;
                self.unchanged(&before, None, "creating a context")
            }
            Act::Drop(c) => {
                self.log.push(format!("drop context {}", c));
                let before = self.snaps();
                self.ctxs[c].handles.pop();
                self.ctxs[c].alive = !self.ctxs[c].handles.is_empty();
                self.unchanged(&before, None, "dropping a context")
            }
            Act::Handle(c) => {
                self.log.push(format!("look up context {}", c));
                let Some(h) = AContext::from_cid(self.ctxs[c].cid) else {
                    return Err(format!("lookup of live context {} fails", c));
                };
                // the most recently obtained handle is used from now on
                self.ctxs[c].handles.insert(0, h);
                Ok(())
            }
            Act::Indep(c) => {
                self.log.push(format!("new input of context {}", c));
                let before = self.snaps();
                let v = [3.0, -1.0, 0.5, 2.0][self.vars.len() % 4];
                let x = self.ctxs[c].handles[0].new_indep(v);
                let e = Expr::Indep(self.ctxs[c].indeps.len());
                self.ctxs[c].indeps.push(v);
                self.push(x, v, 0.0, Some(c), Rc::new(e));
                self.unchanged(&before, Some(c), "declaring an input")
            }
            Act::Declare(c, a) => {
                self.log.push(format!("make v{} an input of context {}", a, c));
                let before = self.snaps();
                let mut x = self.vars[a].x;
                self.ctxs[c].handles[0].set_indep(&mut x);
                let (v, dv) = (self.vars[a].v, self.vars[a].dv);
                let k = self.ctxs[c].indeps.len();
                self.ctxs[c].indeps.push(v);
                self.vars[a] = MVar { x, v, dv, home: Some(c), e: Rc::new(Expr::Indep(k)) };
                self.unchanged(&before, Some(c), "declaring an input")
            }
            Act::Dep(c, a) => {
                let what = format!("mark v{} as output of context {}", a, c);
                self.log.push(what.clone());
                let before = self.snaps();
                let x = self.vars[a].x;
                let h = &mut self.ctxs[c].handles[0];
                let r = panics(|| h.set_dep(&x));
                let foreign = self.vars[a].home.is_some_and(|h| h != c);
                match (foreign, r) {
                    (true, Ok(_)) => Err(format!("{} is not refused", what)),
                    (true, Err(_)) => self.unchanged(&before, None, &what),
                    (false, Err(m)) => Err(format!("{} panics: {}", what, m)),
                    (false, Ok(_)) => {
                        let e = self.vars[a].e.clone();
                        self.ctxs[c].deps.push(e);
                        let n = self.ctxs[c].handles[0].operations().len();
                        self.ctxs[c].nops = n;
                        self.unchanged(&before, Some(c), &what)
                    }
                }
            }
            Act::Add(a, b) => {
                let (p, q) = (&self.vars[a], &self.vars[b]);
                let (v, d, e) = (p.v + q.v, p.dv + q.dv, Expr::Add(p.e.clone(), q.e.clone()));
                self.operate(format!("v{} + v{}", a, b), a, b, |x, y| x + y, v, d, e)
            }
            Act::Mul(a, b) => {
                let (p, q) = (&self.vars[a], &self.vars[b]);
                let (v, d, e) = (p.v * q.v, p.v * q.dv + p.dv * q.v, Expr::Mul(p.e.clone(), q.e.clone()));
                self.operate(format!("v{} * v{}", a, b), a, b, |x, y| x * y, v, d, e)
            }
            Act::Two(a) => {
                let p = &self.vars[a];
                let (v, d, e) = (2.0 - p.v, -p.dv, Expr::Two(p.e.clone()));
                self.operate(format!("2 - v{}", a), a, a, |x, _| 2.0 - x, v, d, e)
            }
            Act::Abs(a) => {
                let p = &self.vars[a];
                let (v, d, e) = (p.v.abs(), (p.v + p.dv).abs() - p.v.abs(), Expr::Abs(p.e.clone()));
                self.operate(format!("|v{}|", a), a, a, |x, _| num::Float::abs(x), v, d, e)
            }
        }
    }

    fn acts(&self, maxctx: usize) -> Vec<Act> {
        let mut r = vec![];
        let live: Vec<usize> = (0..self.ctxs.len()).filter(|c| self.ctxs[*c].alive).collect();
        if self.ctxs.len() < maxctx {
            r.push(Act::New);
        }
        for &c in &live {
            r.push(Act::Drop(c));
            if self.ctxs[c].handles.len() < 2 {
                r.push(Act::Handle(c));
            }
            r.push(Act::Indep(c));
            for a in 0..self.vars.len() {
                r.push(Act::Declare(c, a));
                r.push(Act::Dep(c, a));
            }
        }
        for a in 0..self.vars.len() {
            r.push(Act::Two(a));
            r.push(Act::Abs(a));
            for b in a..self.vars.len() {
                r.push(Act::Add(a, b));
                r.push(Act::Mul(b, a));
            }
        }
        r
    }
}

#[derive(Clone, Copy)]
enum Act {
    New,
    Drop(usize),
    Handle(usize),
    Indep(usize),
    Declare(usize, usize),
    Dep(usize, usize),
    Add(usize, usize),
    Mul(usize, usize),
    Two(usize),
    Abs(usize),
}

fn histories(name: &'static str, start: usize, depth: usize, maxctx: usize) -> Harness {
    let mk = move || -> Result<World, String> {
        let mut w = World { ctxs: vec![], vars: vec![], log: vec![] };
        w.new_ctx()?;
        w.push(ADouble::new(-2.0, 0.5), -2.0, 0.5, None, Rc::new(Expr::Konst(-2.0)));
        if start >= 1 {
            w.new_ctx()?;
            for (c, v) in [(0, 3.0), (1, 5.0)] {
                let x = w.ctxs[c].handles[0].new_indep(v);
                w.ctxs[c].indeps.push(v);
                w.push(x, v, 0.0, Some(c), Rc::new(Expr::Indep(0)));
            }
        }
        if start >= 2 {
            // a recorded result whose context is gone
            w.new_ctx()?;
            let x = w.ctxs[2].handles[0].new_indep(7.0);
            let y = x * x;
            w.ctxs[2].handles.pop();
            w.ctxs[2].alive = false;
            w.push(y, 49.0, 0.0, Some(2), Rc::new(Expr::Konst(49.0)));
        }
        Ok(w)
    };
    let units = mk().map(|w| w.acts(maxctx).len()).unwrap_or(1);
    Harness {
        name,
        bound: format!(
            "from {}: all histories of {} steps (create, drop, look up contexts; declare inputs and outputs; add, multiply, 2-x, abs on every choice of variables), up to {} contexts",
            ["one context and a plain variable", "two contexts with an input each and a plain variable", "two contexts with an input each, a plain variable and a variable of a dropped context"][start],
            depth,
            maxctx
        ),
        units,
        run: Box::new(move |ex, u| {
            let mut w = mk()?;
            for k in 0..depth {
                let acts = w.acts(maxctx);
                let c = if k == 0 { u } else { ex.choose(acts.len()) };
                w.step(ex, acts[c]).and_then(|_| w.verify()).map_err(|e| format!("{} after {:?}", e, w.log))?;
            }
            ex.note(|| format!("{:?}", w.log));
            ex.state(&w.ctxs.iter().map(|c| (c.alive, c.indeps.len(), format!("{:?}", c.deps), c.nops)).collect::<Vec<_>>());
            ex.outcome(&w.vars.iter().map(|v| (v.v.to_bits(), v.home)).collect::<Vec<_>>());
            Ok(())
        }),
    }
}

/// Every order of dropping several contexts
fn orders(k: usize) -> Harness {
    Harness {
        name: "drop_orders",
        bound: format!("{} contexts created, used and dropped in every order, with and without a second handle, looked up and used after every drop", k),
        units: k,
        run: Box::new(move |ex, u| {
            let mut w = World { ctxs: vec![], vars: vec![], log: vec![] };
            for c in 0..k {
                w.new_ctx()?;
                w.step(ex, Act::Indep(c))?;
            }
            let mut left: Vec<usize> = (0..k).collect();
            let mut first = Some(u);
            while !left.is_empty() {
                let i = match first.take() {
                    Some(u) => u,
                    None => ex.choose(left.len()),
                };
                let c = left.remove(i);
                w.step(ex, Act::Drop(c))?;
                for v in 0..k {
                    w.step(ex, Act::Two(v))?;
                }
                w.verify().map_err(|e| format!("{} after {:?}", e, w.log))?;
                w.vars.truncate(k);
                ex.state(&left);
            }
            ex.note(|| format!("{:?}", w.log));
            Ok(())
        }),
    }
}

/// Many contexts
fn many(thorough: bool) -> Harness {
    let total = if thorough { 1 << 20 } else { 150_000 };
    let keeps: Vec<usize> = vec![0, 1, 2, 255, 256, 4096, 70_000];
    Harness {
        name: "many",
        bound: format!("{} contexts in sequence with {:?} of them alive at a time; a variable of a dropped and of a living context kept throughout", total, keeps),
        units: keeps.len(),
        run: Box::new(move |ex, u| {
            let keep = keeps[keeps.len() - 1 - u];
            let mut alive = std::collections::VecDeque::new();
            let mut seen = std::collections::HashSet::new();
            let mut home = AContext::new();
            let x: ADouble = home.new_indep(3.0);
            home.set_dep(&x);
            let y: ADouble = {
                let mut c = AContext::new();
                seen.insert(c.cid());
                c.new_indep(4.0)
            };
            seen.insert(home.cid());
            ex.note(|| format!("{} contexts, {} alive", total, keep));
            for i in 0..total {
                let mut c = AContext::new();
                ex.step();
                if !seen.insert(c.cid()) {
                    return Err(format!("identity {} is used again by context number {}", c.cid(), i));
                }
                let z: ADouble = c.new_indep(i as f64);
                let _ = z * 2.0;
                if c.operations().len() != 2 && c.operations().is_empty() {
                    return Err(format!("context number {}: operation not recorded", i));
                }
                let n = c.values().len();
                let w = y * y + 2.0;
                if w.value() != 18.0 || c.values().len() != n {
                    return Err(format!("a variable of a dropped context is recorded by context number {}", i));
                }
                if i % 1000 == 0 || i > total - 10 {
                    let before = home.operations().len();
                    let w = x * x;
                    if w.value() != 9.0 || home.operations().len() != before + 1 || c.values().len() != n {
                        return Err(format!("context number {} attracts operations of the first", i));
                    }
                }
                alive.push_back((c, i));
                if alive.len() > keep {
                    let (c, i) = alive.pop_front().unwrap();
                    let id = c.cid();
                    drop(c);
                    if AContext::from_cid(id).is_some() {
                        return Err(format!("context number {} is still found after it was dropped", i));
                    }
                }
                if let Some((c, k)) = alive.front() {
                    match AContext::from_cid(c.cid()) {
                        Some(d) if d.values().first() == Some(&(*k as f64)) => {}
                        _ => return Err(format!("context number {} is not found while alive", k)),
                    }
                }
            }
            ex.state(&keep);
            ex.outcome(&seen.len());
            Ok(())
        }),
    }
}

pub fn check(thorough: bool) -> Check {
    let mut hs = vec![
        many(thorough),
        orders(if thorough { 8 } else { 6 }),
        histories("two", 1, 4, 3),
        histories("dead", 2, 3, 4),
        histories("one", 0, if thorough { 5 } else { 4 }, 2),
    ];
    if thorough {
        hs.push(histories("dead_deep", 2, 4, 4));
    }
    Check {
        property: "C16",
        harnesses: hs,
        assumptions: vec!["a variable whose context is gone still belongs to it: combining it with a variable of another context counts as combining variables of two contexts".into()],
    }
}
