//! C07 abs-normal form, C08 its operators, C09 generalized Jacobians, C11 those of chains
use crate::engine::*;
use crate::gen::*;
use crate::jet::*;
use crate::prog::*;
use crate::rec::*;
use advantage::drivers::{
    abs_normal, generalized_jacobian, generalized_jacobian_chain, generalized_jacobian_tape, jacobian_reverse, AbsNormalJ, AbsNormalL, AbsNormalTape, AbsNormalY, AbsNormalZ, GeneralizedJacobian,
};
use advantage::{ADouble, DMatrix, DVector, Function, FunctionChain, Tape};
use std::cell::{Cell, RefCell};

const D: usize = 8;
type J = Jet<D, false>;

thread_local! {
    static ZS: RefCell<Vec<J>> = const { RefCell::new(vec![]) };
    static N: Cell<usize> = const { Cell::new(0) };
}

/// Partial derivatives by inputs and by the absolute values met so far
#[derive(Clone, Copy)]
struct Anf(J);
impl Anf {
    fn abs(a: J) -> J {
        let mut r = J::lift(a.v.abs());
        r.vok = a.vok;
        r.dok = a.vok;
        r.ev = a.ev;
        r.active = a.active;
        if a.active {
            let k = ZS.with(|z| {
                z.borrow_mut().push(a);
                z.borrow().len() - 1
            });
            r.d[N.with(|n| n.get()) + k] = 1.0;
        }
        r
    }
    fn minmax(x: J, y: J, s: f64) -> J {
        let t = J::bin(Bin::Mul, Self::abs(J::bin(Bin::Sub, x, y)), J::lift(s));
        J::bin(Bin::Mul, J::bin(Bin::Add, J::bin(Bin::Add, x, y), t), J::lift(0.5))
    }
}
impl Alg for Anf {
    fn lift(k: f64) -> Self {
        Anf(J::lift(k))
    }
    fn bin(b: Bin, x: Self, y: Self) -> Self {
        Anf(match b {
            Bin::Max => Self::minmax(x.0, y.0, 1.0),
            Bin::Min => Self::minmax(x.0, y.0, -1.0),
            Bin::AbsSub => Self::minmax(J::bin(Bin::Sub, x.0, y.0), J::lift(0.0), 1.0),
            _ => J::bin(b, x.0, y.0),
        })
    }
    fn un(u: Un, x: Self) -> Self {
        Anf(match u {
            Un::Abs => Self::abs(x.0),
            _ => J::un(u, x.0),
        })
    }
    fn mul_add(x: Self, y: Self, z: Self) -> Self {
        Anf(J::mul_add(x.0, y.0, z.0))
    }
}

/// An abs-normal form with entrywise error bounds
#[derive(Clone, Debug)]
pub struct Model {
    n: usize,
    s: usize,
    m: usize,
    z0: Vec<f64>,
    y0: Vec<f64>,
    zm: DMatrix<f64>,
    lm: DMatrix<f64>,
    jm: DMatrix<f64>,
    ym: DMatrix<f64>,
    ez: Vec<f64>,
    ezm: DMatrix<f64>,
    elm: DMatrix<f64>,
    ejm: DMatrix<f64>,
    eym: DMatrix<f64>,
    /// every number involved is exact
    exact: bool,
    /// every switching variable is the argument of an abs of the program, in order
    explicit: bool,
}

impl Model {
    fn new(n: usize, s: usize, m: usize, exact: bool, explicit: bool) -> Model {
        let z = |r, c| DMatrix::zeros(r, c);
        Model {
            n,
            s,
            m,
            z0: vec![0.0; s],
            y0: vec![0.0; m],
            zm: z(s, n),
            lm: z(s, s),
            jm: z(m, n),
            ym: z(m, s),
            ez: vec![0.0; s],
            ezm: z(s, n),
            elm: z(s, s),
            ejm: z(m, n),
            eym: z(m, s),
            exact,
            explicit,
        }
    }

    /// None: not in the domain
    pub fn of(f: &ProgFn, x: &[f64], exact: bool) -> Option<Model> {
        let n = f.n;
        ZS.with(|z| z.borrow_mut().clear());
        N.with(|c| c.set(n));
        let inp: Vec<Anf> = (0..n)
            .map(|i| {
                let mut d = [0.0; D];
                d[i] = 1.0;
                Anf(J::input(x[i], d))
            })
            .collect();
        let v = eval_all(&f.nodes, &inp);
        let zs = ZS.with(|z| z.borrow().clone());
        let s = zs.len();
        assert!(n + s <= D);
        let explicit = f.nodes.iter().all(|n| !n.has_abs() || matches!(n, Node::Un(Un::Abs, _)));
        let mut r = Model::new(n, s, f.outs.len(), exact, explicit);
        for (i, z) in zs.iter().enumerate() {
            if !z.vok || !z.dok {
                return None;
            }
            r.z0[i] = z.v;
            r.ez[i] = z.ev;
            for k in 0..n {
                r.zm[(i, k)] = z.d[k];
                r.ezm[(i, k)] = z.ed[k];
            }
            for k in 0..s {
                r.lm[(i, k)] = z.d[n + k];
                r.elm[(i, k)] = z.ed[n + k];
            }
        }
        for (i, o) in f.outs.iter().enumerate() {
            let y = match o {
                Out::Val(k) => v[*k].0,
                Out::Konst(k) => J::lift(*k),
            };
            if !y.vok || !y.dok {
                return None;
            }
            r.y0[i] = y.v;
            for k in 0..n {
                r.jm[(i, k)] = y.d[k];
                r.ejm[(i, k)] = y.ed[k];
            }
            for k in 0..s {
                r.ym[(i, k)] = y.d[n + k];
                r.eym[(i, k)] = y.ed[n + k];
            }
        }
        if exact {
            for e in [&mut r.ezm, &mut r.elm, &mut r.ejm, &mut r.eym] {
                e.fill(0.0);
            }
            r.ez.iter_mut().for_each(|e| *e = 0.0);
        }
        Some(r)
    }

    /// all entries replaced by their absolute values, enlarged by `k` times their error
    fn majorant(&self, k: f64) -> Model {
        let mut r = self.clone();
        let f = |m: &mut DMatrix<f64>, e: &DMatrix<f64>| {
            for (x, e) in m.iter_mut().zip(e.iter()) {
                *x = x.abs() + k * e;
            }
        };
        f(&mut r.zm, &self.ezm);
        f(&mut r.lm, &self.elm);
        f(&mut r.jm, &self.ejm);
        f(&mut r.ym, &self.eym);
        for (x, e) in r.z0.iter_mut().zip(&self.ez) {
            *x = x.abs() + k * e;
        }
        r
    }

    fn a(&self) -> Vec<f64> {
        self.a_sign(-1.0)
    }
    fn a_sign(&self, sg: f64) -> Vec<f64> {
        (0..self.s).map(|i| self.z0[i] + sg * (0..self.s).map(|j| self.lm[(i, j)] * self.z0[j].abs()).sum::<f64>()).collect()
    }
    fn b_sign(&self, sg: f64) -> Vec<f64> {
        (0..self.m).map(|i| sg * (0..self.s).map(|j| self.ym[(i, j)] * self.z0[j].abs()).sum::<f64>()).collect()
    }
    fn b(&self) -> Vec<f64> {
        self.b_sign(-1.0)
    }

    /// switching variables and increments of the outputs at dx, for given a and b
    fn solve(&self, a: &[f64], b: &[f64], dx: &[f64]) -> (Vec<f64>, Vec<f64>) {
        let mut z = vec![0.0; self.s];
        for i in 0..self.s {
            let mut t = a[i];
            for (j, d) in dx.iter().enumerate() {
                t += self.zm[(i, j)] * d;
            }
            for j in 0..i {
                t += self.lm[(i, j)] * f64::abs(z[j]);
            }
            z[i] = t;
        }
        let y = (0..self.m)
            .map(|i| b[i] + (0..self.n).map(|j| self.jm[(i, j)] * dx[j]).sum::<f64>() + (0..self.s).map(|j| self.ym[(i, j)] * z[j].abs()).sum::<f64>())
            .collect();
        (z, y)
    }

    /// (z, dy) and error bounds for both
    #[allow(clippy::type_complexity)]
    fn increments(&self, dx: &[f64]) -> (Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>) {
        let (z, y) = self.solve(&self.a(), &self.b(), dx);
        if self.exact {
            return (z, y, vec![0.0; self.s], vec![0.0; self.m]);
        }
        let adx: Vec<f64> = dx.iter().map(|d| d.abs()).collect();
        let at = |m: &Model| m.solve(&m.a_sign(1.0), &m.b_sign(1.0), &adx);
        let (z1, y1) = at(&self.majorant(0.0));
        let (z2, y2) = at(&self.majorant(FACTOR));
        let e = |p: &[f64], q: &[f64]| p.iter().zip(q).map(|(p, q)| q - p + 1e-12 * p).collect::<Vec<f64>>();
        (z, y, e(&z1, &z2), e(&y1, &y2))
    }

    /// G, g for given signs
    fn jac(&self, sigma: &[f64], a: &[f64], b: &[f64]) -> (DMatrix<f64>, Vec<f64>) {
        // |z| = R dx + r
        let mut rr = DMatrix::<f64>::zeros(self.s, self.n);
        let mut r0 = vec![0.0; self.s];
        for i in 0..self.s {
            let mut row: Vec<f64> = (0..self.n).map(|j| self.zm[(i, j)]).collect();
            let mut c = a[i];
            for k in 0..i {
                for j in 0..self.n {
                    row[j] += self.lm[(i, k)] * rr[(k, j)];
                }
                c += self.lm[(i, k)] * r0[k];
            }
            for j in 0..self.n {
                rr[(i, j)] = sigma[i] * row[j];
            }
            r0[i] = sigma[i] * c;
        }
        let g = (0..self.m).map(|i| b[i] + (0..self.s).map(|k| self.ym[(i, k)] * r0[k]).sum::<f64>()).collect();
        let gm = DMatrix::from_fn(self.m, self.n, |i, j| self.jm[(i, j)] + (0..self.s).map(|k| self.ym[(i, k)] * rr[(k, j)]).sum::<f64>());
        (gm, g)
    }

    fn jacobian(&self, sigma: &[f64]) -> (DMatrix<f64>, Vec<f64>) {
        self.jac(sigma, &self.a(), &self.b())
    }

    /// error bound for any choice of signs
    fn jacobian_err(&self) -> (DMatrix<f64>, Vec<f64>) {
        if self.exact {
            return (DMatrix::zeros(self.m, self.n), vec![0.0; self.m]);
        }
        let one = vec![1.0; self.s];
        let at = |m: &Model| m.jac(&one, &m.a_sign(1.0), &m.b_sign(1.0));
        let (g1, h1) = at(&self.majorant(0.0));
        let (g2, h2) = at(&self.majorant(FACTOR));
        (&g2 - &g1 + &g1 * 1e-12, h1.iter().zip(&h2).map(|(p, q)| q - p + 1e-12 * p).collect())
    }
}

fn near(got: f64, want: f64, err: f64) -> bool {
    got == want || want.is_finite() && (got - want).abs() <= err + if err > 0.0 { 1e-220 } else { 0.0 }
}

fn cmp_mat(what: &str, got: &DMatrix<f64>, want: &DMatrix<f64>, err: &DMatrix<f64>, k: f64) -> Res {
    if got.nrows() != want.nrows() || got.ncols() != want.ncols() {
        return Err(format!("{} is {}x{} instead of {}x{}", what, got.nrows(), got.ncols(), want.nrows(), want.ncols()));
    }
    for i in 0..want.nrows() {
        for j in 0..want.ncols() {
            if !near(got[(i, j)], want[(i, j)], k * err[(i, j)]) {
                return Err(format!("{}[{},{}] is {:e} instead of {:e}", what, i, j, got[(i, j)], want[(i, j)]));
            }
        }
    }
    Ok(())
}

fn cmp_vec(what: &str, got: &[f64], want: &[f64], err: &[f64]) -> Res {
    if got.len() != want.len() {
        return Err(format!("{} has {} entries instead of {}", what, got.len(), want.len()));
    }
    for i in 0..want.len() {
        if !near(got[i], want[i], err[i]) {
            return Err(format!("{}[{}] is {:e} instead of {:e}", what, i, got[i], want[i]));
        }
    }
    Ok(())
}

/// which values of the program are outputs
fn outputs(p: &[Node], n: usize, kind: usize) -> Vec<Out> {
    let t = n + p.len() - 1;
    match kind {
        0 => vec![Out::Val(t)],
        1 => ProgFn::all(n, p.to_vec()).outs,
        2 => vec![Out::Val(t), Out::Val(0), Out::Val(t)],
        3 => vec![],
        // nothing depends on the later steps
        _ => vec![Out::Val(n)],
    }
}

/// points that are exact in small dyadic arithmetic, many of them on kinks
fn dyadic(n: usize, k: usize) -> Vec<Vec<f64>> {
    let p = [
        [0.0, 0.0, 0.0],
        [1.0, -2.0, 0.5],
        [0.5, 0.5, 1.0],
        [2.0, 3.0, -1.0],
        [-1.5, 0.25, 4.0],
        [1.0, 1.0, 1.0],
        [-2.0, 1.0, 0.0],
        [0.0, -1.0, 2.0],
        [0.25, -0.25, -0.5],
    ];
    p[..k].iter().map(|p| p[..n].to_vec()).collect()
}

fn directions(n: usize, x: &[f64], k: usize) -> Vec<Vec<f64>> {
    let d = [[1.0, 0.0, 0.5], [0.0, 0.0, 0.0], [-1.0, 2.0, -0.25], [0.0, -1.0, 1.0], [-0.5, 0.5, 0.0], [3.0, 3.0, -3.0], [-4.0, 1.5, 2.0]];
    let mut r: Vec<Vec<f64>> = vec![x.iter().map(|v| -v).collect(), x.iter().map(|v| -2.0 * v).collect()];
    r.extend(d.iter().map(|p| p[..n].to_vec()));
    r.truncate(k);
    r
}

fn zero_err(m: &Model) -> Vec<f64> {
    // a = z - L|z|
    if m.exact {
        return vec![0.0; m.s];
    }
    let (p, q) = (m.majorant(0.0).a_sign(1.0), m.majorant(FACTOR).a_sign(1.0));
    p.iter().zip(&q).map(|(p, q)| q - p + 1e-13 * p).collect()
}

// ---------------------------------------------------------------------------------------------
// C07

fn check_anf(f: &dyn Function, md: &Model, x: &[f64], dxs: &[Vec<f64>], plain: Option<&dyn Fn(&[f64]) -> Vec<f64>>) -> Res {
    let anf = abs_normal(f, &DVector::from_vec(x.to_vec()));
    if anf.zmat.nrows() != md.s {
        return Err(format!("{} switching variables instead of {}", anf.zmat.nrows(), md.s));
    }
    // shapes first
    for (w, g, r, c) in [("Z", &anf.zmat, md.s, md.n), ("L", &anf.lmat, md.s, md.s), ("J", &anf.jmat, md.m, md.n), ("Y", &anf.ymat, md.m, md.s)] {
        if g.nrows() != r || g.ncols() != c {
            return Err(format!("{} is {}x{} instead of {}x{}", w, g.nrows(), g.ncols(), r, c));
        }
    }
    for i in 0..md.s {
        for j in i..md.s {
            if anf.lmat[(i, j)] != 0.0 {
                return Err(format!("L is not strictly lower triangular at ({},{})", i, j));
            }
        }
    }
    if md.explicit {
        cmp_mat("Z", &anf.zmat, &md.zm, &md.ezm, FACTOR)?;
        cmp_mat("L", &anf.lmat, &md.lm, &md.elm, FACTOR)?;
        cmp_mat("J", &anf.jmat, &md.jm, &md.ejm, FACTOR)?;
        cmp_mat("Y", &anf.ymat, &md.ym, &md.eym, FACTOR)?;
        cmp_vec("a", anf.a.as_slice(), &md.a(), &zero_err(md))?;
        let eb: Vec<f64> = if md.exact {
            vec![0.0; md.m]
        } else {
            let (p, q) = (md.majorant(0.0).b_sign(1.0), md.majorant(FACTOR).b_sign(1.0));
            p.iter().zip(&q).map(|(p, q)| q - p + 1e-13 * p).collect()
        };
        cmp_vec("b", anf.b.as_slice(), &md.b(), &eb)?;
    }
    if anf.a.nrows() != md.s || anf.b.nrows() != md.m {
        return Err(format!("a and b have {} and {} entries instead of {} and {}", anf.a.nrows(), anf.b.nrows(), md.s, md.m));
    }
    // what it says about the function
    let mut got = md.clone();
    got.zm = anf.zmat.clone();
    got.lm = anf.lmat.clone();
    got.jm = anf.jmat.clone();
    got.ym = anf.ymat.clone();
    for dx in dxs {
        let (_, y) = got.solve(anf.a.as_slice(), anf.b.as_slice(), dx);
        let (_, want, _, ey) = md.increments(dx);
        cmp_vec(&format!("increment of the form at dx={:?}", dx), &y, &want, &ey)?;
        if let Some(f) = plain {
            let x1: Vec<f64> = x.iter().zip(dx).map(|(a, b)| a + b).collect();
            let d: Vec<f64> = f(&x1).iter().zip(&f(x)).map(|(a, b)| a - b).collect();
            cmp_vec(&format!("increment of the form of a piecewise linear function at dx={:?}", dx), &y, &d, &vec![0.0; md.m])?;
        }
    }
    Ok(())
}

fn anf_programs(name: &'static str, n: usize, levels: &[u8], npts: usize, outs: usize, exact: bool) -> Harness {
    let g = Gen::new(n, levels, |_| true);
    let pts = if exact { dyadic(n, npts) } else { points(n, 3)[..npts].to_vec() };
    Harness {
        name,
        bound: format!("{}; {} points, {} directions each, {} choices of outputs{}", g.bound(), npts, 9, outs, if exact { "; exact arithmetic" } else { "" }),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let ok = ex.choose(outs);
            let x = ex.pick(&pts);
            let f = ProgFn { n, outs: outputs(&p, n, ok), nodes: p };
            let Some(md) = Model::of(&f, &x, exact) else {
                ex.skip();
                return Ok(());
            };
            ex.state(&(&f.nodes, ok, md.s));
            let dxs = directions(n, &x, 9);
            ex.transitions += dxs.len() as u64;
            ex.note(|| format!("{} outputs {:?} at {:?}", show(&f.nodes, n), f.outs, x));
            let pf = |x: &[f64]| f.out_of(&eval_all::<f64>(&f.nodes, x));
            let pr: Option<&dyn Fn(&[f64]) -> Vec<f64>> = if exact { Some(&pf) } else { None };
            ex.outcome(&format!("{:?}{:?}", md.lm, md.ym));
            check_anf(&f, &md, &x, &dxs, pr).map_err(|e| format!("[{}] outputs {:?} at {:?}: {}", show(&f.nodes, n), f.outs, x, e))
        }),
    }
}

/// Piecewise linear functions of any shape, exact in floating point
#[derive(Clone)]
pub struct Fam {
    n: usize,
    s: usize,
    m: usize,
    kind: usize,
    /// exponents of powers of two on Z, L, J and Y
    ex: [i32; 4],
    /// every entry or only some
    part: bool,
}

impl Fam {
    fn new(n: usize, s: usize, m: usize, kind: usize) -> Fam {
        Fam { n, s, m, kind, ex: [0; 4], part: false }
    }
    fn scale(&self, b: usize, i: usize, j: usize, c: f64) -> f64 {
        if self.part && (i + j) % 2 == 1 {
            c
        } else {
            c * 2f64.powi(self.ex[b])
        }
    }
    fn coef(&self, i: usize, j: usize) -> f64 {
        [1.0, -1.0, 0.0, 2.0, -2.0][(i * 3 + j * 5 + i * j + self.kind) % 5]
    }
    /// z_i = k_i + sum Z x + sum L w, y = sum J x + sum Y w
    fn zc0(&self, i: usize, j: usize) -> f64 {
        if self.n > 6 && (i + j) % (self.n / 3) > 2 {
            return 0.0;
        }
        self.coef(i, j)
    }
    fn lc0(&self, i: usize, j: usize) -> f64 {
        if j >= i {
            return 0.0;
        }
        match if self.kind >= 9 { self.kind } else { self.kind % 3 } {
            // some on the one before, some on the one five before, others on none
            9 => {
                if (i % 2 == 1 && j + 1 == i) || (i % 5 == 4 && j + 5 == i) {
                    [1.0, -1.0][i / 2 % 2]
                } else {
                    0.0
                }
            }
            // a tree
            10 => {
                if i % 3 != 2 && j == i / 2 {
                    [-1.0, 1.0, 1.0][j % 3]
                } else {
                    0.0
                }
            }
            // bidiagonal
            0 => {
                if j + 1 == i {
                    if i % 3 == 1 {
                        -1.0
                    } else {
                        1.0
                    }
                } else {
                    0.0
                }
            }
            // first and every third of the previous twelve
            1 => {
                if j == 0 || (i - j < 12 && (i - j) % 3 == 1 && self.s < 20) {
                    0.5 * self.coef(j, i)
                } else {
                    0.0
                }
            }
            _ => 0.0,
        }
    }
    fn jc0(&self, i: usize, j: usize) -> f64 {
        if i % 4 == 3 || (self.n > 6 && (i + 2 * j) % (self.n / 3) > 1) {
            return 0.0;
        }
        self.coef(j + 2, i)
    }
    fn yc0(&self, i: usize, j: usize) -> f64 {
        if i % 5 == 4 || (self.s > 6 && (i * 3 + j) % (self.s / 3) > 1) {
            return 0.0;
        }
        self.coef(i + 1, 2 * j)
    }
    fn zc(&self, i: usize, j: usize) -> f64 {
        self.scale(0, i, j, self.zc0(i, j))
    }
    fn lc(&self, i: usize, j: usize) -> f64 {
        self.scale(1, i, j, self.lc0(i, j))
    }
    fn jc(&self, i: usize, j: usize) -> f64 {
        self.scale(2, i, j, self.jc0(i, j))
    }
    fn yc(&self, i: usize, j: usize) -> f64 {
        self.scale(3, i, j, self.yc0(i, j))
    }
    fn kc(&self, i: usize) -> f64 {
        if self.kind >= 6 {
            return 0.0;
        }
        [0.0, 1.0, -3.0, 0.0][(i + self.kind) % 4]
    }
    fn go<T: Alg>(&self, x: &[T]) -> Vec<T> {
        let lin = |mut acc: Option<T>, c: f64, v: T| {
            if c != 0.0 {
                let t = if c == 1.0 { v } else { T::bin_f(Bin::Mul, v, c) };
                acc = Some(match acc {
                    Some(a) => T::bin(Bin::Add, a, t),
                    None => t,
                });
            }
            acc
        };
        let mut w: Vec<T> = vec![];
        for i in 0..self.s {
            let mut a = None;
            for (j, v) in x.iter().enumerate() {
                a = lin(a, self.zc(i, j), *v);
            }
            for (j, v) in w.iter().enumerate() {
                a = lin(a, self.lc(i, j), *v);
            }
            // keep every switching variable active
            let a = match a {
                Some(a) => a,
                None => x[i % self.n],
            };
            let z = T::bin_f(Bin::Add, a, self.kc(i));
            w.push(T::un(Un::Abs, z));
        }
        (0..self.m)
            .map(|i| {
                let mut a = None;
                for (j, v) in x.iter().enumerate() {
                    a = lin(a, self.jc(i, j), *v);
                }
                for (j, v) in w.iter().enumerate() {
                    a = lin(a, self.yc(i, j), *v);
                }
                a.unwrap_or(T::lift(3.0))
            })
            .collect()
    }
    fn model(&self, x: &[f64]) -> Model {
        let mut r = Model::new(self.n, self.s, self.m, true, true);
        let mut w = vec![0.0; self.s];
        for i in 0..self.s {
            for j in 0..self.n {
                r.zm[(i, j)] = self.zc(i, j);
            }
            for j in 0..i {
                r.lm[(i, j)] = self.lc(i, j);
            }
            if (0..self.n).all(|j| r.zm[(i, j)] == 0.0) && (0..self.s).all(|j| r.lm[(i, j)] == 0.0) {
                r.zm[(i, i % self.n)] = 1.0;
            }
            let z: f64 = self.kc(i) + (0..self.n).map(|j| r.zm[(i, j)] * x[j]).sum::<f64>() + (0..i).map(|j| r.lm[(i, j)] * w[j]).sum::<f64>();
            r.z0[i] = z;
            w[i] = z.abs();
        }
        for i in 0..self.m {
            for j in 0..self.n {
                r.jm[(i, j)] = self.jc(i, j);
            }
            for j in 0..self.s {
                r.ym[(i, j)] = self.yc(i, j);
            }
            let konst = (0..self.n).all(|j| r.jm[(i, j)] == 0.0) && (0..self.s).all(|j| r.ym[(i, j)] == 0.0);
            r.y0[i] = if konst { 3.0 } else { (0..self.n).map(|j| r.jm[(i, j)] * x[j]).sum::<f64>() + (0..self.s).map(|j| r.ym[(i, j)] * w[j]).sum::<f64>() };
        }
        r
    }
    fn x0(&self, k: usize) -> Vec<f64> {
        match k {
            0 => vec![0.0; self.n],
            1 => (0..self.n).map(|i| [1.0, -0.5, 2.0, 0.25, -3.0][(i * 3) % 5]).collect(),
            _ => vec![1.0; self.n],
        }
    }
    fn dxs(&self, x: &[f64]) -> Vec<Vec<f64>> {
        let mut r: Vec<Vec<f64>> = vec![
            vec![0.0; self.n],
            x.iter().map(|v| -v).collect(),
            (0..self.n).map(|i| [0.5, -2.0, 1.0][i % 3]).collect(),
            (0..self.n).map(|i| [-1.0, 0.0, -0.25, 4.0][i % 4]).collect(),
        ];
        if self.n > 0 {
            let mut e = vec![0.0; self.n];
            e[self.n - 1] = 1.0;
            r.push(e);
        }
        r
    }
}
impl Function for Fam {
    fn n(&self) -> usize {
        self.n
    }
    fn m(&self) -> usize {
        self.m
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        DVector::from_vec(self.go(x.as_slice()))
    }
}

/// Kinks within kinks, every coefficient chosen: w_i = |Z_i x + L_i w|, y = (w_s, x + w_1 - w_2 + 2 w_3 ..),
/// one or two independent such blocks, each with its own scale. Powers of two scale everything exactly.
#[derive(Clone, Debug)]
struct Kinks {
    blocks: Vec<Vec<Vec<f64>>>, // block, row: coefficients of x, w_0 .. w_{i-1}
}

const KINK_COEFS: [f64; 5] = [-4.0, -1.0, 1.0, 0.0, 3.0];
const SCALES: [i32; 6] = [0, -20, -53, -80, -300, 40];

impl Kinks {
    /// None: an argument without an active value, or a value that is not used
    fn block(c: &[f64], s: usize) -> Option<Vec<Vec<f64>>> {
        let mut r = vec![];
        let mut k = 0;
        for i in 0..s {
            let row = c[k..k + i + 1].to_vec();
            k += i + 1;
            if row.iter().all(|c| *c == 0.0) {
                return None;
            }
            r.push(row);
        }
        Some(r)
    }
    fn s(&self) -> usize {
        self.blocks[0].len()
    }
    fn go<T: Alg>(&self, x: &[T]) -> Vec<T> {
        let mut w: Vec<Vec<T>> = vec![vec![]; self.blocks.len()];
        let term = |a: Option<T>, c: f64, v: T| -> Option<T> {
            match (a, c) {
                (_, 0.0) => a,
                (None, 1.0) => Some(v),
                (None, -1.0) => Some(T::un(Un::Neg, v)),
                (None, _) => Some(T::bin_f(Bin::Mul, v, c)),
                (Some(a), 1.0) => Some(T::bin(Bin::Add, a, v)),
                (Some(a), -1.0) => Some(T::bin(Bin::Sub, a, v)),
                (Some(a), _) => Some(T::bin(Bin::Add, a, T::bin_f(Bin::Mul, v, c))),
            }
        };
        // rows of the blocks alternate
        for i in 0..self.s() {
            for (b, bl) in self.blocks.iter().enumerate() {
                let mut a = term(None, bl[i][0], x[b]);
                for k in 0..i {
                    a = term(a, bl[i][k + 1], w[b][k]);
                }
                w[b].push(T::un(Un::Abs, a.unwrap()));
            }
        }
        let mut y = vec![];
        for (b, w) in w.iter().enumerate() {
            y.push(w[w.len() - 1]);
            let mut a = Some(x[b]);
            for (k, v) in w.iter().enumerate() {
                a = term(a, [1.0, -1.0, 2.0][k % 3], *v);
            }
            y.push(a.unwrap());
        }
        y
    }
    fn model(&self, x: &[f64]) -> Model {
        let nb = self.blocks.len();
        let s = self.s();
        let mut r = Model::new(nb, nb * s, 2 * nb, true, true);
        for (b, bl) in self.blocks.iter().enumerate() {
            let at = |i: usize| i * nb + b;
            for i in 0..s {
                r.zm[(at(i), b)] = bl[i][0];
                let mut z = bl[i][0] * x[b];
                for k in 0..i {
                    r.lm[(at(i), at(k))] = bl[i][k + 1];
                    z += bl[i][k + 1] * r.z0[at(k)].abs();
                }
                r.z0[at(i)] = z;
                r.ym[(2 * b + 1, at(i))] = [1.0, -1.0, 2.0][i % 3];
            }
            r.ym[(2 * b, at(s - 1))] = 1.0;
            r.jm[(2 * b + 1, b)] = 1.0;
            r.y0[2 * b] = r.z0[at(s - 1)].abs();
            r.y0[2 * b + 1] = x[b] + (0..s).map(|i| [1.0, -1.0, 2.0][i % 3] * r.z0[at(i)].abs()).sum::<f64>();
        }
        r
    }
}
impl Function for Kinks {
    fn n(&self) -> usize {
        self.blocks.len()
    }
    fn m(&self) -> usize {
        2 * self.blocks.len()
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        DVector::from_vec(self.go(x.as_slice()))
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Which {
    Anf,
    Ops,
    Gj,
}

fn kinks(name: &'static str, which: Which, two: bool, nc: usize) -> Harness {
    let s = 3;
    let others: Vec<Vec<Vec<f64>>> = [[1.0, 1.0, -4.0, 1.0, 1.0, -3.0], [-1.0, 0.0, 1.0, 3.0, -1.0, -1.0], [3.0, -4.0, 1.0, 0.0, 1.0, -1.0]]
        .iter()
        .map(|c| Kinks::block(c, s).unwrap())
        .collect();
    let scales: Vec<i32> = if two { vec![0, -53, -300] } else { SCALES.to_vec() };
    Harness {
        name,
        bound: format!(
            "{} nested absolute values with all coefficients from {:?}{}; inputs and directions scaled by 2^{:?}; exact arithmetic",
            s,
            &KINK_COEFS[..nc],
            if two { ", next to one of 3 others at a scale of its own" } else { "" },
            scales
        ),
        units: nc * nc * nc,
        run: Box::new(move |ex, u| {
            let mut c = vec![KINK_COEFS[u % nc], KINK_COEFS[u / nc % nc], KINK_COEFS[u / nc / nc % nc]];
            while c.len() < s * (s + 1) / 2 {
                c.push(KINK_COEFS[ex.choose(nc)]);
            }
            let Some(b) = Kinks::block(&c, s) else {
                ex.skip();
                return Ok(());
            };
            let mut f = Kinks { blocks: vec![b] };
            let mut x = vec![ex.pick(&[1.0, -3.0]) * 2f64.powi(ex.pick(&scales))];
            if two {
                f.blocks.push(others[ex.choose(others.len())].clone());
                x.push(-2f64.powi(ex.pick(&scales)));
            }
            let md = f.model(&x);
            let dxs: Vec<Vec<f64>> = [-1.0, -2.0, 0.25, 4.0]
                .iter()
                .enumerate()
                .map(|(i, k)| x.iter().enumerate().map(|(j, v)| if j == 1 { [0.5, -1.0, -2.0, 0.0][i] * v } else { k * v }).collect())
                .collect();
            ex.note(|| format!("{:?} at {:?}", f, x));
            ex.state(&(tapes_bits(&c), tapes_bits(&x), f.blocks.len()));
            let fail = |e: String| format!("kinks {:?} at {:?}: {}", f.blocks, x, e);
            match which {
                Which::Anf => {
                    let pf = |x: &[f64]| f.go(x);
                    ex.transitions += dxs.len() as u64;
                    check_anf(&f, &md, &x, &dxs, Some(&pf)).map_err(fail)?;
                }
                Which::Ops => {
                    let at = AbsNormalTape::new(f.tape(&DVector::from_vec(x.clone())));
                    check_ops(ex, &at, &md, &x, &[1, 2]).map_err(fail)?;
                }
                Which::Gj => {
                    for dx in &dxs {
                        let ties = signs(&md, dx, &[]).unwrap().1;
                        for b in [vec![], vec![0u8], vec![0xff], vec![0x55]] {
                            ex.step();
                            let (sg, t) = signs(&md, dx, &b).unwrap();
                            let got = generalized_jacobian(&f, &DVector::from_vec(x.clone()), &DVector::from_vec(dx.clone()), &b, None);
                            ex.outcome(&format!("{:?}", got.homogenous));
                            check_gj("Jacobian", &got, &md, &sg, t, None).map_err(|e| fail(format!("direction {:?} sign bytes {:?}: {}", dx, b, e)))?;
                            if ties == 0 {
                                break;
                            }
                        }
                    }
                }
            }
            Ok(())
        }),
    }
}

/// absolute values of whatever is there: of inputs, of their difference, of each other, several of the same value
fn shared(name: &'static str, which: Which, depth: usize) -> Harness {
    Harness {
        name,
        bound: format!("all functions of {} absolute values whose arguments are an input, the difference of the inputs or an earlier absolute value, all of which may be used several times; 3 points; exact arithmetic", depth),
        units: 3 * 4 * 5,
        run: Box::new(move |ex, u| {
            let mut nodes = vec![Node::Bin(Bin::Sub, 0, 1)];
            let mut pick = vec![u % 3, u / 3 % 4, u / 12];
            while pick.len() < depth {
                pick.push(ex.choose(3 + pick.len()));
            }
            for a in &pick {
                nodes.push(Node::Un(Un::Abs, *a));
            }
            // every absolute value with a coefficient of its own
            let mut acc = 0;
            for i in 0..depth {
                nodes.push(Node::Bin(Bin::Add, acc, acc));
                nodes.push(Node::Bin(if i % 2 == 0 { Bin::Add } else { Bin::Sub }, 2 + nodes.len() - 1, 3 + i));
                acc = 2 + nodes.len() - 1;
            }
            let outs = [acc, 2 + depth, 2, pick[depth - 1], 3, acc].iter().map(|v| Out::Val(*v)).collect();
            let f = ProgFn { n: 2, nodes, outs };
            let x = ex.pick(&[vec![1.0, -3.0], vec![-2.0, -2.0], vec![0.0, 4.0]]);
            let Some(md) = Model::of(&f, &x, true) else {
                ex.skip();
                return Ok(());
            };
            let dxs = [vec![-2.0, 4.0], vec![1.0, 0.0], vec![0.0, -4.0], vec![3.0, 3.0]];
            ex.note(|| format!("absolute values of {:?} at {:?}", pick, x));
            ex.state(&(pick.clone(), tapes_bits(&x)));
            let fail = |e: String| format!("absolute values of the values {:?} at {:?}: {}", pick, x, e);
            match which {
                Which::Anf => {
                    let pf = |x: &[f64]| f.out_of(&eval_all::<f64>(&f.nodes, x));
                    ex.transitions += dxs.len() as u64;
                    check_anf(&f, &md, &x, &dxs, Some(&pf)).map_err(fail)?;
                }
                Which::Ops => {
                    let at = AbsNormalTape::new(f.tape(&DVector::from_vec(x.clone())));
                    check_ops(ex, &at, &md, &x, &[2]).map_err(fail)?;
                }
                Which::Gj => {
                    for dx in &dxs {
                        for b in [vec![], vec![0u8], vec![0xff], vec![0x55], vec![0xaa]] {
                            ex.step();
                            let (sg, t) = signs(&md, dx, &b).unwrap();
                            let got = generalized_jacobian(&f, &DVector::from_vec(x.clone()), &DVector::from_vec(dx.clone()), &b, None);
                            ex.outcome(&format!("{:?}", got.homogenous));
                            check_gj("Jacobian", &got, &md, &sg, t, None).map_err(|e| fail(format!("direction {:?} sign bytes {:?}: {}", dx, b, e)))?;
                            if t == 0 {
                                break;
                            }
                        }
                    }
                }
            }
            Ok(())
        }),
    }
}

fn shapes(thorough: bool) -> Vec<(usize, usize, usize)> {
    let small: Vec<usize> = if thorough { (0..8).collect() } else { vec![0, 1, 2, 3, 4] };
    let mut r = vec![];
    for &n in &small {
        for &s in &small {
            for &m in &small {
                if n > 0 || s == 0 {
                    r.push((n, s, m));
                }
            }
        }
    }
    for &(n, s, m) in &[
        (7, 2, 1),
        (1, 9, 2),
        (2, 1, 11),
        (5, 8, 9),
        (16, 17, 15),
        (1, 33, 1),
        (33, 1, 1),
        (1, 1, 33),
        (31, 32, 33),
        (64, 10, 65),
        (65, 64, 3),
        (2, 65, 2),
        (3, 130, 4),
        (130, 3, 4),
        (3, 4, 130),
        (100, 70, 40),
        (2, 260, 3),
        (260, 1, 1),
        (2, 2, 260),
    ] {
        r.push((n, s, m));
    }
    if thorough {
        r.extend([(130, 130, 130), (1, 300, 1), (300, 2, 2), (2, 2, 300), (70, 257, 66), (257, 66, 70)]);
    }
    r
}

fn anf_shapes(thorough: bool) -> Harness {
    let sh = shapes(thorough);
    Harness {
        name: "shapes",
        bound: format!("piecewise linear functions with {} shapes (inputs, switching variables, outputs) up to {:?}, 6 coefficient patterns, 3 points; exact arithmetic", sh.len(), sh.iter().max_by_key(|s| s.0 + s.1 + s.2)),
        units: sh.len(),
        run: Box::new(move |ex, u| {
            let (n, s, m) = sh[sh.len() - 1 - u];
            let f = Fam::new(n, s, m, ex.choose(6));
            let x = f.x0(ex.choose(3));
            let md = f.model(&x);
            ex.note(|| format!("{} inputs, {} switching variables, {} outputs at {:?}", n, s, m, x));
            ex.state(&(n, s, m, f.kind));
            let dxs = f.dxs(&x);
            ex.transitions += dxs.len() as u64;
            ex.outcome(&format!("{:?}", md.z0));
            let pf = |x: &[f64]| f.go(x);
            check_anf(&f, &md, &x, &dxs, Some(&pf)).map_err(|e| format!("pattern {} with n={} s={} m={} at {:?}: {}", f.kind, n, s, m, x, e))
        }),
    }
}

/// Entries of very different size in each of the four matrices
fn entries(ops: bool, thorough: bool) -> Harness {
    let ks: Vec<i32> = if thorough { vec![0, 50, -40, -54, -70, 200, -300, -1000] } else { vec![0, 50, -54, -1000] };
    let sh = [(2, 2, 2), (3, 4, 2), (1, 3, 1)];
    let kinds = [6, 7, 9];
    let k4 = ks.len().pow(4);
    Harness {
        name: "entry_sizes",
        bound: format!("homogeneous piecewise linear functions of shapes {:?}, 3 patterns; the coefficients of each of the four matrices, all or every other one, times two to the powers {:?} in every combination", sh, ks),
        units: k4,
        run: Box::new(move |ex, u| {
            let (n, s, m) = ex.pick(&sh);
            let mut f = Fam::new(n, s, m, ex.pick(&kinds));
            let mut v = u;
            for e in f.ex.iter_mut() {
                *e = ks[v % ks.len()];
                v /= ks.len();
            }
            f.part = ex.flag();
            let x = vec![0.0; n];
            // sums over entries of different size are rounded
            let mut md = f.model(&x);
            md.exact = false;
            ex.note(|| format!("n={} s={} m={} pattern {} exponents {:?}", n, s, m, f.kind, f.ex));
            ex.state(&(n, s, m, f.kind, f.ex, f.part));
            ex.step();
            ex.outcome(&format!("{:?}", (&md.zm, &md.lm, &md.jm, &md.ym)));
            let r = if ops {
                let at = AbsNormalTape::new(f.tape(&DVector::from_vec(x.clone())));
                check_ops(ex, &at, &md, &x, &[2])
            } else {
                check_anf(&f, &md, &x, &[], None)
            };
            r.map_err(|e| format!("n={} s={} m={} pattern {} exponents {:?}, every other one: {}: {}", n, s, m, f.kind, f.ex, f.part, e))
        }),
    }
}

pub fn c07(t: bool) -> Check {
    let mut hs = vec![
        anf_programs("exact1", 2, &[4], 9, 4, true),
        anf_programs("exact2", 2, &[4, 3], 4, 2, true),
        anf_programs("exact3", 2, &[3, 3, 3], 3, 2, true),
        anf_programs("exact22", 2, &[4, 4], 9, 5, true),
        anf_programs("three_inputs", 3, &[3, 3], 4, 3, true),
        anf_programs("one_input", 1, &[3, 3, 3], 4, 3, true),
        anf_programs("smooth1", 2, &[2], 14, 4, false),
        anf_programs("smooth2", 2, &[0, 0], 5, 2, false),
        anf_programs("smooth3", 1, &[0, 0, 0], 3, 1, false),
        anf_shapes(t),
        entries(false, t),
        kinks("kinks", Which::Anf, false, 5),
        shared("shared", Which::Anf, if t { 6 } else { 5 }),
    ];
    if t {
        hs.extend([
            anf_programs("exact4", 2, &[3, 3, 3, 3], 3, 1, true),
            anf_programs("one_input5", 1, &[3, 3, 3, 3, 3], 3, 1, true),
            anf_programs("smooth2w", 2, &[1, 1], 5, 2, false),
            anf_programs("smooth3w", 2, &[0, 0, 0], 3, 1, false),
        ]);
    }
    Check { property: "C07", harnesses: hs, assumptions: vec!["entries of the matrices are compared only when every switching variable comes from an explicit abs; with max, min and positive difference the form is compared by what it represents".into()] }
}

// ---------------------------------------------------------------------------------------------
// C08

fn int_mat(r: usize, c: usize, k: usize) -> DMatrix<f64> {
    DMatrix::from_fn(r, c, |i, j| [1.0, -2.0, 0.5, 0.0, 3.0, -1.0, 0.25][(i * 3 + j * 2 + i * j + k) % 7])
}

macro_rules! operator_checks {
    ($md:expr, $at:expr, $ty:ident, $mat:ident, $err:ident, $ks:expr, $ex:expr) => {{
        let op = $ty::new($at);
        let what = stringify!($ty);
        let (want, err) = (&$md.$mat, &$md.$err);
        let (r, c) = (want.nrows(), want.ncols());
        if op.nrows() != r || op.ncols() != c {
            return Err(format!("{} is {}x{} instead of {}x{}", what, op.nrows(), op.ncols(), r, c));
        }
        let tol = if $md.exact { 0.0 } else { 1e-13 };
        let right = |b: &DMatrix<f64>| -> (DMatrix<f64>, DMatrix<f64>) {
            let ab = b.map(|x| x.abs());
            (want * b, (err * FACTOR + want.map(|x| x.abs()) * tol) * ab)
        };
        let left = |b: &DMatrix<f64>| -> (DMatrix<f64>, DMatrix<f64>) {
            let ab = b.map(|x| x.abs());
            (b * want, ab * (err * FACTOR + want.map(|x| x.abs()) * tol))
        };
        for k in $ks {
            let k: usize = *k;
            let b = int_mat(c, k, k);
            let (w, e) = right(&b);
            cmp_mat(&format!("{} * ({}x{})", what, c, k), &op.mul_right(&b), &w, &e, 1.0)?;
            // a view into a bigger matrix
            let mut big = DMatrix::from_element(c + 2, k + 3, f64::NAN);
            for i in 0..c {
                for j in 0..k {
                    big[(i + 1, j + 2)] = b[(i, j)];
                }
            }
            cmp_mat(&format!("{} * view ({}x{})", what, c, k), &op.mul_right(&big.slice((1, 2), (c, k))), &w, &e, 1.0)?;
            let b = int_mat(k, r, k + 1);
            let (w, e) = left(&b);
            cmp_mat(&format!("({}x{}) * {}", k, r, what), &op.mul_left(&b), &w, &e, 1.0)?;
            let mut big = DMatrix::from_element(k + 2, r + 3, f64::NAN);
            for i in 0..k {
                for j in 0..r {
                    big[(i + 1, j + 2)] = b[(i, j)];
                }
            }
            cmp_mat(&format!("view ({}x{}) * {}", k, r, what), &op.mul_left(&big.slice((1, 2), (k, r))), &w, &e, 1.0)?;
            // every other row and column of a bigger matrix
            let mut big = DMatrix::from_element(2 * k + 1, 3 * r + 1, f64::NAN);
            for i in 0..k {
                for j in 0..r {
                    big[(2 * i + 1, 3 * j + 1)] = b[(i, j)];
                }
            }
            if k > 0 && r > 0 {
                cmp_mat(&format!("steps ({}x{}) * {}", k, r, what), &op.mul_left(&big.slice_with_steps((1, 1), (k, r), (1, 2))), &w, &e, 1.0)?;
            }
            $ex.transitions += 4;
        }
        // vectors
        let b = int_mat(c, 1, 3);
        let (w, e) = right(&b);
        cmp_mat(&format!("{} * vector", what), &op.mul_right(&b.column(0)), &w, &e, 1.0)?;
        cmp_mat(&format!("{} * vector", what), &op.mul_right(&DVector::from_vec(b.as_slice().to_vec())), &w, &e, 1.0)?;
        let b = int_mat(1, r, 4);
        let (w, e) = left(&b);
        cmp_mat(&format!("row vector * {}", what), &op.mul_left(&b.row(0)), &w, &e, 1.0)?;
        cmp_mat(&format!("row vector * {}", what), &op.mul_left(&nalgebra::RowDVector::from_vec(b.as_slice().to_vec())), &w, &e, 1.0)?;
        // statically sized operands
        if c == 2 {
            let b = nalgebra::Matrix2x3::new(1.0, -2.0, 0.5, 3.0, 0.0, -1.0);
            let (w, e) = right(&DMatrix::from_fn(2, 3, |i, j| b[(i, j)]));
            cmp_mat(&format!("{} * Matrix2x3", what), &op.mul_right(&b), &w, &e, 1.0)?;
        }
        if r == 2 {
            let b = nalgebra::Matrix3x2::new(1.0, -2.0, 0.5, 3.0, 0.0, -1.0);
            let (w, e) = left(&DMatrix::from_fn(3, 2, |i, j| b[(i, j)]));
            cmp_mat(&format!("Matrix3x2 * {}", what), &op.mul_left(&b), &w, &e, 1.0)?;
        }
        // rows and columns
        let (w, e) = left(&DMatrix::identity(r, r));
        for i in 0..r {
            cmp_mat(&format!("{}.row({})", what, i), &op.row(i), &w.rows(i, 1).into_owned(), &e.rows(i, 1).into_owned(), 1.0)?;
        }
        for j in 0..c {
            cmp_mat(&format!("{}.column({})", what, j), &op.column(j), &w.columns(j, 1).into_owned(), &e.columns(j, 1).into_owned(), 1.0)?;
        }
        $ex.transitions += (r + c) as u64;
        // incompatible operands
        for bad in [c + 1, c + 7, c.wrapping_sub(1), 0] {
            if bad != c && bad < 1 << 20 {
                for k in [1, 2] {
                    if panics(|| op.mul_right(&DMatrix::<f64>::zeros(bad, k))).is_ok() {
                        return Err(format!("{} ({}x{}) accepts an operand of {} rows from the right", what, r, c, bad));
                    }
                }
            }
        }
        for bad in [r + 1, r + 7, r.wrapping_sub(1), 0] {
            if bad != r && bad < 1 << 20 {
                for k in [1, 2] {
                    if panics(|| op.mul_left(&DMatrix::<f64>::zeros(k, bad))).is_ok() {
                        return Err(format!("{} ({}x{}) accepts an operand of {} columns from the left", what, r, c, bad));
                    }
                }
            }
        }
    }};
}

pub fn check_ops(ex: &mut Ex, at: &AbsNormalTape, md: &Model, x: &[f64], ks: &[usize]) -> Res {
    if at.n() != md.n || at.m() != md.m || at.s() != md.s {
        return Err(format!("n, m, s = {}, {}, {} instead of {}, {}, {}", at.n(), at.m(), at.s(), md.n, md.m, md.s));
    }
    cmp_vec("x", AbsNormalTape::x(at).as_slice(), x, &vec![0.0; md.n])?;
    let ey: Vec<f64> = md.y0.iter().map(|y| if md.exact { 0.0 } else { 1e-9 * y.abs() + 1e-9 }).collect();
    cmp_vec("y", AbsNormalTape::y(at).as_slice(), &md.y0, &ey)?;
    let ez: Vec<f64> = md.z0.iter().zip(&md.ez).map(|(z, e)| if md.exact { 0.0 } else { FACTOR * e + 1e-13 * z.abs() }).collect();
    cmp_vec("z", at.z().as_slice(), &md.z0, &ez)?;
    // as a tape from inputs and absolute values to switching variables and outputs
    let zy: Vec<f64> = md.z0.iter().chain(&md.y0).cloned().collect();
    let ezy: Vec<f64> = ez.iter().chain(&ey).cloned().collect();
    cmp_vec("outputs of the decomposed tape", Tape::y(at).as_slice(), &zy, &ezy)?;
    let (rows, cols) = (md.s + md.m, md.n + md.s);
    if at.num_deps() != rows || at.num_indeps() != cols || at.num_abs() != 0 {
        return Err(format!("the decomposed tape has {} inputs, {} outputs and {} absolute values", at.num_indeps(), at.num_deps(), at.num_abs()));
    }
    let mut jac = DMatrix::zeros(rows, cols);
    let mut err = DMatrix::zeros(rows, cols);
    for (i, j, m, e) in [(0, 0, &md.zm, &md.ezm), (0, md.n, &md.lm, &md.elm), (md.s, 0, &md.jm, &md.ejm), (md.s, md.n, &md.ym, &md.eym)] {
        jac.slice_mut((i, j), m.shape()).copy_from(m);
        err.slice_mut((i, j), m.shape()).copy_from(e);
    }
    let tol = if md.exact { 0.0 } else { 1e-13 };
    let err = err * FACTOR + jac.map(|x: f64| x.abs()) * tol;
    if rows <= 40 && cols <= 40 {
        cmp_mat("Jacobian of the decomposed tape", &jacobian_reverse(at), &jac, &err, 1.0)?;
    }
    let d = int_mat(cols, 1, 5);
    cmp_vec("forward sweep of the decomposed tape", at.first_order_forward(&d.column(0).into_owned()).as_slice(), (&jac * &d).as_slice(), (&err * d.map(|x| x.abs())).as_slice())?;
    ex.transitions += 2;
    operator_checks!(md, at, AbsNormalZ, zm, ezm, ks, ex);
    operator_checks!(md, at, AbsNormalL, lm, elm, ks, ex);
    operator_checks!(md, at, AbsNormalJ, jm, ejm, ks, ex);
    operator_checks!(md, at, AbsNormalY, ym, eym, ks, ex);
    Ok(())
}

fn op_programs(name: &'static str, n: usize, levels: &[u8], npts: usize, outs: usize, exact: bool) -> Harness {
    // operators are only determined when every switching variable is an explicit abs
    let g = Gen::new(n, levels, |nd| !nd.has_abs() || matches!(nd, Node::Un(Un::Abs, _)));
    let pts = if exact { dyadic(n, npts) } else { points(n, 3)[..npts].to_vec() };
    Harness {
        name,
        bound: format!("{}; {} points reached by recording there or by replaying, {} choices of outputs, operands with 0 to 3 rows/columns", g.bound(), npts, outs),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let ok = ex.choose(outs);
            let xi = ex.choose(npts);
            let x = pts[xi].clone();
            let mode = ex.choose(3);
            let f = ProgFn { n, outs: outputs(&p, n, ok), nodes: p };
            let Some(md) = Model::of(&f, &x, exact) else {
                ex.skip();
                return Ok(());
            };
            ex.state(&(&f.nodes, ok, xi, mode));
            ex.note(|| format!("{} at {:?}", show(&f.nodes, n), x));
            ex.outcome(&format!("{:?}{:?}", md.lm, md.ym));
            let at = if mode == 0 {
                AbsNormalTape::new(f.tape(&DVector::from_vec(x.clone())))
            } else if mode == 1 {
                let mut t = f.tape(&DVector::from_vec(pts[(xi + 1) % npts].clone()));
                t.zero_order(&DVector::from_vec(x.clone()));
                AbsNormalTape::new(t)
            } else {
                // the decomposed tape is replayed at inputs and absolute values
                let w = AbsNormalTape::new(f.tape(&DVector::from_vec(x.clone()))).z().abs();
                let xw: Vec<f64> = x.iter().chain(w.iter()).cloned().collect();
                let mut at = AbsNormalTape::new(f.tape(&DVector::from_vec(pts[(xi + 1) % npts].clone())));
                at.zero_order(&DVector::from_vec(xw.clone()));
                if Tape::x(&at).as_slice().iter().zip(&xw).any(|(a, b)| a.to_bits() != b.to_bits()) {
                    return Err(format!("[{}] replayed at {:?}, the decomposed tape has the inputs {:?}", show(&f.nodes, n), xw, Tape::x(&at).as_slice()));
                }
                for bad in [xw.len() + 1, x.len()] {
                    if bad != xw.len() && panics(|| at.zero_order(&DVector::from_element(bad, 0.5))).is_ok() {
                        return Err(format!("[{}] the decomposed tape of {} + {} inputs accepts {}", show(&f.nodes, n), x.len(), w.nrows(), bad));
                    }
                }
                at
            };
            check_ops(ex, &at, &md, &x, &[0, 1, 2, 3]).map_err(|e| format!("[{}] outputs {:?} at {:?}: {}", show(&f.nodes, n), f.outs, x, e))
        }),
    }
}

fn op_shapes(thorough: bool) -> Harness {
    let sh: Vec<_> = shapes(thorough).into_iter().filter(|s| s.0 + s.1 + s.2 < if thorough { 500 } else { 270 }).collect();
    Harness {
        name: "shapes",
        bound: format!("piecewise linear functions with {} shapes, 3 coefficient patterns, operands with 0, 1, 2, 5, 8, 33 and 65 rows/columns; exact arithmetic", sh.len()),
        units: sh.len(),
        run: Box::new(move |ex, u| {
            let (n, s, m) = sh[sh.len() - 1 - u];
            let f = Fam::new(n, s, m, ex.choose(3));
            let x = f.x0(1);
            let md = f.model(&x);
            ex.note(|| format!("{} inputs, {} switching variables, {} outputs at {:?}", n, s, m, x));
            ex.state(&(n, s, m, f.kind));
            ex.outcome(&format!("{:?}", md.z0));
            let at = AbsNormalTape::new(f.tape(&DVector::from_vec(x.clone())));
            check_ops(ex, &at, &md, &x, &[0, 1, 2, 5, 8, 33, 65]).map_err(|e| format!("pattern {} with n={} s={} m={} at {:?}: {}", f.kind, n, s, m, x, e))
        }),
    }
}

pub fn c08(t: bool) -> Check {
    let mut hs = vec![
        op_programs("exact1", 2, &[4], 3, 5, true),
        op_programs("exact2", 2, &[3, 3], 2, 5, true),
        op_programs("exact3", 2, &[3, 3, 3], 1, 1, true),
        op_programs("smooth1", 2, &[2], 3, 2, false),
        op_programs("smooth2", 2, &[0, 0], 2, 1, false),
        op_shapes(t),
        entries(true, t),
        kinks("kinks", Which::Ops, false, if t { 5 } else { 3 }),
        shared("shared", Which::Ops, if t { 6 } else { 5 }),
    ];
    if t {
        hs.extend([
            op_programs("exact3all", 2, &[3, 3, 3], 3, 5, true),
            op_programs("exact4", 1, &[3, 3, 3, 3], 2, 2, true),
            op_programs("smooth2all", 2, &[1, 0], 3, 5, false),
        ]);
    }
    Check { property: "C08", harnesses: hs, assumptions: vec![] }
}

// ---------------------------------------------------------------------------------------------
// C09

fn check_gj(
    what: &str,
    got: &GeneralizedJacobian,
    md: &Model,
    sigma: &[f64],
    mult: usize,
    next: Option<&GeneralizedJacobian>,
) -> Res {
    let (mut g, mut h) = md.jacobian(sigma);
    let (mut eg, mut eh) = md.jacobian_err();
    let mut mult = mult;
    if let Some(nx) = next {
        let ab = nx.homogenous.map(|x| x.abs());
        eg = &ab * (eg + g.map(|x| x.abs()) * if md.exact { 0.0 } else { 1e-12 });
        g = &nx.homogenous * g;
        let e = &ab * DVector::from_vec(eh.clone()) + &ab * DVector::from_vec(h.iter().map(|x| x.abs() * if md.exact { 0.0 } else { 1e-12 }).collect());
        let v = &nx.inhomogenous + &nx.homogenous * DVector::from_vec(h);
        eh = e.as_slice().iter().zip(nx.inhomogenous.iter()).map(|(e, g)| e + if md.exact { 0.0 } else { 1e-12 * g.abs() }).collect();
        h = v.as_slice().to_vec();
        mult += nx.multiplicity;
    }
    if got.multiplicity != mult {
        return Err(format!("{}: multiplicity {} instead of {}", what, got.multiplicity, mult));
    }
    cmp_mat(&format!("{}: G", what), &got.homogenous, &g, &eg, 1.0)?;
    cmp_vec(&format!("{}: g", what), got.inhomogenous.as_slice(), &h, &eh)
}

fn bit_at(bytes: &[u8], i: usize) -> f64 {
    if i / 8 < bytes.len() && bytes[i / 8] >> (i % 8) & 1 == 1 {
        1.0
    } else {
        -1.0
    }
}

/// signs at dx. None: too close to call.
fn signs(md: &Model, dx: &[f64], bits: &[u8]) -> Option<(Vec<f64>, usize)> {
    let (z, _, ez, _) = md.increments(dx);
    let mut t = 0;
    let mut r = vec![];
    for i in 0..md.s {
        if !md.exact && z[i].abs() <= 4.0 * ez[i] {
            return None;
        }
        r.push(if z[i] > 0.0 {
            1.0
        } else if z[i] < 0.0 {
            -1.0
        } else {
            t += 1;
            bit_at(bits, t - 1)
        });
    }
    Some((r, t))
}

fn byte_lists(ties: usize) -> Vec<Vec<u8>> {
    let mut r = vec![vec![]];
    if ties <= 5 {
        for b in 0..1u16 << ties {
            r.push(vec![b as u8]);
        }
        r.push(vec![0xff << ties.min(7)]);
        r.push(vec![0, 0xff]);
        r.push(vec![0xff, 0]);
    } else {
        let nb = ties.div_ceil(8);
        for pat in [[0xffu8, 0x00], [0x00, 0xff], [0xa5, 0x3c], [0x01, 0x80], [0x80, 0x01], [0xff, 0xff]] {
            for l in [1, nb - 1, nb, nb + 1] {
                r.push((0..l).map(|i| pat[i % 2]).collect());
            }
        }
        if ties <= 17 {
            for k in 0..ties {
                r.push((0..nb).map(|i| if i == k / 8 { 1 << (k % 8) } else { 0 }).collect());
            }
        }
    }
    r
}

fn followers(m: usize) -> Vec<Option<GeneralizedJacobian>> {
    let mk = |k: usize, mult: usize| {
        Some(GeneralizedJacobian {
            homogenous: int_mat(k, m, k),
            inhomogenous: DVector::from_iterator(k, (0..k).map(|i| 1.5 - 2.0 * i as f64)),
            multiplicity: mult,
        })
    };
    vec![None, mk(1, 0), mk(3, 5), mk(0, 1)]
}

fn gj_programs(name: &'static str, n: usize, levels: &[u8], npts: usize, ndx: usize, outs: usize, exact: bool) -> Harness {
    let g = Gen::new(n, levels, |_| true);
    let pts = if exact { dyadic(n, npts) } else { points(n, 3)[..npts].to_vec() };
    Harness {
        name,
        bound: format!("{}; {} points, {} directions, all signs of ties, {} choices of outputs, 4 following Jacobians", g.bound(), npts, ndx, outs),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let ok = ex.choose(outs);
            let x = ex.pick(&pts);
            let f = ProgFn { n, outs: outputs(&p, n, ok), nodes: p };
            let Some(md) = Model::of(&f, &x, exact) else {
                ex.skip();
                return Ok(());
            };
            let dx = ex.pick(&directions(n, &x, ndx));
            let Some((_, ties)) = signs(&md, &dx, &[]) else {
                ex.skip();
                return Ok(());
            };
            ex.note(|| format!("{} at {:?} direction {:?}: {} ties", show(&f.nodes, n), x, dx, ties));
            ex.state(&(&f.nodes, ok, tapes_bits(&x), tapes_bits(&dx)));
            let (xv, dv) = (DVector::from_vec(x.clone()), DVector::from_vec(dx.clone()));
            let fail = |b: &[u8], e: String| Err(format!("[{}] outputs {:?} at {:?} direction {:?} sign bytes {:?}: {}", show(&f.nodes, n), f.outs, x, dx, b, e));
            let (_, want, _, ey) = md.increments(&dx);
            for b in byte_lists(ties) {
                ex.step();
                let got = generalized_jacobian(&f, &xv, &dv, &b, None);
                // an element of the model
                let inc = &got.homogenous * &dv + &got.inhomogenous;
                let (eg, eh) = md.jacobian_err();
                let tol: Vec<f64> = (0..md.m).map(|i| ey[i] + eh[i] + (0..n).map(|j| eg[(i, j)] * dx[j].abs()).sum::<f64>()).collect();
                if let Err(e) = cmp_vec("G*dx+g", inc.as_slice(), &want, &tol) {
                    return fail(&b, e);
                }
                if md.explicit {
                    let (sg, t) = signs(&md, &dx, &b).unwrap();
                    if let Err(e) = check_gj("Jacobian", &got, &md, &sg, t, None) {
                        return fail(&b, e);
                    }
                } else {
                    // the orientation of a difference inside max is not determined: any choice of signs
                    let mut last = Ok(());
                    let found = (0..1u32 << ties).any(|c| {
                        let (sg, t) = signs(&md, &dx, &[c as u8]).unwrap();
                        last = check_gj("Jacobian", &got, &md, &sg, t, None);
                        last.is_ok()
                    });
                    if !found {
                        return fail(&b, format!("not a limiting Jacobian of the model; for one choice of signs {}", last.unwrap_err()));
                    }
                }
            }
            // with a following function
            if md.explicit {
                let nx = ex.pick(&followers(md.m));
                let b = [0x5au8];
                let (sg, t) = signs(&md, &dx, &b).unwrap();
                let mut rec = f.tape(&DVector::from_element(n, 0.75));
                rec.zero_order(&xv);
                let replayed = generalized_jacobian_tape(rec, &dv, &b, nx.clone());
                let got = generalized_jacobian_tape(f.tape(&xv), &dv, &b, nx.clone());
                if format!("{:?}", replayed) != format!("{:?}", got) {
                    return fail(&b, format!("a recording replayed here gives {:?}, one made here {:?} (follower {:?})", replayed, got, nx));
                }
                ex.step();
                ex.outcome(&format!("{:?}", got));
                if let Err(e) = check_gj("with a following Jacobian", &got, &md, &sg, t, nx.as_ref()) {
                    return fail(&b, format!("{} (follower {:?})", e, nx));
                }
            }
            Ok(())
        }),
    }
}

fn tapes_bits(x: &[f64]) -> Vec<u64> {
    x.iter().map(|v| v.to_bits()).collect()
}

fn gj_shapes(thorough: bool) -> Harness {
    let sh: Vec<_> = shapes(thorough).into_iter().filter(|s| s.1 <= 70 || thorough).collect();
    Harness {
        name: "shapes",
        bound: format!("piecewise linear functions with {} shapes, 6 coefficient patterns, 3 points, 5 directions, sign byte lists of several lengths, 4 following Jacobians; exact arithmetic", sh.len()),
        units: sh.len() * 6,
        run: Box::new(move |ex, u| {
            let (n, s, m) = sh[sh.len() - 1 - u / 6];
            let f = Fam::new(n, s, m, u % 6);
            let x = f.x0(ex.choose(3));
            let md = f.model(&x);
            let dx = ex.pick(&f.dxs(&x));
            let (z, dy, _, _) = md.increments(&dx);
            // growth beyond exact arithmetic is not a matter of this property
            if !z.iter().chain(&dy).all(|v| v.abs() < 1e9) {
                ex.skip();
                return Ok(());
            }
            let ties = z.iter().filter(|z| **z == 0.0).count();
            if ties > 8 {
                ex.count("executions with more than eight ties");
            }
            let nx = ex.pick(&followers(m));
            let lists = byte_lists(ties);
            let lists = if n + s + m > 60 { lists[lists.len().saturating_sub(3)..].to_vec() } else { lists };
            ex.note(|| format!("{} inputs, {} switching variables, {} outputs at {:?} direction {:?}: {} ties", n, s, m, x, dx, ties));
            ex.state(&(n, s, m, f.kind, tapes_bits(&x), tapes_bits(&dx)));
            for b in lists {
                let (sg, t) = signs(&md, &dx, &b).unwrap();
                let (gm, gv) = md.jacobian(&sg);
                if !gm.iter().chain(gv.iter()).all(|v| v.abs() < 1e9) {
                    ex.skip();
                    continue;
                }
                ex.step();
                let got = generalized_jacobian(&f, &DVector::from_vec(x.clone()), &DVector::from_vec(dx.clone()), &b, nx.clone());
                ex.outcome(&format!("{:?}", got));
                check_gj("Jacobian", &got, &md, &sg, t, nx.as_ref())
                    .map_err(|e| format!("pattern {} with n={} s={} m={} at {:?} direction {:?} sign bytes {:?} follower {:?}: {}", f.kind, n, s, m, x, dx, b, nx, e))?;
            }
            Ok(())
        }),
    }
}

/// Every switching variable vanishes
fn many_ties(thorough: bool) -> Harness {
    let mut ss = vec![7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300];
    if thorough {
        ss.extend([511, 512, 513, 1000]);
    }
    Harness {
        name: "many_ties",
        bound: format!("{:?} ties at once, one after the other, independent, mixed or as a tree, 1 or 2 inputs, sign byte lists of several lengths, 2 following Jacobians; exact arithmetic", ss),
        units: ss.len() * 8,
        run: Box::new(move |ex, u| {
            let s = ss[ss.len() - 1 - u / 8];
            let f = Fam::new(1 + u % 2, s, 2, [6, 8, 9, 10][u / 2 % 4]);
            let x = vec![0.0; f.n];
            let md = f.model(&x);
            let lists = byte_lists(s);
            let lists = if s > 100 { lists[..if thorough { 8 } else { 4 }].to_vec() } else { lists };
            let b = ex.pick(&lists);
            let nx = followers(2)[ex.choose(2)].clone();
            ex.note(|| format!("{} ties", s));
            ex.state(&(s, f.n, f.kind));
            ex.step();
            let (sg, t) = signs(&md, &x, &b).unwrap();
            assert_eq!(s, t);
            let got = generalized_jacobian(&f, &DVector::from_vec(x.clone()), &DVector::from_vec(x.clone()), &b, nx.clone());
            ex.outcome(&format!("{:?}", got));
            check_gj("Jacobian", &got, &md, &sg, t, nx.as_ref()).map_err(|e| format!("{} ties, {} inputs, pattern {}, sign bytes {:?} follower {:?}: {}", s, f.n, f.kind, b, nx, e))
        }),
    }
}

/// Points and directions next to the ends of the range
fn scales(thorough: bool) -> Harness {
    let exps: Vec<i32> = if thorough { (-1074..=1000).step_by(17).collect() } else { vec![-1074, -1073, -1060, -1023, -1022, -500, 0, 30, 500, 1000] };
    let ss: &[usize] = if thorough { &[1, 2, 3, 4, 5] } else { &[1, 2, 3] };
    Harness {
        name: "scales",
        bound: format!("homogeneous piecewise linear functions of 1 or 2 inputs and {:?} switching variables, 3 patterns of dependence; points from {{-1, 0, 1}} and directions from {{-2, -1, 0, 1}} times powers of two from 2^-1074 to 2^1000 ({} of them), near one with coefficients of 7 scales too; exact arithmetic", ss, exps.len()),
        units: exps.len() * ss.len() * 6,
        run: Box::new(move |ex, u| {
            let n = 1 + u % 2;
            let mut f = Fam::new(n, ss[u / 6 % ss.len()], 2, [6, 8, 9][u / 2 % 3]);
            let e = exps[u / (6 * ss.len())];
            // in two steps, the factor itself may be below the normal range
            let scale = |v: f64| if e < -1000 { v * 2f64.powi(-1000) * 2f64.powi(e + 1000) } else { v * 2f64.powi(e) };
            let x: Vec<f64> = (0..n).map(|_| scale([0.0, 1.0, -1.0][ex.choose(3)])).collect();
            let dx: Vec<f64> = (0..n).map(|_| scale([1.0, 0.0, -1.0, -2.0][ex.choose(4)])).collect();
            // and the coefficients of all switching variables or all outputs
            if (-60..=60).contains(&e) {
                let (a, b) = ex.pick(&[(0, 0), (-60, 0), (0, -60), (-60, 60), (-300, 0), (-300, -300), (300, -600)]);
                f.ex = [a, 0, a + b, b];
            }
            let md = f.model(&x);
            let (_, t) = signs(&md, &dx, &[]).unwrap();
            ex.state(&(u, f.ex, tapes_bits(&x), tapes_bits(&dx)));
            for b in 0..1u8 << t {
                ex.step();
                let (sg, t) = signs(&md, &dx, &[b]).unwrap();
                let got = generalized_jacobian(&f, &DVector::from_vec(x.clone()), &DVector::from_vec(dx.clone()), &[b], None);
                ex.outcome(&format!("{:?}", got));
                check_gj("Jacobian", &got, &md, &sg, t, None).map_err(|e| format!("{} switching variables, {} inputs, pattern {}, exponents {:?}, at {:e} direction {:e}, sign byte {}: {}", f.s, n, f.kind, f.ex, DVector::from_vec(x.clone()).transpose(), DVector::from_vec(dx.clone()).transpose(), b, e))?;
            }
            ex.note(|| format!("at {:?} direction {:?}", x, dx));
            Ok(())
        }),
    }
}

pub fn c09(t: bool) -> Check {
    let mut hs = vec![
        gj_programs("exact1", 2, &[4], 9, 9, 4, true),
        gj_programs("exact2", 2, &[3, 3], 4, 5, 5, true),
        gj_programs("exact3", 2, &[3, 3, 3], 2, 2, 1, true),
        gj_programs("one_input", 1, &[3, 3, 3], 4, 4, 2, true),
        gj_programs("three_inputs", 3, &[3, 3], 2, 3, 2, true),
        gj_programs("smooth1", 2, &[2], 5, 4, 2, false),
        gj_programs("smooth2", 2, &[0, 0], 3, 3, 1, false),
        gj_shapes(t),
        many_ties(t),
        scales(t),
        kinks("kinks", Which::Gj, false, 5),
        shared("shared", Which::Gj, if t { 6 } else { 5 }),
        kinks("kinks_2", Which::Gj, true, if t { 5 } else { 3 }),
    ];
    if t {
        hs.extend([
            gj_programs("exact22", 2, &[4, 4], 4, 4, 2, true),
            gj_programs("exact4", 1, &[3, 3, 3, 3], 3, 3, 1, true),
            gj_programs("exact3all", 2, &[3, 3, 3], 4, 4, 2, true),
            gj_programs("smooth2w", 2, &[1, 1], 3, 3, 1, false),
            gj_programs("smooth3", 1, &[0, 0, 0], 3, 3, 1, false),
        ]);
    }
    Check { property: "C09", harnesses: hs, assumptions: vec!["with max, min and positive difference a tie may be resolved either way, since the orientation of the difference is not part of the property".into()] }
}

// ---------------------------------------------------------------------------------------------
// C11

/// Members of chains: programs on two values or changes of dimension; small integers stay exact
fn members() -> Vec<ProgFn> {
    use Bin::*;
    let p = |n: usize, nodes: Vec<Node>, outs: Vec<usize>| ProgFn { n, nodes, outs: outs.into_iter().map(Out::Val).collect() };
    vec![
        // (|x - y|, x)
        p(2, vec![Node::Bin(Sub, 0, 1), Node::Un(Un::Abs, 2)], vec![3, 0]),
        // (y, ||x| - y|)
        p(2, vec![Node::Un(Un::Abs, 0), Node::Bin(Sub, 2, 1), Node::Un(Un::Abs, 3)], vec![1, 4]),
        // (1 - x, x + y)
        p(2, vec![Node::FBin(Sub, 1.0, 0), Node::Bin(Add, 0, 1)], vec![2, 3]),
        // (x * y, y)
        p(2, vec![Node::Bin(Mul, 0, 1)], vec![2, 1]),
        // (max(x, y), min(x, y))
        p(2, vec![Node::Bin(Max, 0, 1), Node::Bin(Min, 0, 1)], vec![2, 3]),
        // (2, |y|)
        ProgFn { n: 2, nodes: vec![Node::Un(Un::Abs, 1)], outs: vec![Out::Konst(2.0), Out::Val(2)] },
        // x + |y|
        p(2, vec![Node::Un(Un::Abs, 1), Node::Bin(Add, 0, 2)], vec![3]),
        // (|x|, x, -x)
        p(1, vec![Node::Un(Un::Abs, 0), Node::Un(Un::Neg, 0)], vec![1, 0, 2]),
        // (x, |y - z|)
        p(3, vec![Node::Bin(Sub, 1, 2), Node::Un(Un::Abs, 3)], vec![0, 4]),
        // nothing, but |x|
        p(2, vec![Node::Un(Un::Abs, 0)], vec![]),
        // constants out of nothing
        ProgFn { n: 0, nodes: vec![], outs: vec![Out::Konst(1.0), Out::Konst(-2.0)] },
        p(0, vec![], vec![]),
    ]
}

/// scaling the inputs by a power of two scales the outputs
fn homogeneous(f: &ProgFn) -> bool {
    f.outs.iter().all(|o| matches!(o, Out::Val(_))) && f.nodes.iter().all(|n| matches!(n, Node::Un(Un::Abs | Un::Neg, _) | Node::Bin(Bin::Add | Bin::Sub | Bin::Max | Bin::Min, ..)))
}

/// Reference: members one after the other; every tie negative
fn chain_ref(fs: &[ProgFn], x: &[f64], dx: &[f64]) -> Option<(GeneralizedJacobian, bool)> {
    let mut g: Option<GeneralizedJacobian> = None;
    let mut x = x.to_vec();
    let mut dx = dx.to_vec();
    let mut determined = true;
    for f in fs {
        let md = Model::of(f, &x, true)?;
        let (sg, t) = signs(&md, &dx, &[])?;
        if t > 0 && !md.explicit {
            determined = false;
        }
        let (gm, gv) = md.jacobian(&sg);
        let gv = DVector::from_vec(gv);
        let (_, dy, _, _) = md.increments(&dx);
        g = Some(match g {
            None => GeneralizedJacobian { homogenous: gm, inhomogenous: gv, multiplicity: t },
            Some(p) => GeneralizedJacobian { inhomogenous: &gm * p.inhomogenous + gv, homogenous: gm * p.homogenous, multiplicity: p.multiplicity + t },
        });
        x = md.y0.clone();
        dx = dy;
        let gg = g.as_ref().unwrap();
        if !x.iter().chain(&dx).chain(gg.homogenous.iter()).chain(gg.inhomogenous.iter()).all(|v| v.abs() < 1e7) {
            return None;
        }
    }
    g.map(|g| (g, determined))
}

fn mk_chain(fs: &[ProgFn], shape: usize) -> FunctionChain {
    let flat = |fs: &[ProgFn]| {
        let mut c = FunctionChain::new(fs[0].clone());
        for f in &fs[1..] {
            c.append(f.clone());
        }
        c
    };
    match shape {
        0 => flat(fs),
        1 => {
            // ((f0 f1 ..) f_last)
            let k = fs.len() - 1;
            if k == 0 {
                return FunctionChain::new(flat(fs));
            }
            let mut c = FunctionChain::new(flat(&fs[..k]));
            c.append(fs[k].clone());
            c
        }
        _ => {
            // (f0 (f1 ..))
            let mut c = FunctionChain::new(fs[0].clone());
            if fs.len() > 1 {
                c.append(flat(&fs[1..]));
            }
            c
        }
    }
}

fn check_chain(ex: &mut Ex, fs: &[ProgFn], shape: usize, x: &[f64], dx: &[f64], budgets: &[Option<usize>]) -> Res {
    let Some((want, determined)) = chain_ref(fs, x, dx) else {
        ex.skip();
        return Ok(());
    };
    let c = mk_chain(fs, shape);
    let (xv, dv) = (DVector::from_vec(x.to_vec()), DVector::from_vec(dx.to_vec()));
    ex.outcome(&format!("{:?}", want));
    let mut direct = generalized_jacobian(&c, &xv, &dv, &[0], None);
    if fs.iter().any(|f| f.outs.iter().any(|o| matches!(o, Out::Konst(_)))) {
        // the absolute value of a constant is a switching variable of a member only
        direct.multiplicity = want.multiplicity;
    }
    let inc = &want.homogenous * &dv + &want.inhomogenous;
    for (who, g) in std::iter::once((String::from("as one function"), direct))
        .chain(budgets.iter().map(|b| (format!("with checkpoint budget {:?}", b), generalized_jacobian_chain(&c, xv.clone(), dv.clone(), *b))))
    {
        ex.step();
        if determined && g != want {
            return Err(format!("Jacobian {}: {:?} instead of {:?}", who, g, want));
        }
        let i2 = &g.homogenous * &dv + &g.inhomogenous;
        if i2 != inc || g.multiplicity != want.multiplicity {
            return Err(format!("Jacobian {}: increment {:?} multiplicity {} instead of {:?} and {}", who, i2.as_slice(), g.multiplicity, inc.as_slice(), want.multiplicity));
        }
    }
    Ok(())
}

fn chains(name: &'static str, max: usize, npts: usize, ndx: usize, bmax: usize) -> Harness {
    let ms = members();
    Harness {
        name,
        bound: format!("all chains of 1 to {} members from a set of {} (with changes of dimension), flat and nested, {} points, {} directions, checkpoint budgets 2 to {}, the default and 1000; exact arithmetic", max, ms.len(), npts, ndx, bmax),
        units: ms.len(),
        run: Box::new(move |ex, u| {
            let mut fs = vec![ms[u].clone()];
            let len = 1 + ex.choose(max);
            while fs.len() < len {
                let m = fs[fs.len() - 1].outs.len();
                let opts: Vec<&ProgFn> = ms.iter().filter(|f| f.n == m).collect();
                let k = ex.choose(opts.len());
                fs.push(opts[k].clone());
            }
            // chains without additive constants also on tiny inputs
            let sc = if fs.iter().all(homogeneous) { 2f64.powi(ex.pick(&[0, -60, -300])) } else { 1.0 };
            let x = ex.pick(&dyadic(fs[0].n, npts).iter().map(|p| p.iter().map(|v| 4.0 * v).collect::<Vec<f64>>()).collect::<Vec<_>>());
            let dx: Vec<f64> = ex.pick(&directions(fs[0].n, &x, ndx)).iter().map(|v| sc * v).collect();
            let x: Vec<f64> = x.iter().map(|v| sc * v).collect();
            let shape = ex.choose(if fs.len() > 1 { 3 } else { 2 });
            ex.note(|| format!("{} members at {:?} direction {:?}, nesting {}", fs.len(), x, dx, shape));
            ex.state(&(fs.iter().map(|f| f.nodes.clone()).collect::<Vec<_>>(), tapes_bits(&x), tapes_bits(&dx)));
            let b: Vec<Option<usize>> = (2..=bmax).map(Some).chain([None, Some(1000)]).collect();
            check_chain(ex, &fs, shape, &x, &dx, &b)
                .map_err(|e| format!("chain [{}] nesting {} at {:?} direction {:?}: {}", fs.iter().map(|f| show(&f.nodes, f.n)).collect::<Vec<_>>().join(" | "), shape, x, dx, e))
        }),
    }
}

fn long_chains(thorough: bool) -> Harness {
    let lens: Vec<usize> = if thorough { (5..=130).collect() } else { vec![7, 8, 9, 12, 16, 17, 25, 32, 33, 40, 64, 65, 100, 130] };
    Harness {
        name: "long",
        bound: format!("chains of {:?} members in 7 patterns, 3 points, 3 directions, budgets 2..12, 20, 50, one less than, equal to and more than the length", lens),
        units: lens.len() * 7,
        run: Box::new(move |ex, u| {
            let len = lens[lens.len() - 1 - u / 7];
            let pat = u % 7;
            use Bin::*;
            let p = |nodes: Vec<Node>, outs: Vec<usize>| ProgFn { n: 2, nodes, outs: outs.into_iter().map(Out::Val).collect() };
            // members that do not grow
            let ms = [
                p(vec![Node::Un(Un::Abs, 0)], vec![1, 2]),
                p(vec![Node::FBin(Sub, 1.0, 0), Node::Un(Un::Neg, 1)], vec![2, 3]),
                p(vec![Node::Bin(Sub, 0, 1), Node::Un(Un::Abs, 2), Node::BinF(Mul, 3, 0.5)], vec![4, 1]),
                p(vec![Node::BinF(Add, 0, -1.0), Node::Un(Un::Abs, 2), Node::Un(Un::Abs, 1)], vec![3, 4]),
                p(vec![Node::Un(Un::Abs, 0), Node::Un(Un::Abs, 1)], vec![3, 2]),
            ];
            let fs: Vec<ProgFn> = (0..len)
                .map(|i| {
                    let k = match pat {
                        0 => 0,
                        1 => i % 2,
                        2 => 3 - 2 * (i % 2),
                        3 => (i / 2) % 2,
                        4 => if i % 13 == 5 { 2 } else { (i * 5) % 2 },
                        5 => if i % 3 == 0 { 3 } else { 1 },
                        // two ties each where everything vanishes
                        _ => 4,
                    };
                    ms[k].clone()
                })
                .collect();
            let x = ex.pick(&[vec![1.0, -2.0], vec![0.0, 3.0], vec![0.0, 0.0]]);
            let dx = ex.pick(&[vec![0.0, 0.0], vec![-1.0, 2.0], vec![4.0, -0.5]]);
            ex.note(|| format!("{} members, pattern {}", len, pat));
            ex.state(&(len, pat, tapes_bits(&x), tapes_bits(&dx)));
            let mut b: Vec<usize> = (2..12).collect();
            b.extend([20, 50, len - 1, len, len + 1, 2 * len]);
            let b: Vec<Option<usize>> = b.into_iter().map(Some).chain([None]).collect();
            check_chain(ex, &fs, 0, &x, &dx, &b).map_err(|e| format!("{} members, pattern {} at {:?} direction {:?}: {}", len, pat, x, dx, e))
        }),
    }
}

pub fn c11(t: bool) -> Check {
    let mut hs = vec![chains("short", 3, 4, 4, 5), long_chains(t)];
    if t {
        hs.push(chains("medium", 5, 3, 3, 7));
    } else {
        hs.push(chains("medium", 4, 1, 3, 6));
    }
    Check { property: "C11", harnesses: hs, assumptions: vec!["members are exact in floating point; when a tie occurs inside max or min only increment and multiplicity are compared".into()] }
}
