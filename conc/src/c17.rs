//! C17 parallel drivers give the same result under every schedule
use crate::rt::*;
use crate::{Check, Group};
use advantage::drivers::{
    abs_normal, generalized_jacobian, generalized_jacobian_chain, generalized_jacobian_tape, jacobian_forward, jacobian_reverse, AbsNormalJ, AbsNormalL, AbsNormalTape, AbsNormalY,
    AbsNormalZ,
};
use advantage::{adv_fn, AContext, ADouble, DMatrix, DVector, Float, Function, FunctionChain, SimpleFunction, Tape};
use std::sync::Arc;

/// y_i = sum_j (1+i+2j) x_j + x_i x_(i+1), exact at small integers
fn quad(n: usize, m: usize) -> impl Function {
    SimpleFunction::new(n, m, move |x: DVector<ADouble>| {
        DVector::from_fn(m, |i, _| {
            let mut y = x[i % n] * x[(i + 1) % n];
            for j in 0..n {
                y += x[j] * ((1 + i + 2 * j) as f64);
            }
            y
        })
    })
}
fn quad_j(n: usize, m: usize, x: &DVector<f64>) -> DMatrix<f64> {
    let mut r = DMatrix::from_fn(m, n, |i, j| (1 + i + 2 * j) as f64);
    for i in 0..m {
        r[(i, i % n)] += x[(i + 1) % n];
        r[(i, (i + 1) % n)] += x[i % n];
    }
    r
}

/// piecewise linear with s absolute values, each depending on the one before
fn pl(n: usize, m: usize, s: usize) -> impl Function {
    SimpleFunction::new(n, m, move |x: DVector<ADouble>| {
        let mut z: Vec<ADouble> = vec![];
        for k in 0..s {
            let mut u = x[k % n] * 2.0 - x[(k + 1) % n];
            if let Some(l) = z.last() {
                u -= *l;
            }
            z.push(Float::abs(u));
        }
        DVector::from_fn(m, |i, _| {
            let mut y = x[i % n] * (1.0 + i as f64);
            for (k, z) in z.iter().enumerate() {
                y += *z * ((i + k + 1) as f64);
            }
            y
        })
    })
}

adv_fn! {
    fn inner(x: [[2]]) -> [[2]] {
        let u = x[0] * x[1];
        DVector::from_vec(vec![u + x[0], u * u])
    }
}

/// records a tape of its own each time it is evaluated, and lets a driver run on it if asked
fn recording(n: usize, drive: bool) -> impl Function {
    SimpleFunction::new(n, 2, move |x: DVector<ADouble>| {
        let v = x[0].value();
        let mut c = AContext::new();
        let a: ADouble = c.new_indep(v);
        let b: ADouble = c.new_indep(2.0);
        let y = inner(DVector::from_vec(vec![a, b]));
        c.set_dep_slice(y.as_slice());
        let t = c.tape();
        let k = if drive {
            let j = jacobian_reverse(&t);
            j[(0, 0)] + j[(1, 1)]
        } else {
            t.first_order_reverse(&DVector::from_vec(vec![1.0, 1.0]))[0]
        };
        let mut s = x[0] * x[n - 1];
        for i in 0..n {
            s += x[i] * (i as f64);
        }
        DVector::from_vec(vec![s * k, s])
    })
}

fn point(n: usize) -> DVector<f64> {
    DVector::from_fn(n, |i, _| [3.0, -1.0, 2.0, 5.0, -4.0, 1.0][i % 6])
}
fn dir(n: usize) -> DVector<f64> {
    DVector::from_fn(n, |i, _| [1.0, 2.0, -3.0, 0.0, 1.0, -1.0][i % 6])
}

type Body = Box<dyn Fn() -> Vec<DMatrix<f64>> + Send + Sync>;

fn col(v: DVector<f64>) -> DMatrix<f64> {
    DMatrix::from_column_slice(v.nrows(), 1, v.as_slice())
}

fn same(a: &[DMatrix<f64>], b: &[DMatrix<f64>]) -> bool {
    a.len() == b.len()
        && a.iter()
            .zip(b)
            .all(|(a, b)| a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(a, b)| a == b || (a.is_nan() && b.is_nan())))
}

/// all bodies at once, one thread each, several times over
fn scenario(group: &'static str, name: String, pool: usize, bound: i32, limit: i64, times: usize, bodies: Vec<Body>) -> Scenario {
    // without the scheduler the drivers run everything in place
    let want: Vec<Vec<DMatrix<f64>>> = bodies.iter().map(|b| b()).collect();
    expecting(group, name, pool, bound, limit, times, bodies, want)
}
#[allow(clippy::too_many_arguments)]
fn expecting(group: &'static str, name: String, pool: usize, bound: i32, limit: i64, times: usize, bodies: Vec<Body>, want: Vec<Vec<DMatrix<f64>>>) -> Scenario {
    Scenario {
        group,
        name: format!("{}, {} workers", name, pool),
        pool,
        bound,
        delays: -1,
        limit,
        body: Box::new(move || {
            let fs: Vec<Box<dyn FnOnce() -> Vec<Vec<DMatrix<f64>>> + '_>> = bodies
                .iter()
                .map(|b| Box::new(move || (0..times).map(|_| b()).collect::<Vec<_>>()) as Box<dyn FnOnce() -> _>)
                .collect();
            let rs = par(fs)?;
            for (i, (r, w)) in rs.iter().zip(&want).enumerate() {
                for (k, r) in r.iter().enumerate() {
                    if !same(r, w) {
                        return Err(format!("call {} of thread {} gives {} instead of {}", k, i, show(r), show(w)));
                    }
                }
            }
            Ok(0)
        }),
    }
}
fn show(m: &[DMatrix<f64>]) -> String {
    m.iter().map(|m| format!("{}x{} {:?}", m.nrows(), m.ncols(), m.as_slice())).collect::<Vec<_>>().join("; ")
}

/// the entries all drivers give for inner functions of 2 arguments, weighted differently
fn driven(k: usize, x: &DVector<f64>) -> f64 {
    let all: Vec<DMatrix<f64>> = match k {
        0 => vec![jacobian_forward(&quad(2, 2), x)],
        1 => vec![jacobian_reverse(&*quad(2, 2).tape(x))],
        2 => {
            let a = abs_normal(&pl(2, 1, 1), x);
            vec![col(a.a), a.zmat, a.lmat, col(a.b), a.jmat, a.ymat]
        }
        3 => {
            let g = generalized_jacobian(&pl(2, 1, 1), x, &dir(2), &[], None);
            vec![g.homogenous, col(g.inhomogenous)]
        }
        4 => vec![jacobian_forward(&nest(0), x)],
        _ => {
            let g = generalized_jacobian_chain(&FunctionChain::new(quad(2, 2)), x.clone(), dir(2), None);
            vec![g.homogenous]
        }
    };
    let mut s = 0.0;
    for (i, e) in all.iter().flat_map(|m| m.iter()).enumerate() {
        s += e * (i + 1) as f64;
    }
    s
}
/// a function whose coefficients are results of driver k at the same point
fn nest(k: usize) -> impl Function {
    SimpleFunction::new(2, 2, move |x: DVector<ADouble>| {
        let c = driven(k, &x.map(|x| x.value()));
        let s = x[0] + x[1] * 3.0;
        DVector::from_vec(vec![s * c, s * (c + 1.0)])
    })
}
/// driver k inside of an outer driver: what is computed inside does not depend on what surrounds it
fn nested(outer: usize, k: usize) -> (Body, Vec<DMatrix<f64>>) {
    let x = point(2);
    let c = driven(k, &x);
    let j = DMatrix::from_row_slice(2, 2, &[c, 3.0 * c, c + 1.0, 3.0 * (c + 1.0)]);
    let body: Body = match outer {
        0 => Box::new(move || vec![jacobian_forward(&nest(k), &x)]),
        1 => Box::new(move || vec![jacobian_reverse(&*nest(k).tape(&x))]),
        2 => Box::new(move || vec![abs_normal(&nest(k), &x).jmat]),
        _ => Box::new(move || vec![generalized_jacobian_chain(&FunctionChain::new(nest(k)), x.clone(), dir(2), None).homogenous]),
    };
    (body, vec![j])
}

/// each output depends on a few inputs, nothing is exact: only the same computation gives the same bits
fn sparse(n: usize, m: usize, s: usize) -> impl Function {
    SimpleFunction::new(n, m, move |x: DVector<ADouble>| {
        let mut z: Vec<ADouble> = vec![];
        for k in 0..s {
            let mut u = x[k % n] * 0.3 - x[(3 * k + 1) % n] * 1.7;
            if k > 0 {
                u -= z[k / 2] * 0.1;
            }
            z.push(Float::abs(u));
        }
        DVector::from_fn(m, |i, _| {
            let a = x[i % n];
            let mut y = Float::sin(a * 0.7 + (i as f64)) * x[(i + i / n + 1) % n] * (1.1 + i as f64);
            if s > 0 {
                y += z[i % s] * (0.1 + i as f64) + z[(i + 1) % s];
            }
            y
        })
    })
}
fn far(n: usize) -> DVector<f64> {
    DVector::from_fn(n, |i, _| 0.1 + (i * 7 % 11) as f64 * 0.37 - (i % 3) as f64)
}
/// larger matrices: everything one driver computes
fn large(k: usize, n: usize, m: usize, s: usize) -> Body {
    let f = sparse(n, m, if k < 2 { 0 } else { s });
    let x = far(n);
    Box::new(move || match k {
        0 => vec![jacobian_forward(&f, &x)],
        1 => vec![jacobian_reverse(&*f.tape(&x))],
        2 => {
            let a = abs_normal(&f, &x);
            vec![col(a.a), a.zmat, a.lmat, col(a.b), a.jmat, a.ymat]
        }
        3 | 4 => {
            let t = AbsNormalTape::new(f.tape(&x));
            let (z, l, j, y) = (AbsNormalZ::new(&t), AbsNormalL::new(&t), AbsNormalJ::new(&t), AbsNormalY::new(&t));
            let w = n.max(m).max(s) + 1;
            let mat = |r: usize, c: usize| DMatrix::from_fn(r, c, |i, j| 0.1 * (1 + i * 2) as f64 - 0.7 * (j * 3) as f64);
            if k == 3 {
                vec![z.mul_right(&mat(n, w)), l.mul_right(&mat(s, w)), j.mul_right(&mat(n, w)), y.mul_right(&mat(s, w))]
            } else {
                vec![z.mul_left(&mat(w, s)), l.mul_left(&mat(w, s)), j.mul_left(&mat(w, m)), y.mul_left(&mat(w, m))]
            }
        }
        5 => {
            let g = generalized_jacobian(&f, &x, &x.map(|v| 1.0 - v), &[0b101], None);
            vec![g.homogenous, col(g.inhomogenous), DMatrix::from_element(1, 1, g.multiplicity as f64)]
        }
        _ => {
            let mut c = FunctionChain::new(sparse(n, n, s));
            c.append(sparse(n, m, s));
            let g = generalized_jacobian_chain(&c, x.clone(), x.map(|v| 1.0 - v), Some(2));
            vec![g.homogenous, col(g.inhomogenous), DMatrix::from_element(1, 1, g.multiplicity as f64)]
        }
    })
}

fn fwd(n: usize, m: usize) -> Body {
    let f = quad(n, m);
    let x = point(n);
    let w = quad_j(n, m, &x);
    Box::new(move || {
        let j = jacobian_forward(&f, &x);
        vec![j.clone(), j - &w]
    })
}
fn rev(n: usize, m: usize) -> Body {
    let x = point(n);
    let w = quad_j(n, m, &x);
    let f = quad(n, m);
    Box::new(move || {
        let t = f.tape(&x);
        let j = jacobian_reverse(&*t);
        vec![j.clone(), j - &w]
    })
}
fn anf(n: usize, m: usize, s: usize) -> Body {
    let f = pl(n, m, s);
    let x = point(n);
    Box::new(move || {
        let a = abs_normal(&f, &x);
        vec![col(a.a), a.zmat, a.lmat, col(a.b), a.jmat, a.ymat]
    })
}
fn operators(n: usize, m: usize, s: usize, k: usize) -> Body {
    let f = pl(n, m, s);
    let x = point(n);
    Box::new(move || {
        let t = AbsNormalTape::new(f.tape(&x));
        let z = AbsNormalZ::new(&t);
        let l = AbsNormalL::new(&t);
        let j = AbsNormalJ::new(&t);
        let y = AbsNormalY::new(&t);
        let mat = |r: usize, c: usize| DMatrix::from_fn(r, c, |i, j| (1 + i * 2) as f64 - (j * 3) as f64);
        match k {
            0 => vec![z.mul_right(&mat(n, 3))],
            1 => vec![l.mul_left(&mat(3, s))],
            2 => vec![j.mul_left(&mat(3, m))],
            3 => vec![y.mul_right(&mat(s, 3))],
            _ => vec![z.row(0), l.column(0), j.column(n - 1), y.row(m - 1)],
        }
    })
}
fn gen(n: usize, m: usize, s: usize) -> Body {
    let f = pl(n, m, s);
    let (x, d) = (point(n), dir(n));
    Box::new(move || {
        let g = generalized_jacobian(&f, &x, &d, &[0b10], None);
        vec![g.homogenous, col(g.inhomogenous), DMatrix::from_element(1, 1, g.multiplicity as f64)]
    })
}
fn chain(n: usize, len: usize, k: Option<usize>) -> Body {
    let mut c = FunctionChain::new(pl(n, n, 1));
    for i in 1..len {
        if i % 2 == 1 {
            c.append(quad(n, n));
        } else {
            c.append(pl(n, n, 2));
        }
    }
    let (x, d) = (point(n), dir(n));
    Box::new(move || {
        let g = generalized_jacobian_chain(&c, x.clone(), d.clone(), k);
        vec![g.homogenous, col(g.inhomogenous), DMatrix::from_element(1, 1, g.multiplicity as f64)]
    })
}
fn rec(n: usize, drive: bool) -> Body {
    let f = recording(n, drive);
    let x = point(n);
    Box::new(move || vec![jacobian_forward(&f, &x)])
}
/// another driver on the recording function
fn rec_tape(n: usize) -> Body {
    let f = recording(n, false);
    let x = point(n);
    Box::new(move || {
        let t = f.tape(&x);
        let d = dir(n);
        let j = jacobian_reverse(&*t);
        let g = generalized_jacobian_tape(t, &d, &[], None);
        vec![j, g.homogenous]
    })
}

/// the same function and tape in several threads
fn together(k: usize, n: usize, m: usize) -> Vec<Body> {
    let f = Arc::new(quad(2, m));
    let x = point(2);
    let t: Arc<dyn Tape + Send + Sync> = match k {
        0 | 1 => {
            let mut c = AContext::new();
            let v: Vec<ADouble> = (0..2).map(|i| c.new_indep(x[i])).collect();
            let y = f.eval(DVector::from_vec(v));
            c.set_dep_slice(y.as_slice());
            let t = c.tape();
            Arc::new(Shared(Box::new(t)))
        }
        _ => Arc::new(Shared(pl(2, 2, 2).tape(&x))),
    };
    let a = Arc::new(AbsNormalTape::new(pl(2, 2, 2).tape(&x)));
    (0..n)
        .map(|i| {
            let (f, t, a, x) = (f.clone(), t.clone(), SendTape(a.clone()), x.clone());
            Box::new(move || match (k, i) {
                (0, _) => vec![jacobian_reverse(&*t)],
                (1, 0) => vec![jacobian_forward(&*f, &x)],
                (1, _) => vec![jacobian_reverse(&*t)],
                (2, 0) => vec![AbsNormalZ::new(a.get()).mul_right(&DMatrix::identity(2, 2))],
                (2, _) => vec![AbsNormalJ::new(a.get()).mul_left(&DMatrix::identity(2, 2))],
                (3, 0) => vec![AbsNormalL::new(a.get()).mul_left(&DMatrix::from_element(1, 2, 1.0))],
                _ => vec![AbsNormalY::new(a.get()).mul_left(&DMatrix::identity(2, 2))],
            }) as Body
        })
        .collect()
}
/// tapes are shared by reference between threads that only read
struct Shared(Box<dyn Tape>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl std::fmt::Debug for Shared {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Shared")
    }
}
impl Tape for Shared {
    fn indeps(&self) -> &[usize] {
        self.0.indeps()
    }
    fn deps(&self) -> &[usize] {
        self.0.deps()
    }
    fn values(&self) -> &[f64] {
        self.0.values()
    }
    fn values_mut(&mut self) -> &mut [f64] {
        self.0.values_mut()
    }
    fn ops_iter<'a>(&'a self) -> Box<dyn DoubleEndedIterator<Item = advantage::Operation> + 'a> {
        self.0.ops_iter()
    }
}
struct SendTape(Arc<AbsNormalTape>);
unsafe impl Send for SendTape {}
unsafe impl Sync for SendTape {}
impl SendTape {
    fn get(&self) -> &AbsNormalTape {
        &self.0
    }
}

pub fn check(t: bool) -> Check {
    let lim = if t { 20_000_000 } else { 600_000 };
    let b = if t { 3 } else { 2 };
    let mut sc = vec![];
    let pools: Vec<usize> = if t { vec![1, 2, 3, 4] } else { vec![1, 2, 3] };
    for &p in &pools {
        // fewer preemptions where there are many workers
        let wide = if p <= 2 { b } else { b - 1 };
        let users = if t { [2, 2, 1, 1][p - 1] } else { [1, 1, 0][p - 1] };
        for (n, m) in [(1, 1), (2, 3), (3, 2), (4, 1)] {
            sc.push(scenario("jacobians", format!("forward {}x{}", m, n), p, b, lim, 1, vec![fwd(n, m)]));
        }
        for (n, m) in [(1, 1), (2, 3), (3, 2), (1, 4)] {
            sc.push(scenario("jacobians", format!("reverse {}x{}", m, n), p, b, lim, 1, vec![rev(n, m)]));
        }
        if t || p <= 2 {
            sc.push(scenario("jacobians", "forward 5x5".into(), p, b, lim, 1, vec![fwd(5, 5)]));
            sc.push(scenario("jacobians", "reverse 5x5".into(), p, b, lim, 1, vec![rev(5, 5)]));
        }
        sc.push(scenario("jacobians", "forward 2x2 twice".into(), p, wide, lim, 2, vec![fwd(2, 2)]));
        sc.push(scenario("jacobians", "reverse 2x2 twice".into(), p, wide, lim, 2, vec![rev(2, 2)]));
        for (n, m, s) in [(2, 1, 1), (1, 2, 2), (2, 2, 0)] {
            sc.push(scenario("abs-normal", format!("form {} {} {}", n, m, s), p, b, lim, 1, vec![anf(n, m, s)]));
        }
        for k in 0..5 {
            sc.push(scenario("abs-normal", format!("operator {}", k), p, b, lim, 1, vec![operators(2, 3, 2, k)]));
        }
        sc.push(scenario("abs-normal", "generalized 1 1 1".into(), p, b, lim, 1, vec![gen(1, 1, 1)]));
        sc.push(scenario("abs-normal", "generalized 2 1 2".into(), p, if p > 1 { 1 } else { b }, lim, 1, vec![gen(2, 1, 2)]));
        for k in [None, Some(2)] {
            sc.push(scenario(
                "abs-normal",
                format!("chain of 2, 1x1, {:?}", k),
                p,
                if p > 1 { 0 } else { b },
                lim,
                1,
                vec![chain(1, 2, k)],
            ));
        }
        if p == 1 || t {
            sc.push(scenario(
                "abs-normal",
                "chain of 2".into(),
                p,
                if p > 1 { 0 } else { b },
                lim,
                1,
                vec![chain(2, 2, Some(2))],
            ));
            sc.push(scenario(
                "abs-normal",
                "chain of 3".into(),
                p,
                if p > 1 { 0 } else { b },
                lim,
                1,
                vec![chain(2, 3, Some(2))],
            ));
        }
        for n in 1..4 {
            sc.push(scenario(
                "recording functions",
                format!("{} inputs", n),
                p,
                if n > 2 { b - 1 } else { wide },
                lim,
                1,
                vec![rec(n, false)],
            ));
        }
        if p <= 2 || t {
            sc.push(scenario(
                "recording functions",
                "taped".into(),
                p,
                if p == 1 { b } else { b - 1 },
                lim,
                1,
                vec![rec_tape(2)],
            ));
        }
        sc.push(scenario("recording functions", "nested driver, 1 input".into(), p, b, lim, 1, vec![rec(1, true)]));
        sc.push(scenario(
            "recording functions",
            "nested driver, 2 inputs".into(),
            p,
            if p > 2 { b - 2 } else { b - 1 },
            lim,
            1,
            vec![rec(2, true)],
        ));
        // every driver inside of every driver
        for (outer, k) in (0..4).flat_map(|o| (0..6).map(move |k| (o, k))) {
            if !t && (p > 2 && (outer > 0 || k > 1) || p == 2 && (outer > 2 || outer > 0 && k > 1)) || t && (p > 2 && outer > 0 || p > 1 && outer > 2) {
                continue;
            }
            let (body, want) = nested(outer, k);
            let nb = if p == 1 {
                b
            } else if outer == 0 && (t || k < 2) {
                b - p as i32 + 1
            } else {
                0
            };
            let nb = if p > 3 { 0 } else { nb.max(0) };
            sc.push(expecting("nested drivers", format!("driver {} in driver {}", k, outer), p, nb, lim, 1, vec![body], vec![want]));
        }
        for k in 0..4 {
            if p > 2 && !t {
                continue;
            }
            sc.push(scenario(
                "several users",
                format!("same tape {}", k),
                p,
                users,
                lim,
                1,
                together(k, 2, if t { 3 } else { 2 }),
            ));
        }
        sc.push(scenario("several users", "forward 2x2 and 2x1".into(), p, users, lim, 1, vec![fwd(2, 2), fwd(1, 2)]));
        if p <= 2 || t {
            sc.push(scenario("several users", "forward and reverse".into(), p, users, lim, 1, vec![fwd(2, 1), rev(1, 2)]));
        }
        sc.push(scenario(
            "several users",
            "recording functions".into(),
            p,
            users,
            lim,
            1,
            vec![rec(1, false), rec(2, false)],
        ));
        sc.push(scenario("several users", "form and Jacobian".into(), p, users, lim, 1, vec![anf(1, 1, 1), rev(2, 2)]));
    }
    // larger matrices, with few deviations from the default schedule
    for p in [2, 3] {
        let shapes: Vec<(usize, usize, usize, i32)> =
            if t { vec![(5, 9, 4, 2), (17, 3, 3, 2), (3, 17, 17, 2), (18, 20, 5, 2), (33, 2, 9, 2), (65, 66, 4, 1), (4, 130, 70, 1), (260, 7, 3, 1)] } else { vec![(5, 9, 4, 2), (17, 3, 3, 1), (3, 17, 17, 1), (18, 20, 5, 1), (65, 66, 4, 1)] };
        for &(n, m, s, d) in &shapes {
            for k in 0..7 {
                let d = if k >= 5 && !t { 1 } else { d };
                if k >= 5 && n > 100 {
                    continue;
                }
                let mut c = scenario("larger", format!("driver {} with {} inputs, {} outputs, {} absolute values, {} deviations", k, n, m, s, d), p, 0, lim, 1, vec![large(k, n, m, s)]);
                c.delays = d;
                sc.push(c);
            }
            if p == 2 {
                for (i, j) in [(0, 0), (0, 1), (1, 1), (1, 3), (2, 4), (4, 4)] {
                    let mut c = scenario("larger", format!("drivers {} and {} at once with {} inputs, {} outputs, {} absolute values, {} deviations", i, j, n, m, s, d), p, 0, lim, 1, vec![large(i, n, m, s), large(j, n, m, s)]);
                    c.delays = d;
                    sc.push(c);
                }
            }
        }
    }
    // far more workers than pieces, and about as many
    let many: Vec<usize> = if t { (4..=16).chain([24, 31, 32, 33, 48, 60]).collect() } else { vec![4, 5, 6, 7, 8, 9, 16, 33] };
    for &p in &many {
        for (n, m, s) in [(1, 2, 3), (5, 9, 4), (17, 3, 3), (3, 17, 17), (18, 20, 5), (40, 41, 4)] {
            for k in 0..7 {
                let mut c = scenario("many workers", format!("driver {} with {} inputs, {} outputs, {} absolute values", k, n, m, s), p, 0, lim, 1, vec![large(k, n, m, s)]);
                c.delays = if t && p < 10 && n < 40 { 1 } else { 0 };
                sc.push(c);
            }
        }
    }
    // the longest first
    sc.sort_by_key(|s| (s.group != "several users" && s.group != "nested drivers", s.group != "abs-normal", std::cmp::Reverse(s.pool)));
    let w = format!("{:?} workers", pools);
    Check {
        groups: vec![
            Group { name: "jacobians", bound: format!("both drivers for several shapes up to 5 by 5, once and twice, {}; every assignment of the pieces to workers and their interleavings with at most {} preemptions ({} for calls one after the other with 3 or more workers)", w, b, b - 1) },
            Group { name: "abs-normal", bound: format!("forms, all operators, generalized Jacobians and chains of 2 and 3 functions, {}, at most {} preemptions (with 2 or more workers, generalized Jacobians of 2 absolute values 1, chains 0)", w, b) },
            Group { name: "recording functions", bound: format!("functions that record and drive inner tapes, 1 to 3 inputs, {}, at most {} preemptions ({} or {} for the larger ones)", w, b, b - 1, b - 2) },
            Group { name: "nested drivers", bound: format!("forward and reverse Jacobians, forms, generalized Jacobians, chains and doubly nested ones inside of functions given to each driver, {}; at most {} preemptions with one worker, {} with two for Jacobians in forward Jacobians, else 0, fewer outer drivers with more workers; the result is computed independently", w, b, b - 1) },
            Group { name: "larger", bound: format!("every driver and the operators from both sides, and pairs of them at once, on shapes up to {} with inexact numbers, 2 and 3 workers: all schedules with at most 1 or 2 deviations (as named) from the one that never steals nor switches unless it has to; the results have the same bits", if t { "130 by 4 and 7 by 260" } else { "66 by 65" }) },
            Group { name: "many workers", bound: format!("every driver and the operators from both sides on six shapes up to 41 by 40 with inexact numbers, pools of {:?} workers: the schedule that never steals nor switches unless it has to{}; the results have the same bits", many, if t { ", and with fewer than 10 workers those with one deviation" } else { "" }) },
            Group { name: "several users", bound: format!("two user threads at once on the same or different tapes and functions, {}, {} preemptions at most", w, if t { "2, 2, 1, 1" } else { "1, 1, 0" }) },
        ],
        scenarios: sc,
    }
}
