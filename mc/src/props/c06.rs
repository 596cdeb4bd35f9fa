//! Jacobian drivers
use crate::engine::*;
use crate::gen::*;
use crate::jet::*;
use crate::prog::*;
use crate::rec::*;
use advantage::drivers::{jacobian_forward, jacobian_reverse};
use advantage::{ADouble, DMatrix, DVector, Function};

type J = Jet<3, false>;

fn programs(name: &'static str, n: usize, levels: &[u8], plevel: u8) -> Harness {
    let g = Gen::new(n, levels, |s| !s.has_abs());
    let pts = points(n, plevel);
    Harness {
        name,
        bound: format!("{} without abs; {} points; outputs: all, last only, none; tape recorded at one point and replayed at another", g.bound(), pts.len()),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let i = ex.choose(pts.len());
            let osel = ex.choose(3);
            ex.note(|| format!("{} at {:?}, outputs {}", show(&p, n), pts[i], ["all", "last", "none"][osel]));
            let mut f = ProgFn::all(n, p);
            match osel {
                1 => f.outs = vec![Out::Val(n + f.nodes.len() - 1)],
                2 => f.outs = vec![],
                _ => {}
            }
            let x = &pts[i];
            let jets = eval_all(&f.nodes, &(0..n).map(|k| J::input(x[k], std::array::from_fn(|q| if q == k { 1.0 } else { 0.0 }))).collect::<Vec<_>>());
            if !jets.iter().all(|j| j.dok) {
                ex.skip();
                return Ok(());
            }
            ex.state(&(&f.nodes, i, osel));
            let xv = DVector::from_vec(x.clone());
            let jf = jacobian_forward(&f, &xv);
            let style = STYLES[(u + i) % 4];
            let mut r = record(&f, &pts[(i + 1) % pts.len()], style);
            let xo = r.arrange(x);
            r.tape.zero_order(&xo);
            let jr = jacobian_reverse(&*r.tape);
            ex.step();
            for (what, jac, outs, order) in [("forward", &jf, &f.outs, &(0..n).collect::<Vec<_>>()), ("reverse", &jr, &r.outs, &r.order)] {
                if jac.nrows() != outs.len() || jac.ncols() != n {
                    return Err(format!("{} driver returns {} x {} instead of {} x {}", what, jac.nrows(), jac.ncols(), outs.len(), n));
                }
                for (a, o) in outs.iter().enumerate() {
                    for (b, k) in order.iter().enumerate() {
                        let (want, err) = match o {
                            Out::Val(v) => (jets[*v].d[*k], jets[*v].ed[*k]),
                            Out::Konst(_) => (0.0, 0.0),
                        };
                        if !close(jac[(a, b)], want, err, J::ABS) {
                            return Err(format!("{} driver: entry ({}, {}) of [{}] at {:?} is {:e}, should be {:e}", what, a, b, show(&f.nodes, n), x, jac[(a, b)], want));
                        }
                        ex.outcome(&jac[(a, b)].to_bits());
                    }
                }
            }
            Ok(())
        }),
    }
}

/// y_i = sum of a few products and multiples, exact in floating point
pub struct Shape {
    pub n: usize,
    pub m: usize,
    pub dense: bool,
}
impl Shape {
    fn terms(&self, i: usize) -> Vec<(usize, f64)> {
        if self.n == 0 {
            return vec![];
        }
        if self.dense {
            (0..self.n).map(|j| (j, ((i * 31 + j * 17) % 13) as f64 - 6.0)).collect()
        } else {
            (0..3).map(|k| ((i * 5 + k * 7) % self.n, (i % 11) as f64 - 3.0 * k as f64)).collect()
        }
    }
    pub fn jac(&self, x: &[f64]) -> DMatrix<f64> {
        let mut j = DMatrix::zeros(self.m, self.n);
        for i in 0..self.m {
            for (k, c) in self.terms(i) {
                j[(i, k)] += c;
            }
            if self.n > 0 {
                let (a, b) = (i % self.n, (3 * i + 1) % self.n);
                j[(i, a)] += x[b];
                j[(i, b)] += x[a];
            }
        }
        j
    }
}
impl Function for Shape {
    fn n(&self) -> usize {
        self.n
    }
    fn m(&self) -> usize {
        self.m
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        DVector::from_vec(
            (0..self.m)
                .map(|i| {
                    let mut s = ADouble::new(i as f64, 0.0);
                    for (k, c) in self.terms(i) {
                        s += x[k] * c;
                    }
                    if self.n > 0 {
                        s += x[i % self.n] * x[(3 * i + 1) % self.n];
                    }
                    s
                })
                .collect(),
        )
    }
}

fn dims(thorough: bool) -> Vec<usize> {
    let mut d: Vec<usize> = (0..=18).collect();
    d.extend([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]);
    if thorough {
        d.extend(19..31);
        d.extend([500, 512, 513, 1000, 1025]);
    }
    d
}

/// Both drivers on one shape
fn shape(ex: &mut Ex, n: usize, m: usize, k: usize) -> Res {
    let f = Shape { n, m, dense: n * m <= 66 * 66 };
    ex.note(|| format!("{} x {} Jacobian", m, n));
    ex.state(&(n, m, k));
    ex.step();
    let x = DVector::from_fn(n, |i, _| if k == 0 { (i % 7) as f64 - 3.0 } else { 0.5 * (i % 5) as f64 });
    let want = f.jac(x.as_slice());
    let mut results = vec![];
    if n < 65536 {
        results.push(("forward", jacobian_forward(&f, &x)));
    }
    if m < 65536 {
        let other = DVector::from_fn(n, |i, _| 1.0 + (i % 3) as f64);
        let mut t = f.tape(&other);
        t.zero_order(&x);
        results.push(("reverse", jacobian_reverse(&*t)));
    }
    for (what, j) in &results {
        if j.shape() != (m, n) {
            return Err(format!("{} driver returns {:?} for a {} x {} Jacobian", what, j.shape(), m, n));
        }
        if *j != want {
            let p = (0..m * n).find(|p| j[(p / n, p % n)] != want[(p / n, p % n)]).unwrap();
            let p = (p / n, p % n);
            return Err(format!("{} driver, {} x {}: entry {:?} is {:e}, should be {:e}", what, m, n, p, j[p], want[p]));
        }
    }
    ex.outcome(&(n, m, want.sum().to_bits()));
    Ok(())
}

fn shapes(thorough: bool) -> Harness {
    let d = dims(thorough);
    Harness {
        name: "shapes",
        bound: format!("all pairs of dimensions from {:?} (dense Jacobians up to 66, sparse above), two points", d),
        units: d.len() * d.len(),
        run: Box::new(move |ex, u| {
            let (n, m) = (d[d.len() - 1 - u / d.len()], d[d.len() - 1 - u % d.len()]);
            if n * m > 300_000 {
                ex.skip();
                return Ok(());
            }
            let k = ex.choose(2);
            shape(ex, n, m, k)
        }),
    }
}

/// A long side with a short one: where rows or columns are worked on in blocks
fn long_sides(thorough: bool) -> Harness {
    let mut d = vec![];
    for n in [300, 341, 384, 400, 500, 511, 512, 513, 600, 700, 767, 768, 769, 900, 1000, 1023, 1024, 1025, 1100, 1280, 1500, 1536, 2000, 2047, 2048, 2049, 2500, 3000, 3500, 4095, 4096, 4097, 5000] {
        for k in [1usize, 2, 3, 7] {
            d.push((n, k));
            d.push((k, n));
        }
    }
    if thorough {
        for n in [8191, 8192, 8193, 10000, 16384, 16385, 20000, 32769] {
            d.push((n, 1));
            d.push((1, n));
        }
        // every length in between
        for n in 258..1400 {
            d.push((n, 1));
            d.push((1, n));
        }
    } else {
        for n in (260..1300).step_by(13) {
            d.push((n, 1));
            d.push((1, n));
        }
    }
    // beyond sixteen bits only the driver that goes along the short side
    let mut huge = vec![];
    for n in if thorough { vec![65536, 65537, 70000, 131073, 262145] } else { vec![65536, 65537, 70000] } {
        for k in [1usize, 2, 3] {
            huge.push((n, k));
            huge.push((k, n));
        }
    }
    d.splice(0..0, huge);
    let u = d.len();
    Harness {
        name: "long_sides",
        bound: format!("{} shapes of up to {} inputs or outputs and few of the other; one driver only with more than 65535", u, if thorough { 262145 } else { 70000 }),
        units: u,
        run: Box::new(move |ex, u| {
            let (n, m) = d[u];
            let k = ex.choose(2);
            shape(ex, n, m, k)
        }),
    }
}

/// Outputs that are inputs
struct Pass {
    n: usize,
    m: usize,
}
impl Function for Pass {
    fn n(&self) -> usize {
        self.n
    }
    fn m(&self) -> usize {
        self.m
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        DVector::from_fn(self.m, |i, _| x[i / 3 % self.n])
    }
}

/// More than sixteen bits of outputs, row by row
fn many_rows(thorough: bool) -> Harness {
    let d = if thorough { vec![(2, 65537), (1, 65536), (3, 70000), (1, 131073)] } else { vec![(2, 65537)] };
    Harness {
        name: "many_rows",
        bound: format!("reverse driver on {:?} inputs and outputs, every output an input", d),
        units: d.len(),
        run: Box::new(move |ex, u| {
            let (n, m) = d[u];
            ex.note(|| format!("{} x {} Jacobian by rows", m, n));
            ex.state(&(n, m));
            ex.step();
            let j = jacobian_reverse(&*Pass { n, m }.tape(&DVector::from_element(n, 1.5)));
            if j.shape() != (m, n) {
                return Err(format!("reverse driver returns {:?} for a {} x {} Jacobian", j.shape(), m, n));
            }
            for (a, b) in (0..m).flat_map(|a| (0..n).map(move |b| (a, b))) {
                if j[(a, b)] != if a / 3 % n == b { 1.0 } else { 0.0 } {
                    return Err(format!("reverse driver, {} x {}: entry {:?} is {:e}", m, n, (a, b), j[(a, b)]));
                }
            }
            ex.outcome(&(n, m));
            Ok(())
        }),
    }
}

fn wrong() -> Harness {
    Harness {
        name: "wrong_dimension",
        bound: "dimensions 0..9 against points of 0..12 entries".into(),
        units: 10,
        run: Box::new(move |ex, n| {
            let k = ex.choose(13);
            let m = ex.choose(4);
            ex.note(|| format!("a point of {} entries for {} inputs", k, n));
            ex.state(&(n, k, m));
            ex.step();
            let f = Shape { n, m, dense: true };
            let x = DVector::from_element(k, 1.0);
            let r = panics(|| jacobian_forward(&f, &x));
            if r.is_ok() != (k == n) {
                return Err(format!("jacobian_forward of {} inputs at a point of {} entries: {:?}", n, k, r.map(|j| j.shape())));
            }
            let mut t = f.tape(&DVector::from_element(n, 2.0));
            let r = panics(|| t.zero_order(&x));
            if r.is_ok() != (k == n) {
                return Err(format!("zero_order of {} inputs at a point of {} entries: {:?}", n, k, r));
            }
            Ok(())
        }),
    }
}

pub fn check(thorough: bool) -> Check {
    let mut hs = vec![shapes(thorough), long_sides(thorough), many_rows(thorough), wrong(), programs("two_steps", 2, &[1, 1], 1), programs("one_step", 3, &[1], 9)];
    if thorough {
        hs.push(programs("two_steps_1", 1, &[2, 2], 2));
        hs.push(programs("three_steps", 2, &[0, 0, 0], 1));
        hs.push(programs("three_inputs", 3, &[1, 1], 1));
    } else {
        hs.push(programs("three_steps", 2, &[0, 0, 0], 0));
    }
    Check { property: "C06", harnesses: hs, assumptions: vec!["the drivers run on the real thread pool with its own scheduling; C17 explores schedules".into()] }
}
