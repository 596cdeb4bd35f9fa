//! C03 replay, C04 forward sweep, C05 reverse sweep of recorded programs
use crate::engine::*;
use crate::gen::*;
use crate::jet::*;
use crate::prog::*;
use crate::rec::*;
use advantage::{ADouble, DVector, Tape};

type J = Jet<ND, false>;

pub fn bits(x: &[f64]) -> Vec<u64> {
    x.iter().map(|v| v.to_bits()).collect()
}

fn jets_at(p: &[Node], x: &[f64], dirs: &[Vec<f64>; ND]) -> Vec<J> {
    let ji: Vec<J> = (0..x.len()).map(|i| J::input(x[i], std::array::from_fn(|k| dirs[k][i]))).collect();
    eval_all(p, &ji)
}

/// replayed value against the direct evaluation with active numbers
fn agree(got: f64, direct: f64, j: Option<&J>) -> bool {
    got == direct
        || (got.is_nan() && direct.is_nan())
        || direct.is_finite() && (got - direct).abs() <= 1e-12 * direct.abs()
        || j.is_some_and(|j| j.vok && close(got, direct, j.ev, 1e-220))
}

fn check_values(what: &str, f: &ProgFn, r: &Rec, tape: &dyn Tape, x: &[f64]) -> Res {
    let direct: Vec<f64> = eval_all(&f.nodes, &x.iter().map(|v| ADouble::new(*v, 0.0)).collect::<Vec<_>>()).iter().map(|a| a.value()).collect();
    let jets = jets_at(&f.nodes, x, &dirs(f.n.max(1)));
    let y = tape.y();
    if y.nrows() != r.outs.len() || tape.num_deps() != r.outs.len() || tape.num_indeps() != f.n {
        return Err(format!("{}: {} outputs and {} inputs instead of {} and {}", what, y.nrows(), tape.num_indeps(), r.outs.len(), f.n));
    }
    for (i, o) in r.outs.iter().enumerate() {
        let (w, j) = match o {
            Out::Val(k) => (direct[*k], Some(&jets[*k])),
            Out::Konst(k) => (*k, None),
        };
        if !agree(y[i], w, j) {
            return Err(format!("{}: output {} ({:?}) of [{}] is {:e} at {:?}, direct evaluation gives {:e}", what, i, o, show(&f.nodes, f.n), y[i], x, w));
        }
    }
    let tx = tape.x();
    if bits(tx.as_slice()) != bits(r.arrange(x).as_slice()) {
        return Err(format!("{}: stored inputs {:?} instead of {:?}", what, tx.as_slice(), x));
    }
    Ok(())
}

fn replay(name: &'static str, n: usize, levels: &[u8], plevel: u8, nstyles: usize) -> Harness {
    replay_at(name, (Gen::new(n, levels, |_| true), points(n, plevel)), nstyles)
}
fn replay_at(name: &'static str, (g, pts): (Gen, Vec<Vec<f64>>), nstyles: usize) -> Harness {
    let n = g.n;
    Harness {
        name,
        bound: format!("{}; {} recording styles; recorded at one of {} points and replayed at all points, twice", g.bound(), nstyles, pts.len()),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let x0 = ex.choose(pts.len().min(3));
            let style = STYLES[ex.choose(nstyles)];
            ex.note(|| format!("recorded {:?} at {:?}: {}", style, pts[x0], show(&p, n)));
            let f = ProgFn::all(n, p);
            let mut r = record(&f, &pts[x0], style);
            let mut t = std::mem::replace(&mut r.tape, Box::new(Nothing));
            check_values("as recorded", &f, &r, &*t, &pts[x0])?;
            ex.state(&(&f.nodes, x0, style));
            // up, down again and the last point twice
            let seq: Vec<usize> = (0..pts.len()).chain((0..pts.len()).rev()).collect();
            for (k, i) in seq.into_iter().enumerate() {
                t.zero_order(&r.arrange(&pts[i]));
                ex.step();
                ex.state(&(&f.nodes, bits(&pts[i]), style));
                check_values(if k < pts.len() { "first replay" } else { "later replay" }, &f, &r, &*t, &pts[i])?;
                ex.outcome(&bits(t.y().as_slice()));
            }
            Ok(())
        }),
    }
}

/// From every special point to every other one: replays that change only the sign of a zero, leave
/// a NaN or an infinity behind, or visit the same point again
fn special(name: &'static str, n: usize, levels: &[u8], coords: &'static [f64], nstyles: usize) -> Harness {
    let g = Gen::new(n, levels, |_| true);
    let mut pts: Vec<Vec<f64>> = vec![vec![]];
    for _ in 0..n {
        pts = pts.iter().flat_map(|p| coords.iter().map(move |c| p.iter().copied().chain([*c]).collect())).collect();
    }
    Harness {
        name,
        bound: format!("{}; {} recording styles; replayed from each of {} points with coordinates {:?} to each", g.bound(), nstyles, pts.len(), coords),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let style = STYLES[ex.choose(nstyles)];
            let x0 = ex.choose(pts.len());
            ex.note(|| format!("recorded {:?} at {:?}: {}", style, pts[x0], show(&p, n)));
            let f = ProgFn::all(n, p);
            let mut r = record(&f, &pts[x0], style);
            let mut t = std::mem::replace(&mut r.tape, Box::new(Nothing));
            check_values("as recorded", &f, &r, &*t, &pts[x0])?;
            // back to the recorded point before every visit
            for (k, i) in (0..pts.len()).enumerate() {
                t.zero_order(&r.arrange(&pts[i]));
                ex.step();
                ex.state(&(&f.nodes, bits(&pts[i]), bits(&pts[x0]), style));
                check_values("replay", &f, &r, &*t, &pts[i]).map_err(|e| format!("{} (coming from {:?})", e, pts[x0]))?;
                ex.outcome(&bits(t.y().as_slice()));
                t.zero_order(&r.arrange(&pts[x0]));
                ex.step();
                check_values("replay", &f, &r, &*t, &pts[x0]).map_err(|e| format!("{} (coming from {:?}, visit {})", e, pts[i], k))?;
            }
            Ok(())
        }),
    }
}

/// Constants that only just differ, or are special, in the same recording
fn constants(name: &'static str, ks: Vec<f64>, nstyles: usize) -> Harness {
    let mut forms = vec![];
    for &k in &ks {
        for b in [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Powf] {
            forms.push((b, k, 0));
            forms.push((b, k, 1));
            if b != Bin::Powf {
                forms.push((b, k, 2));
                forms.push((b, k, 3));
                forms.push((b, k, 4));
            }
        }
    }
    let make = |(b, k, f): (Bin, f64, usize), x: usize| match f {
        0 => Node::BinC(b, x, k),
        1 => Node::CBin(b, k, x),
        2 => Node::BinF(b, x, k),
        3 => Node::FBin(b, k, x),
        _ => Node::AsgF(b, x, k),
    };
    let pts = [1.5, -0.0, 0.0, -2.0, f64::INFINITY, 1e-300];
    Harness {
        name,
        bound: format!("all pairs of steps of {} forms with constants {:?}, the second on the input or the first result, constant outputs; {} recording styles, {} points", forms.len(), ks, nstyles, pts.len()),
        units: forms.len(),
        run: Box::new(move |ex, u| {
            let k2 = ex.choose(forms.len());
            let on = ex.choose(2);
            let style = STYLES[ex.choose(nstyles)];
            let p = vec![make(forms[u], 0), make(forms[k2], on)];
            ex.note(|| format!("recorded {:?} at {}: {}", style, pts[0], show(&p, 1)));
            ex.state(&(&p, style));
            let mut f = ProgFn::all(1, p);
            f.outs.push(Out::Konst(forms[u].1));
            f.outs.push(Out::Konst(forms[k2].1));
            let mut r = record(&f, &pts[..1], style);
            let mut t = std::mem::replace(&mut r.tape, Box::new(Nothing));
            let konst = |t: &dyn Tape| -> Res {
                let y = t.y();
                for (i, o) in r.outs.iter().enumerate() {
                    if let Out::Konst(k) = o {
                        if y[i].to_bits() != k.to_bits() && !(y[i].is_nan() && k.is_nan()) {
                            return Err(format!("the constant output {:e} is {:e}", k, y[i]));
                        }
                    }
                }
                Ok(())
            };
            check_values("as recorded", &f, &r, &*t, &pts[..1])?;
            konst(&*t)?;
            for i in (0..pts.len()).rev() {
                t.zero_order(&r.arrange(&pts[i..i + 1]));
                ex.step();
                check_values("replay", &f, &r, &*t, &pts[i..i + 1])?;
                konst(&*t)?;
                ex.outcome(&bits(t.y().as_slice()));
            }
            Ok(())
        }),
    }
}

#[derive(Debug)]
struct Nothing;
impl Tape for Nothing {
    fn indeps(&self) -> &[usize] {
        &[]
    }
    fn deps(&self) -> &[usize] {
        &[]
    }
    fn values(&self) -> &[f64] {
        &[]
    }
    fn values_mut(&mut self) -> &mut [f64] {
        &mut []
    }
    fn ops_iter<'a>(&'a self) -> Box<dyn DoubleEndedIterator<Item = advantage::Operation> + 'a> {
        Box::new(std::iter::empty())
    }
}

/// Sequences of (declare, operate) of growing length: tapes with many values
pub fn sizes(thorough: bool) -> Vec<usize> {
    let mut s = vec![0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000];
    s.extend([32767, 32768, 32769, 65535, 65536, 65537, 70000, 131073]);
    if thorough {
        s.extend([262144, 262145, 1 << 20]);
    }
    s
}

/// A long program with known values and gradient:
/// s_0 = 0 (input 0 times 0 ...), s_k = s_{k-1} +- c_k * x_{k mod n}; every value is exact
pub struct Long {
    pub n: usize,
    pub len: usize,
}

impl Long {
    pub fn coef(k: usize) -> f64 {
        [1.0, -2.0, 0.5, 3.0, -1.0][k % 5]
    }
    pub fn eval<T: Alg>(&self, x: &[T]) -> Vec<T> {
        let mut s = x[0];
        let mut half = s;
        for k in 0..self.len {
            let xi = x[(k * 7 + 1) % self.n];
            s = match k % 4 {
                0 => T::bin(Bin::Add, s, xi),
                1 => T::bin(Bin::Add, s, T::bin_f(Bin::Mul, xi, Self::coef(k))),
                2 => T::bin(Bin::Sub, T::bin_f(Bin::Mul, xi, Self::coef(k)), s),
                _ => T::asg(Bin::Sub, s, xi),
            };
            if k == self.len / 2 {
                half = s;
            }
        }
        vec![s, half, x[self.n - 1]]
    }
    pub fn grad(&self) -> Vec<Vec<f64>> {
        let mut g = vec![0.0; self.n];
        g[0] = 1.0;
        let mut half = g.clone();
        for k in 0..self.len {
            let i = (k * 7 + 1) % self.n;
            match k % 4 {
                0 => g[i] += 1.0,
                1 => g[i] += Self::coef(k),
                2 => {
                    for v in g.iter_mut() {
                        *v = -*v;
                    }
                    g[i] += Self::coef(k);
                }
                _ => g[i] -= 1.0,
            }
            if k == self.len / 2 {
                half = g.clone();
            }
        }
        let mut last = vec![0.0; self.n];
        last[self.n - 1] = 1.0;
        vec![g, half, last]
    }
}

struct LongFn(Long);
impl advantage::Function for LongFn {
    fn n(&self) -> usize {
        self.0.n
    }
    fn m(&self) -> usize {
        3
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        DVector::from_vec(self.0.eval(x.as_slice()))
    }
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Replay,
    Forward,
    Reverse,
}

fn long(name: &'static str, what: What, thorough: bool) -> Harness {
    let sz = sizes(thorough);
    let ns = [1usize, 2, 3, 40, 300];
    Harness {
        name,
        bound: format!("linear recurrences of {:?} steps on {:?} inputs, exact arithmetic", sz, ns),
        units: sz.len() * ns.len(),
        run: Box::new(move |ex, u| {
            // the longest ones first
            let len = sz[sz.len() - 1 - u / ns.len()];
            let n = ns[u % ns.len()];
            let f = LongFn(Long { n, len });
            let x0: Vec<f64> = (0..n).map(|i| (i % 9) as f64 - 4.0).collect();
            let x1: Vec<f64> = (0..n).map(|i| 0.5 * ((i * 5) % 13) as f64 - 1.0).collect();
            ex.note(|| format!("recurrence of {} steps on {} inputs", len, n));
            let g = f.0.grad();
            let mut t = advantage::Function::tape(&f, &DVector::from_vec(x0.clone()));
            let dot = |a: &[f64], b: &[f64]| -> f64 { a.iter().zip(b).map(|(x, y)| x * y).sum() };
            ex.state(&(n, len));
            ex.step();
            ex.outcome(&bits(t.y().as_slice()));
            match what {
                What::Replay => {
                    let want = |x: &[f64]| f.0.eval(x);
                    if t.y().as_slice() != want(&x0) {
                        return Err(format!("recording of {} steps on {} inputs gives {:?} instead of {:?}", len, n, t.y().as_slice(), want(&x0)));
                    }
                    for x in [&x1, &x0, &x1] {
                        t.zero_order(&DVector::from_vec(x.clone()));
                        ex.step();
                        if t.y().as_slice() != want(x) {
                            return Err(format!("replay of {} steps on {} inputs gives {:?} instead of {:?}", len, n, t.y().as_slice(), want(x)));
                        }
                    }
                }
                What::Forward => {
                    for d in [&x1, &x0] {
                        ex.step();
                        let dy = t.first_order_forward(&DVector::from_vec(d.clone()));
                        let want: Vec<f64> = g.iter().map(|r| dot(r, d)).collect();
                        if dy.as_slice() != want {
                            return Err(format!("forward sweep over {} steps on {} inputs gives {:?} instead of {:?}", len, n, dy.as_slice(), want));
                        }
                    }
                }
                What::Reverse => {
                    for w in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.5, -2.0, 4.0]] {
                        ex.step();
                        let xb = t.first_order_reverse(&DVector::from_vec(w.to_vec()));
                        let want: Vec<f64> = (0..n).map(|i| w[0] * g[0][i] + w[1] * g[1][i] + w[2] * g[2][i]).collect();
                        if xb.as_slice() != want {
                            let k = (0..n).find(|k| xb[*k] != want[*k]);
                            return Err(format!("reverse sweep over {} steps on {} inputs with weights {:?} is wrong at {:?}", len, n, w, k));
                        }
                    }
                }
            }
            Ok(())
        }),
    }
}

/// Many inputs and outputs: y_i = c_i x_{7i+1} - x_i, or an input, or a constant
struct Wide {
    n: usize,
    m: usize,
}
impl Wide {
    fn row(&self, i: usize) -> Vec<(usize, f64)> {
        if self.n == 0 || i % 6 == 5 {
            return vec![];
        }
        let (a, b) = ((i * 7 + 1) % self.n, i % self.n);
        match i % 3 {
            0 => vec![(a, Long::coef(i)), (b, -1.0)],
            1 => vec![(self.n - 1 - b, 1.0)],
            _ => vec![(b, 0.5)],
        }
    }
    fn apply(&self, x: &[f64], konst: f64) -> Vec<f64> {
        (0..self.m)
            .map(|i| {
                let r = self.row(i);
                if r.is_empty() {
                    konst * i as f64
                } else {
                    r.iter().map(|(k, c)| c * x[*k]).sum()
                }
            })
            .collect()
    }
    fn transposed(&self, w: &[f64]) -> Vec<f64> {
        let mut r = vec![0.0; self.n];
        for (i, w) in w.iter().enumerate() {
            for (k, c) in self.row(i) {
                r[k] += c * w;
            }
        }
        r
    }
}
impl advantage::Function for Wide {
    fn n(&self) -> usize {
        self.n
    }
    fn m(&self) -> usize {
        self.m
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        DVector::from_vec(
            (0..self.m)
                .map(|i| match (&self.row(i)[..], i % 3) {
                    ([], _) => ADouble::from(i as f64),
                    ([(a, c), (b, _)], _) => x[*a] * *c - x[*b],
                    ([(a, _)], 1) => x[*a],
                    ([(a, c), ..], _) => x[*a] * *c,
                })
                .collect(),
        )
    }
}

fn wide(name: &'static str, what: What, thorough: bool) -> Harness {
    let mut long = vec![5000, 16383, 16385, 32769, 65535, 65536, 65537, 70000];
    if thorough {
        long.extend([131073, 262145, 1 << 20]);
    }
    let short = [1usize, 2, 100];
    let mut d = vec![(70000, 70001)];
    for l in &long {
        for s in short {
            d.push((*l, s));
            d.push((s, *l));
        }
    }
    d.reverse();
    Harness {
        name,
        bound: format!("{} shapes of up to {} inputs or outputs, exact arithmetic", d.len(), long[long.len() - 1]),
        units: d.len(),
        run: Box::new(move |ex, u| {
            let (n, m) = d[u];
            let f = Wide { n, m };
            ex.note(|| format!("{} inputs, {} outputs", n, m));
            ex.state(&(n, m));
            let x0: Vec<f64> = (0..n).map(|i| (i % 9) as f64 - 4.0).collect();
            let x1: Vec<f64> = (0..n).map(|i| 0.5 * ((i * 5) % 13) as f64 - 1.0).collect();
            let mut t = advantage::Function::tape(&f, &DVector::from_vec(x0.clone()));
            if t.num_indeps() != n || t.num_deps() != m {
                return Err(format!("the recording of {} inputs and {} outputs has {} and {}", n, m, t.num_indeps(), t.num_deps()));
            }
            let fail = |what: &str, got: &[f64], want: &[f64]| {
                let k = (0..want.len().min(got.len())).find(|k| got[*k] != want[*k]);
                if got.len() != want.len() || k.is_some() {
                    return Err(format!("{} of {} inputs and {} outputs has {} entries and is wrong at {:?}", what, n, m, got.len(), k));
                }
                Ok(())
            };
            ex.step();
            match what {
                What::Replay => {
                    fail("recording", t.y().as_slice(), &f.apply(&x0, 1.0))?;
                    for x in [&x1, &x0] {
                        t.zero_order(&DVector::from_vec(x.clone()));
                        fail("inputs of the replay", t.x().as_slice(), x)?;
                        fail("replay", t.y().as_slice(), &f.apply(x, 1.0))?;
                    }
                }
                What::Forward => {
                    for x in [&x1, &x0] {
                        fail("forward sweep", t.first_order_forward(&DVector::from_vec(x.clone())).as_slice(), &f.apply(x, 0.0))?;
                    }
                }
                What::Reverse => {
                    for k in [3, 8] {
                        let w: Vec<f64> = (0..m).map(|i| ((i * k) % 7) as f64 - 2.0).collect();
                        fail("reverse sweep", t.first_order_reverse(&DVector::from_vec(w.clone())).as_slice(), &f.transposed(&w))?;
                    }
                }
            }
            ex.outcome(&bits(&t.y().as_slice()[..m.min(3)]));
            Ok(())
        }),
    }
}

fn forward(name: &'static str, n: usize, levels: &[u8], plevel: u8, nstyles: usize) -> Harness {
    forward_at(name, (Gen::new(n, levels, |_| true), points(n, plevel)), nstyles)
}
fn forward_at(name: &'static str, (g, pts): (Gen, Vec<Vec<f64>>), nstyles: usize) -> Harness {
    let n = g.n;
    Harness {
        name,
        bound: format!("{}; {} recording styles; recorded at one point, swept along 6 directions at {} points", g.bound(), nstyles, pts.len()),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let x0 = ex.choose(2);
            let style = STYLES[ex.choose(nstyles)];
            ex.note(|| format!("recorded {:?} at {:?}: {}", style, pts[x0], show(&p, n)));
            let f = ProgFn::all(n, p);
            let mut r = record(&f, &pts[x0], style);
            let mut t = std::mem::replace(&mut r.tape, Box::new(Nothing));
            let ds = dirs(n);
            let mut any = false;
            // at the recorded point first, then at every point in turn
            for (k, i) in std::iter::once(x0).chain(0..pts.len()).enumerate() {
                if k > 0 {
                    t.zero_order(&r.arrange(&pts[i]));
                }
                ex.state(&(&f.nodes, i, style));
                let jets = jets_at(&f.nodes, &pts[i], &ds);
                for (kd, d) in ds.iter().enumerate() {
                    ex.step();
                    let dy = t.first_order_forward(&r.arrange(d));
                    if dy.nrows() != r.outs.len() {
                        return Err(format!("forward sweep returns {} entries for {} outputs", dy.nrows(), r.outs.len()));
                    }
                    let tl = eval_all(&f.nodes, &(0..n).map(|q| ADouble::new(pts[i][q], d[q])).collect::<Vec<_>>());
                    for (q, o) in r.outs.iter().enumerate() {
                        let Out::Val(v) = *o else {
                            if dy[q] != 0.0 {
                                return Err(format!("derivative of the constant output {} is {:e}", q, dy[q]));
                            }
                            continue;
                        };
                        let j = &jets[v];
                        let a = tl[v].dvalue();
                        if j.dok {
                            any = true;
                            if !close(dy[q], j.d[kd], j.ed[kd], J::ABS) {
                                return Err(format!(
                                    "output {} (v{}) of [{}] at {:?} along {:?}: forward sweep {:e}, derivative {:e}",
                                    q, v, show(&f.nodes, n), pts[i], d, dy[q], j.d[kd]
                                ));
                            }
                            if !close(dy[q], a, j.ed[kd], J::ABS) {
                                return Err(format!("output {}: forward sweep {:e}, tapeless {:e}", q, dy[q], a));
                            }
                            ex.outcome(&dy[q].to_bits());
                        } else if !(dy[q] == a || dy[q].is_nan() && a.is_nan() || a.is_finite() && (dy[q] - a).abs() <= 1e-9 * a.abs()) && jets[v].vok {
                            return Err(format!(
                                "output {} (v{}) of [{}] at {:?} along {:?}: forward sweep {:e}, tapeless {:e}",
                                q, v, show(&f.nodes, n), pts[i], d, dy[q], a
                            ));
                        }
                    }
                }
            }
            if !any {
                ex.skip();
            }
            Ok(())
        }),
    }
}

/// whether evaluating a step on active operands records an absolute value
fn abs_recorded(nd: &Node) -> bool {
    nd.has_abs()
}

fn reverse(name: &'static str, n: usize, levels: &[u8], plevel: u8, nstyles: usize) -> Harness {
    reverse_at(name, (Gen::new(n, levels, |_| true), points(n, plevel)), nstyles)
}
fn reverse_at(name: &'static str, (g, pts): (Gen, Vec<Vec<f64>>), nstyles: usize) -> Harness {
    let n = g.n;
    Harness {
        name,
        bound: format!("{}; {} recording styles; {} points; unit and mixed weights over outputs incl. shared, input and constant ones; with abs: refusal", g.bound(), nstyles, pts.len()),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let x0 = ex.choose(2);
            let style = STYLES[ex.choose(nstyles)];
            ex.note(|| format!("recorded {:?} at {:?}: {}", style, pts[x0], show(&p, n)));
            let has_abs = p.iter().any(abs_recorded);
            let f = ProgFn::all(n, p);
            let mut r = record(&f, &pts[x0], style);
            let mut t = std::mem::replace(&mut r.tape, Box::new(Nothing));
            let m = r.outs.len();
            if has_abs {
                ex.state(&(&f.nodes, style));
                ex.step();
                ex.count("refusals");
                for k in 0..m {
                    let mut w = DVector::zeros(m);
                    w[k] = 1.0;
                    if panics(|| t.first_order_reverse(&w)).is_ok() {
                        return Err(format!("reverse sweep over [{}] with an absolute value returned a gradient", show(&f.nodes, n)));
                    }
                }
                return Ok(());
            }
            let unit: [Vec<f64>; ND] = std::array::from_fn(|k| (0..n).map(|i| if i == k { 1.0 } else { 0.0 }).collect());
            let mut any = false;
            for (k, i) in std::iter::once(x0).chain(0..pts.len()).enumerate() {
                if k > 0 {
                    t.zero_order(&r.arrange(&pts[i]));
                }
                let jets = jets_at(&f.nodes, &pts[i], &unit);
                if !jets.iter().all(|j| j.dok) {
                    continue;
                }
                any = true;
                ex.state(&(&f.nodes, i, style));
                let mut ws: Vec<Vec<f64>> = (0..m).map(|q| (0..m).map(|k| if k == q { 1.0 } else { 0.0 }).collect()).collect();
                ws.push((0..m).map(|q| [1.5, -2.0, 0.25, 3.0][q % 4] * (1.0 + q as f64)).collect());
                ws.push(vec![0.0; m]);
                ws.push(vec![1.0; m]);
                for w in ws {
                    ex.step();
                    let xb = t.first_order_reverse(&DVector::from_vec(w.clone()));
                    if xb.nrows() != n {
                        return Err(format!("reverse sweep returns {} entries for {} inputs", xb.nrows(), n));
                    }
                    for (a, pi) in r.order.iter().enumerate() {
                        let (mut want, mut err) = (0.0, 0.0);
                        for (q, o) in r.outs.iter().enumerate() {
                            if let Out::Val(v) = o {
                                want += w[q] * jets[*v].d[*pi];
                                err += w[q].abs() * (jets[*v].ed[*pi] + 4.0 * J::U * jets[*v].d[*pi].abs());
                            }
                        }
                        if !close(xb[a], want, err, J::ABS) {
                            return Err(format!(
                                "weights {:?} on {:?} of [{}] at {:?}: entry {} (input {}) of the reverse sweep is {:e}, should be {:e}",
                                w, r.outs, show(&f.nodes, n), pts[i], a, pi, xb[a], want
                            ));
                        }
                        ex.outcome(&xb[a].to_bits());
                    }
                }
            }
            if !any {
                ex.skip();
            }
            Ok(())
        }),
    }
}

pub fn c03(thorough: bool) -> Check {
    let mut hs = vec![
        long("long", What::Replay, thorough),
        wide("wide", What::Replay, thorough),
        replay("two_steps", 2, &[1, 1], 2, 4),
        replay("one_step", 3, &[2], 9, 4),
        replay_at("grid", grid(1), 2),
        replay_at("grid_2", grid(2), 2),
        replay("three_steps", 2, &[0, 0, 0], 0, 2),
    ];
    hs.push(special("special", 1, &[2], &[0.0, -0.0, 1.0, -2.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, f64::MAX], 4));
    hs.push(special("special_2", 2, &[2], &[0.0, -0.0, f64::INFINITY, 1.5], 2));
    hs.push(special("special_steps", 1, &[1, 1], &[0.0, -0.0, f64::NEG_INFINITY, f64::NAN, 1.0], 2));
    hs.push(constants("constants", vec![0.0, -0.0, 1.0, 1.0 + f64::EPSILON, 0.1, 0.1f32 as f64, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, -2.0], 1));
    if thorough {
        hs.push(constants("constants_wide", vec![0.0, -0.0, 1.0, 1.0 - f64::EPSILON, 1.0 + f64::EPSILON, -1.0, 2.0, 3.0, 0.1, 0.1f32 as f64, 16777217.0, 16777216.0, 9007199254740992.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, -5e-324, f64::MIN_POSITIVE, f64::MAX, -2.0], 4));
        hs.push(special("special_wide", 1, &[2, 2], &[0.0, -0.0, 1.0, -2.5, f64::INFINITY, f64::NAN], 2));
        hs.push(special("special_2_steps", 2, &[1, 1], &[0.0, -0.0, f64::INFINITY, 1.5], 1));
        hs.push(replay("two_steps_wide", 2, &[2, 2], 3, 4));
        hs.push(replay("two_steps_1", 1, &[2, 2], 3, 4));
        hs.push(replay("three_steps_wide", 2, &[1, 0, 1], 0, 4));
        hs.push(replay("three_inputs", 3, &[1, 1], 1, 4));
    } else {
        hs.push(replay("two_steps_1", 1, &[2, 2], 1, 4));
    }
    Check { property: "C03", harnesses: hs, assumptions: vec!["programs without input-dependent branches".into()] }
}

pub fn c04(thorough: bool) -> Check {
    let mut hs = vec![
        long("long", What::Forward, thorough),
        wide("wide", What::Forward, thorough),
        forward("two_steps", 2, &[1, 1], 2, 4),
        forward("one_step", 3, &[2], 9, 4),
        forward_at("grid", grid(1), 2),
        forward_at("grid_2", grid(2), 2),
        forward("two_steps_1", 1, &[2, 2], 1, 2),
        forward("three_steps", 2, &[0, 0, 0], 0, 2),
        forward("two_steps_wide", 2, &[2, 2], 1, 2),
        forward("three_inputs", 3, &[1, 1], 1, 2),
    ];
    if thorough {
        hs.push(forward("two_steps_all", 2, &[2, 2], 3, 4));
        hs.push(forward("three_steps_wide", 2, &[1, 0, 1], 0, 2));
        hs.push(forward("three_inputs_all", 3, &[1, 1], 1, 4));
    }
    Check { property: "C04", harnesses: hs, assumptions: vec!["derivatives are compared where every step is differentiable and well conditioned (abs, min, max by their piecewise linear increment)".into()] }
}

pub fn c05(thorough: bool) -> Check {
    let mut hs = vec![
        long("long", What::Reverse, thorough),
        wide("wide", What::Reverse, thorough),
        reverse("two_steps", 2, &[1, 1], 2, 4),
        reverse("one_step", 3, &[2], 9, 4),
        reverse_at("grid", grid(1), 2),
        reverse_at("grid_2", grid(2), 2),
        reverse("two_steps_1", 1, &[2, 2], 1, 2),
        reverse("three_steps", 2, &[0, 0, 0], 0, 2),
        reverse("two_steps_wide", 2, &[2, 2], 1, 2),
        reverse("three_inputs", 3, &[1, 1], 1, 2),
    ];
    if thorough {
        hs.push(reverse("two_steps_all", 2, &[2, 2], 3, 4));
        hs.push(reverse("three_steps_wide", 2, &[1, 0, 1], 0, 2));
        hs.push(reverse("three_inputs_all", 3, &[1, 1], 1, 4));
    }
    Check { property: "C05", harnesses: hs, assumptions: vec!["gradients are compared at points where every recorded operation is differentiable and well conditioned".into()] }
}
