//! What a function defined by the macro has to be
pub use advantage::{adv_dvec, adv_fn, adv_fn_obj, ADouble, DVector, Function};
use advantage::AContext;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Products of plain numbers, for the bodies
pub fn mul(a: f64, b: f64) -> f64 {
    a * b
}
pub fn add(a: f64, b: f64) -> f64 {
    a + b
}

pub struct Case {
    pub name: &'static str,
    pub n: usize,
    pub m: usize,
    /// the factor that results from the extra arguments
    pub c: f64,
    /// the body gives a vector of the wrong dimension
    pub wrong: bool,
    pub float: Box<dyn Fn(DVector<f64>) -> DVector<f64>>,
    pub active: Box<dyn Fn(DVector<ADouble>) -> DVector<ADouble>>,
    pub obj: Box<dyn Function>,
}

/// The function all bodies compute
fn formula(n: usize, m: usize, c: f64, x: &[f64]) -> Vec<f64> {
    (0..m).map(|i| if n == 0 { c } else { x[i % n] * x[(i + 1) % n] * c + x[(i + 1) % n] }).collect()
}
fn gradient(n: usize, m: usize, c: f64, x: &[f64]) -> Vec<Vec<f64>> {
    (0..m)
        .map(|i| {
            let mut g = vec![0.0; n];
            if n > 0 {
                g[i % n] += x[(i + 1) % n] * c;
                g[(i + 1) % n] += x[i % n] * c + 1.0;
            }
            g
        })
        .collect()
}

const GRID: [f64; 3] = [1.5, -2.0, 0.0];

fn panics<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn vec(x: &[f64]) -> DVector<f64> {
    DVector::from_column_slice(x)
}
fn act(x: &[f64], d: usize) -> DVector<ADouble> {
    DVector::from_fn(x.len(), |i, _| ADouble::new(x[i], if i == d { 1.0 } else { 0.0 }))
}

fn check(k: &Case, evals: &mut u64) -> Result<(), String> {
    let (n, m) = (k.n, k.m);
    if (k.obj.n(), k.obj.m()) != (n, m) {
        return Err(format!("the object reports dimensions {} -> {} instead of {} -> {}", k.obj.n(), k.obj.m(), n, m));
    }
    // arguments of other dimensions
    for w in 0..n + 3 {
        if w == n && !k.wrong {
            continue;
        }
        let x = vec![1.0; w];
        *evals += 4;
        let what = if w == n { "a result of the wrong dimension".to_string() } else { format!("an argument of dimension {} instead of {}", w, n) };
        if !panics(|| (k.float)(vec(&x))) {
            return Err(format!("{} is accepted for plain numbers", what));
        }
        if !panics(|| (k.active)(act(&x, 0))) {
            return Err(format!("{} is accepted for active numbers", what));
        }
        if !panics(|| k.obj.eval(act(&x, 0))) {
            return Err(format!("{} is accepted by the object", what));
        }
        if !panics(|| k.obj.eval_float(vec(&x))) {
            return Err(format!("{} is accepted by the object for plain numbers", what));
        }
        if !panics(|| k.obj.tape(&vec(&x))) {
            return Err(format!("{} is accepted when recording the object", what));
        }
    }
    if k.wrong {
        return Ok(());
    }
    // all points of the grid
    for p in 0..if n <= 4 { 3usize.pow(n as u32) } else { 2 } {
        let x: Vec<f64> = if n <= 4 {
            (0..n).map(|i| GRID[p / 3usize.pow(i as u32) % 3]).collect()
        } else {
            // no two entries and no two products of neighbours are equal
            (0..n).map(|i| (i + 1) as f64 * [0.5, -0.25][p]).collect()
        };
        let y = formula(n, m, k.c, &x);
        let g = gradient(n, m, k.c, &x);
        *evals += 6;
        if (k.float)(vec(&x)).as_slice() != y {
            return Err(format!("gives {:?} at {:?} instead of {:?}", (k.float)(vec(&x)).as_slice(), x, y));
        }
        if k.obj.eval_float(vec(&x)).as_slice() != y {
            return Err(format!("the object gives {:?} at {:?} instead of {:?}", k.obj.eval_float(vec(&x)).as_slice(), x, y));
        }
        for d in 0..n.max(1) {
            let z = (k.active)(act(&x, d));
            let o = k.obj.eval(act(&x, d));
            for (z, who) in [(z, "the function"), (o, "the object")] {
                let ok = z.nrows() == m && (0..m).all(|i| z[i].value() == y[i] && (n == 0 || z[i].dvalue() == g[i][d]));
                if !ok {
                    return Err(format!("{} gives {:?} for active numbers at {:?}, direction {}", who, z.as_slice(), x, d));
                }
            }
        }
        // recordings: by the object, and of the function
        let mut tapes = vec![k.obj.tape(&vec(&x))];
        let mut c = AContext::new();
        let v: Vec<ADouble> = x.iter().map(|x| c.new_indep(*x)).collect();
        let r = (k.active)(DVector::from_vec(v));
        c.set_dep_slice(r.as_slice());
        tapes.push(Box::new(c.tape()));
        for t in tapes.iter_mut() {
            if t.num_indeps() != n || t.num_deps() != m || t.x().as_slice() != x || t.y().as_slice() != y {
                return Err(format!("the recording at {:?} has inputs {:?} and outputs {:?}", x, t.x().as_slice(), t.y().as_slice()));
            }
            for i in 0..m {
                let mut w = vec![0.0; m];
                w[i] = 1.0;
                if t.first_order_reverse(&vec(&w)).as_slice() != g[i] {
                    return Err(format!("the recording at {:?} has another gradient of output {}", x, i));
                }
            }
            let x2: Vec<f64> = x.iter().map(|v| v * 2.0 - 1.0).collect();
            t.zero_order(&vec(&x2));
            if t.y().as_slice() != formula(n, m, k.c, &x2) {
                return Err(format!("the recording at {:?} gives {:?} at {:?}", x, t.y().as_slice(), x2));
            }
        }
    }
    Ok(())
}

/// All forms of adv_dvec!
fn vectors() -> Result<(), String> {
    let t = |v: DVector<f64>, e: Vec<f64>| if v.as_slice() == e { Ok(()) } else { Err(format!("gives {:?} instead of {:?}", v.as_slice(), e)) };
    t(adv_dvec![], vec![])?;
    t(adv_dvec![1.0], vec![1.0])?;
    t(adv_dvec![1.0,], vec![1.0])?;
    t(adv_dvec![1.0, 2.0], vec![1.0, 2.0])?;
    t(adv_dvec!(1.0, 2.0,), vec![1.0, 2.0])?;
    t(adv_dvec! {1.0, 2.0, 3.0}, vec![1.0, 2.0, 3.0])?;
    t(adv_dvec![1.0, 2.0, 3.0, 4.0,], vec![1.0, 2.0, 3.0, 4.0])?;
    for n in 0..5 {
        t(adv_dvec![2.5; n], vec![2.5; n])?;
        t(adv_dvec!(2.5 + 1.0; n + 1), vec![3.5; n + 1])?;
    }
    let mut k = 0.0;
    let mut next = || {
        k += 1.0;
        k
    };
    t(adv_dvec![next(), next(), next()], vec![1.0, 2.0, 3.0])?;
    t(adv_dvec![next(); 2], vec![4.0; 2])?;
    let a = ADouble::new(1.5, 1.0);
    let v = adv_dvec![a, a * a];
    if v.nrows() != 2 || v[1].value() != 2.25 || v[1].dvalue() != 3.0 {
        return Err(format!("gives {:?} for active numbers", v.as_slice()));
    }
    Ok(())
}

use advantage::Tape as _;

pub fn run(cases: Vec<Case>) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut evals = 0;
    let n = cases.len();
    if let Err(e) = vectors() {
        println!("FAIL\tadv_dvec!\t{}", e);
    }
    for k in cases {
        let r = catch_unwind(AssertUnwindSafe(|| check(&k, &mut evals)));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => println!("FAIL\t{}\t{}", k.name, e),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("FAIL\t{}\tpanicked: {}", k.name, m.replace('\n', " "));
            }
        }
    }
    println!("DONE\t{}\t{}", n, evals);
}
