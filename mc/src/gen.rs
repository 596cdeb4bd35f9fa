//! Enumeration of programs and of the points they are evaluated at
use crate::engine::Ex;
use crate::prog::*;

pub struct Gen {
    pub n: usize,
    tables: Vec<Vec<Node>>,
    last: Vec<Vec<usize>>, // indices into the last table, by mask of values that still have to be used
}

impl Gen {
    /// Programs on `n` inputs with one step per entry of `levels` (see `alphabet`), in which every
    /// intermediate value is used. The filter drops steps.
    pub fn new(n: usize, levels: &[u8], keep: impl Fn(&Node) -> bool) -> Gen {
        let tables: Vec<Vec<Node>> =
            levels.iter().enumerate().map(|(i, l)| alphabet(n + i, *l).into_iter().filter(|x| keep(x)).collect()).collect();
        let d = levels.len();
        let t = &tables[d - 1];
        let last = (0..1usize << (d - 1))
            .map(|mask| (0..t.len()).filter(|i| (0..d - 1).all(|b| mask >> b & 1 == 0 || t[*i].uses(n + b))).collect())
            .collect();
        Gen { n, tables, last }
    }

    pub fn units(&self) -> usize {
        if self.tables.len() == 1 {
            self.last[0].len()
        } else {
            self.tables[0].len()
        }
    }

    pub fn bound(&self) -> String {
        format!(
            "{} inputs, all programs of {} steps over step alphabets of {} with every intermediate used",
            self.n,
            self.tables.len(),
            self.tables.iter().map(|t| t.len().to_string()).collect::<Vec<_>>().join("/")
        )
    }

    /// The first step is given by the unit, the others are chosen. None: no such program.
    pub fn program(&self, ex: &mut Ex, unit: usize) -> Option<Vec<Node>> {
        let d = self.tables.len();
        let mut p = Vec::with_capacity(d);
        for i in 0..d {
            if i + 1 == d {
                let mut mask = 0;
                for b in 0..i {
                    if !p.iter().skip(b + 1).any(|n: &Node| n.uses(self.n + b)) {
                        mask |= 1 << b;
                    }
                }
                let l = &self.last[mask];
                if l.is_empty() {
                    return None;
                }
                let c = if i == 0 { unit } else { ex.choose(l.len()) };
                p.push(self.tables[i][l[c]]);
            } else {
                let c = if i == 0 { unit } else { ex.choose(self.tables[i].len()) };
                p.push(self.tables[i][c]);
            }
        }
        Some(p)
    }
}

/// Coordinates for exhaustive grids over one step
pub const WIDE: [f64; 62] = [
    0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 0.1, -0.1, 0.25, 0.9, -0.9, 0.999, -0.999, 1.5, -1.5, 1.0001, 4.0, -4.0, 5.0, -7.0, 7.5, 10.0, -10.0,
    25.0, -25.0, 1e-3, -1e-3, 1e-6, -1e-6, 1e-10, 100.0, -100.0, 255.0, 256.0, 1e3, -1e3, 65536.0, 1e6, -1e6, 1e10, -1e10, 1e20, 1e-20, -0.0,
    // next to where something special happens
    0.9995, 1.0000001, -0.99999, 1.5705, -1.5711, 3.1415, -3.1417, 4.7122, 12.0, 40.0, -40.0, 700.0, 1e-8, 1e-100, 0.0012345678,
];

/// Every single step, with many constants and exponents
pub fn single_steps(n: usize) -> Vec<Node> {
    let mut steps: Vec<Node> = alphabet(n, 2);
    for n in -20..=20 {
        steps.push(Node::Un(Un::Powi(n), 0));
    }
    for n in [-1001, -101, 30, 31, 63, 100, 101, 255, 256, 1000, 32767, 32768, -40001, 65535, 65536, 65537, 16777217, i32::MAX, i32::MIN] {
        steps.push(Node::Un(Un::Powi(n), 0));
    }
    for k in [-2.5, -1.0, 0.1, 1.0 / 3.0, 1.5, 2.5, 4.0, 10.0, 33.0, 0.0012345678, 1.0001, -0.3000001, 12345.678, 1e-9, 3e7] {
        for b in BINS {
            steps.push(Node::BinC(b, 0, k));
            steps.push(Node::CBin(b, k, 0));
        }
        for b in ARITH {
            steps.push(Node::BinF(b, 0, k));
            steps.push(Node::FBin(b, k, 0));
            steps.push(Node::AsgF(b, 0, k));
        }
    }
    steps
}

/// The steps on one value at every coordinate, or those on two at every pair of coordinates
pub fn grid(n: usize) -> (Gen, Vec<Vec<f64>>) {
    let steps: Vec<Node> = single_steps(n).into_iter().filter(|s| n == 1 || s.uses(0) && s.uses(1)).collect();
    let pts = if n == 1 { WIDE.iter().map(|x| vec![*x]).collect() } else { WIDE.iter().flat_map(|x| WIDE.iter().map(move |y| vec![*x, *y])).collect() };
    (Gen { n, last: vec![(0..steps.len()).collect()], tables: vec![steps] }, pts)
}


pub fn points(n: usize, level: u8) -> Vec<Vec<f64>> {
    let p2: Vec<[f64; 3]> = vec![
        [0.5, 2.0, -1.25],
        [-0.7, 1.3, 0.4],
        [2.0, 3.0, 0.125],
        [0.0, 1.0, -2.0],
        [1.0, -2.0, 0.0],
        [0.3, 0.3, 0.3],
        [25.0, 0.01, -3.0],
        [-1.5, -0.25, 6.0],
        [4.0, 0.5, 1.0],
        [-1e3, 7.0, 1e-3],
        [3e-5, -0.999, 12.0],
        [1.0, 1.0, 1.0],
        [-2.0, 2.0, -2.0],
        [1e6, 1e-6, -40.0],
    ];
    let k = match level {
        0 => 3,
        1 => 6,
        2 => 10,
        _ => p2.len(),
    };
    p2.into_iter().take(k).map(|p| p[..n].to_vec()).collect()
}

/// Four seed directions for n inputs
pub const ND: usize = 6;
pub fn dirs(n: usize) -> [Vec<f64>; ND] {
    // the last two have tiny and huge components
    let (t, h) = (2f64.powi(-60), 2f64.powi(50));
    let a = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [-0.75, 2.0, 0.5], [3.0, -5.0, -1.0], [3.0 * t, -t * t, t], [-h, 3.0 * t, 1.5 * h]];
    std::array::from_fn(|k| if n == 1 && k == 1 { vec![-2.5] } else { a[k][..n].to_vec() })
}
