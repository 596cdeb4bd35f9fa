//! Structure of a tape
use advantage::{OpCode, Operation, Tape};

fn arity(o: OpCode) -> usize {
    match o {
        OpCode::Nop | OpCode::Const => 0,
        OpCode::Add | OpCode::Sub | OpCode::Mul | OpCode::Div | OpCode::Powf => 2,
        _ => 1,
    }
}

/// the recorded value of an operation, from its definition
fn plain(o: OpCode, a: f64, b: f64) -> f64 {
    match o {
        OpCode::Add => a + b,
        OpCode::Sub => a - b,
        OpCode::Mul => a * b,
        OpCode::Div => a / b,
        OpCode::Sin => a.sin(),
        OpCode::Cos => a.cos(),
        OpCode::Tan => a.tan(),
        OpCode::Abs => a.abs(),
        OpCode::Exp => a.exp(),
        OpCode::Ln => a.ln(),
        OpCode::Asin => a.asin(),
        OpCode::Acos => a.acos(),
        OpCode::Atan => a.atan(),
        OpCode::Cbrt => a.cbrt(),
        OpCode::Powf => a.powf(b),
        OpCode::Nop | OpCode::Const => unreachable!(),
    }
}

/// The structural part: definitions, uses, order, queries
pub fn well_formed(t: &dyn Tape) -> Result<Vec<Operation>, String> {
    let ops: Vec<Operation> = t.ops_iter().collect();
    let rev: Vec<usize> = t.ops_iter().rev().map(|o| o.vid).collect();
    if rev.iter().rev().ne(ops.iter().map(|o| &o.vid)) {
        return Err("operations differ between forward and backward iteration".into());
    }
    let v = t.values();
    let n = v.len();
    // 0 undefined, 1 input, 2 operation
    let mut def = vec![0u8; n];
    for i in t.indeps() {
        if *i >= n {
            return Err(format!("input value {} does not exist", i));
        }
        if def[*i] != 0 {
            return Err(format!("value {} is defined twice", i));
        }
        def[*i] = 1;
    }
    for (k, o) in ops.iter().enumerate() {
        let args: Vec<usize> = [o.arg1, o.arg2].iter().flatten().cloned().collect();
        if o.opcode == OpCode::Nop {
            return Err(format!("operation {} is a no-operation", k));
        }
        if args.len() != arity(o.opcode) || (o.arg1.is_none() && o.arg2.is_some()) {
            return Err(format!("operation {} ({:?}) has operands {:?} {:?}", k, o.opcode, o.arg1, o.arg2));
        }
        if o.vid >= n {
            return Err(format!("operation {} defines value {} which does not exist", k, o.vid));
        }
        for a in &args {
            if *a >= n || def[*a] == 0 {
                return Err(format!("operation {} ({:?}) uses value {} before it is defined", k, o.opcode, a));
            }
        }
        if def[o.vid] != 0 {
            return Err(format!("value {} is defined twice", o.vid));
        }
        def[o.vid] = 2;
        if o.opcode != OpCode::Const {
            let w = plain(o.opcode, v[args[0]], *args.get(1).map(|i| &v[*i]).unwrap_or(&0.0));
            let g = v[o.vid];
            if !(g == w || (g.is_nan() && w.is_nan()) || w.is_finite() && (g - w).abs() <= 1e-14 * w.abs()) {
                return Err(format!("value {} is {:e}, but {:?} of its operands is {:e}", o.vid, g, o.opcode, w));
            }
        }
    }
    for d in t.deps() {
        if *d >= n || def[*d] == 0 {
            return Err(format!("output value {} is not defined", d));
        }
    }
    if let Some(i) = def.iter().position(|d| *d == 0) {
        return Err(format!("value {} is never defined", i));
    }
    // queries
    if t.num_indeps() != t.indeps().len() || t.num_deps() != t.deps().len() {
        return Err(format!("reports {} inputs and {} outputs, lists {} and {}", t.num_indeps(), t.num_deps(), t.indeps().len(), t.deps().len()));
    }
    let abs = ops.iter().filter(|o| o.opcode == OpCode::Abs).count();
    if t.num_abs() != abs {
        return Err(format!("reports {} abs operations, contains {}", t.num_abs(), abs));
    }
    let max = t.indeps().iter().chain(t.deps()).cloned().chain(ops.iter().map(|o| o.vid)).max().unwrap_or(0);
    if t.max_id() != max {
        return Err(format!("reports largest value id {} instead of {}", t.max_id(), max));
    }
    let eq = |a: &[f64], ids: &[usize]| a.len() == ids.len() && a.iter().zip(ids).all(|(a, i)| a.to_bits() == v[*i].to_bits());
    if !eq(t.x().as_slice(), t.indeps()) {
        return Err(format!("stored inputs {:?} are not the values of {:?}", t.x().as_slice(), t.indeps()));
    }
    if !eq(t.y().as_slice(), t.deps()) {
        return Err(format!("stored outputs {:?} are not the values of {:?}", t.y().as_slice(), t.deps()));
    }
    Ok(ops)
}

