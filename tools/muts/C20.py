M = 'src/arithmetic/modular_solver.rs'
L = 'src/spacegroups/lattices.rs'
S = 'src/symmetries.rs'
G = 'src/pgraphs.rs'
T = 'src/spacegroups/types.rs'
BAD = [
 (S, '''    if x.is_integer() {
        x.to_integer().to_i32()
    } else {
        None
    }''', '''    x.to_integer().to_i32()'''),
 (L, '''    if x.is_integer() {
        x.to_integer().to_i32()
    } else {
        None
    }''', '''    x.round().to_integer().to_i32()'''),
 (S, 'r_to_i32(x).unwrap()', 'r_to_i32(x).unwrap_or(0)'),
 (L, 'common_denom.to_i32().unwrap()', 'common_denom.to_i32().unwrap_or_default()'),
 (G, 't[i][k] += s[k] as i64;', 't[i][k] += (s[k] as i16) as i64;'),
 (M, '.map(|i| (row[i] * b[i][j]) % prime)', '.map(|i| ((row[i] as f64 * b[i][j] as f64) % prime as f64) as i64)'),
 (M, '.map(|i| row[i] * b[i][j]).sum()', '.fold(0i64, |s, i| s.wrapping_add(row[i].wrapping_mul(b[i][j])))'),
 [(M, 'use num_rational::BigRational;', 'use num_rational::BigRational;\nuse num_traits::ToPrimitive;'), (M, 'while &u1.pow(2) > &h {', 'let bound = h.to_f64().unwrap().sqrt();\n    while u1.to_f64().unwrap() > bound {')],
 [(M, 'use num_rational::BigRational;', 'use num_rational::BigRational;\nuse num_traits::ToPrimitive;'), (M, 'while &u1.pow(2) > &h {', 'let bound = BigInt::from(h.to_f64().unwrap().sqrt() as i64);\n    while &u1 > &bound {')],
 [(S, 'use num_traits', 'use num_traits::ToPrimitive as _; use num_traits'), (S, 'x - x.floor()', 'x - BigRational::from_float(x.to_f64().unwrap().floor()).unwrap()')],
]
GOOD = [
 (M, '''    let golden_ratio = (1.0 + (5 as f64).sqrt()) / 2.0;

    (2.0 * (log_delta + golden_ratio.ln()) / (prime as f64).ln()).ceil() as u64
}
''', '''    steps_for(log_delta, prime as f64)
}

fn steps_for(log_delta: f64, prime: f64) -> u64 {
    let golden_ratio = (1.0 + 5.0_f64.sqrt()) / 2.0;
    (2.0 * (log_delta + golden_ratio.ln()) / prime.ln()).ceil() as u64
}
'''),
 [(M, 'for step in 0..nr_steps {', 'let mut step = 0;\n        while step < nr_steps {'), (M, 'if step + 1 < nr_steps {', 'step += 1;\n            if step < nr_steps {')],
 (S, '''    if x.is_integer() {
        x.to_integer().to_i32()
    } else {
        None
    }''', '''    if !x.is_integer() {
        return None;
    }
    x.to_integer().to_i32()'''),
 (S, '''    if x.is_integer() {
        x.to_integer().to_i32()
    } else {
        None
    }''', '''    if x.denom() == &BigInt::from(1) {
        x.numer().to_i32()
    } else {
        None
    }'''),
 (S, 'r_to_i32(x).unwrap()', 'r_to_i32(x).expect("integral")'),
 (G, 't[i][k] += s[k] as i64;', 't[i][k] += i64::from(s[k]);'),
 (S, 'let head = *imgs.get(&e.head).unwrap() as u32;', 'let head = u32::try_from(*imgs.get(&e.head).unwrap()).unwrap();'),
]
