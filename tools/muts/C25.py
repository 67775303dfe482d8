F = 'src/arithmetic/linear_algebra.rs'
BAD = [
 (F, '&self[(0, 2)] * &self[(1, 0)] * &self[(2, 1)] -', '&self[(0, 2)] * &self[(1, 0)] * &self[(1, 2)] -'),
 (F, 'if (bs.len() - i) % 2 > 0 {', 'if bs.len() % 2 > 0 {'),
 (F, 'if (bs.len() - i) % 2 > 0 {', 'if (bs.len() + 1 - i) % 2 > 0 {'),
 (F, 'let tmp = det * (b[k] * r + v[k] * s);', 'let tmp = b[k] * r + v[k] * s;'),
 (F, 'if basis.len() < nrows {\n                    T::zero()', 'if basis.len() + 1 < nrows {\n                    T::zero()'),
 (F, '0 => T::one(),\n', '0 => T::zero(),\n'),
 (F, 'det *= &basis[i][i];', 'det *= &basis[i][0];'),
 (F, 'for i in 0..nrows {\n                        det *=', 'for i in 1..nrows {\n                        det *='),
]
GOOD = [
 (F, 'if (bs.len() - i) % 2 > 0 {', 'if (bs.len() - i) % 2 == 1 {'),
 (F, 'if (bs.len() - i) % 2 > 0 {', 'if (bs.len() + i) % 2 != 0 {'),
 (F, '                    let mut det = T::one();\n                    for i in 0..nrows {\n                        det *= &basis[i][i];\n                    }\n                    det', '                    (0..nrows).fold(T::one(), |d, i| d * &basis[i][i])'),
 (F, '            1 => self[(0, 0)].clone(),\n', ''),
 (F, 'if basis.len() < nrows {\n                    T::zero()', 'if basis.len() != nrows {\n                    T::zero()'),
 (F, 'assert!(nrows == ncols, "must be a square matrix");', 'if nrows != ncols { panic!("must be a square matrix"); }'),
]
